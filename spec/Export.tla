------------------------------- MODULE Export -------------------------------
(* What the export formats write, as functions of the model. A table has a    *)
(* heading, row labels and values; numbers are scaled to integers.            *)
EXTENDS Integers, Sequences, FiniteSets

Table(cols, labels, vals) == [head |-> <<"Row">> \o cols, labels |-> labels, v |-> vals]
Column(vec) == [i \in 1..Len(vec) |-> <<vec[i]>>]
Pick(m, idx) == [i \in 1..Len(m) |-> [j \in 1..Len(idx) |-> m[i][idx[j] + 1]]]   \* idx counts from 0
BoundaryHead == <<"z_1", "z_2">>

---- (* csv: name and table, as a set of pairs *)
PerInstance(m) == {
    <<"coordinates.csv", Table(BoundaryHead, m.labels, m.z)>>,
    <<"feature_raw.csv", Table(m.feats, m.labels, Pick(m.xraw, m.idx))>>,
    <<"feature_process.csv", Table(m.feats, m.labels, m.x)>>,
    <<"algorithm_raw.csv", Table(m.algos, m.labels, m.yraw)>>,
    <<"algorithm_process.csv", Table(m.algos, m.labels, m.y)>>,
    <<"algorithm_bin.csv", Table(m.algos, m.labels, m.ybin)>>,
    <<"algorithm_svm.csv", Table(m.algos, m.labels, m.yhat)>>,
    <<"good_algos.csv", Table(<<"NumGoodAlgos">>, m.labels, Column(m.ngood))>>,
    <<"beta_easy.csv", Table(<<"IsBetaEasy">>, m.labels, Column(m.beta))>>,
    <<"portfolio.csv", Table(<<"Best_Algorithm">>, m.labels, Column(m.p))>>,
    <<"portfolio_svm.csv", Table(<<"Best_Algorithm">>, m.labels, Column(m.sel0))>>}
Sub(row, cols) == [k \in 1..Len(cols) |-> row[cols[k]]]
TraceHead == <<"Area_Good_Normalised", "Density_Good_Normalised", "Purity_Good",
               "Area_Best_Normalised", "Density_Best_Normalised", "Purity_Best">>
Summaries(m) == {
    <<"footprint_performance.csv", Table(TraceHead, m.algos, [a \in 1..Len(m.algos) |-> Sub(m.tsum[a], <<2, 4, 5, 7, 9, 10>>)])>>,
    <<"projection_matrix.csv", Table(m.feats, <<"Z_{1}", "Z_{2}">>, m.amat)>>,
    <<"svm_table.csv", Table(m.psumhead, m.psumrows, m.psum)>>}
CsvTables(m) == PerInstance(m) \cup Summaries(m)
\* boundary tables: the row labels only number the points
Boundaries(m) == {<<"bounds.csv", m.edge>>, <<"bounds_prunned.csv", m.ecorr>>}

\* footprint tables: the outlines one after the other; an outline's closing point may be left out
Open(ring) == SubSeq(ring, 1, Len(ring) - 1)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Outlines(_, _)
Outlines(pts, rings) ==
    IF rings = <<>> THEN pts = <<>>
    ELSE LET o == Open(Head(rings)) n == Len(o)
         IN /\ StartsWith(pts, o)
            /\ \/ Outlines(SubSeq(pts, n + 1, Len(pts)), Tail(rings))
               \/ /\ Len(pts) > n /\ pts[n + 1] = o[1]
                  /\ Outlines(SubSeq(pts, n + 2, Len(pts)), Tail(rings))
FootName(label, kind) == "footprint_" \o label \o "_" \o kind \o ".csv"

---- (* web: colours *)
Missing == -2000000002
Cells(v) == {<<i, j>> : i \in 1..Len(v), j \in 1..Len(v[1])}
Known(v, S) == {x \in S : v[x[1]][x[2]] # Missing}
\* colours c of values v over the cells S are an increasing scaling to 0..255
\* (missing values have a colour, too, but have no part in the scaling)
Scaling(v, c, S) ==
    LET val(x) == v[x[1]][x[2]] col(x) == c[x[1]][x[2]]
        lo == CHOOSE a \in {val(x) : x \in S} : \A x \in S : a <= val(x)
        hi == CHOOSE a \in {val(x) : x \in S} : \A x \in S : a >= val(x)
        AbsV(a) == IF a < 0 THEN -a ELSE a
    IN S # {} =>
       /\ \A x \in S : col(x) \in 0..255
       /\ lo < hi => \A x \in S : /\ (val(x) = lo => col(x) = 0)
                                  /\ (val(x) = hi => col(x) = 255)
                                  /\ AbsV(col(x) * (hi - lo) - 255 * (val(x) - lo)) <= hi - lo
       /\ \A x, y \in S : val(x) <= val(y) => col(x) <= col(y)
PerColumn(v, c) == \A j \in 1..Len(v[1]) : Scaling(v, c, Known(v, {x \in Cells(v) : x[2] = j}))
OverAll(v, c) == Scaling(v, c, Known(v, Cells(v)))
\* name, labels of the columns, values, per column or over all
WebTables(m) == {
    <<"feature_raw_color.csv", m.feats, Pick(m.xraw, m.idx), "column">>,
    <<"feature_process_color.csv", m.feats, m.x, "column">>,
    <<"algorithm_raw_single_color.csv", m.algos, m.yraw, "column">>,
    <<"algorithm_process_single_color.csv", m.algos, m.y, "column">>,
    <<"algorithm_raw_color.csv", m.algos, m.yraw, "all">>,
    <<"algorithm_process_color.csv", m.algos, m.y, "all">>,
    <<"good_algos_color.csv", <<"NumGoodAlgos">>, Column(m.ngood), "all">>}

---- (* graphs: a plot is a set of named groups of points, or of coloured points *)
Under(z, name, vec, v) == [name |-> name, pts |-> {z[i] : i \in {k \in 1..Len(z) : vec[k] = v}}]
Grouped(gs) == {g \in gs : g.pts # {}}
Binary(z, vec) == Grouped({Under(z, "GOOD", vec, 1), Under(z, "BAD", vec, 0)})
\* nobody: 0; algorithm a: a
Portfolio(z, vec, shown) == Grouped({Under(z, "None", vec, 0)} \cup {Under(z, shown[a], vec, a) : a \in 1..Len(shown)})
Sources(z, s) == {[name |-> n, pts |-> {z[i] : i \in {k \in 1..Len(z) : s[k] = n}}] : n \in {s[k] : k \in 1..Len(s)}}
Recommended(m) == [i \in 1..Len(m.sel0) |-> m.sel0[i] + 1]     \* sel0 counts from 0, -1 for none
Col(v, j) == [i \in 1..Len(v) |-> v[i][j]]
GoodShown(m, a) == IF m.usesim THEN Col(m.yhat, a) ELSE Col(m.ybin, a)
BestShown(m) == IF m.usesim THEN Recommended(m) ELSE m.p
\* rings of the footprints of the algorithms that have an instance
GoodRings(m, a) == IF \E i \in 1..Len(m.z) : GoodShown(m, a)[i] = 1 THEN m.good[a] ELSE {}
BestRings(m) == UNION {m.best[a] : a \in {k \in 1..Len(m.algos) : \E i \in 1..Len(m.z) : BestShown(m)[i] = k}}
GroupPlots(m) ==
    {<<"binary_performance_" \o m.algos[a] \o ".png", Binary(m.z, Col(m.ybin, a)), {}>> : a \in 1..Len(m.algos)}
    \cup {<<"binary_svm_" \o m.algos[a] \o ".png", Binary(m.z, Col(m.yhat, a)), {}>> : a \in 1..Len(m.algos)}
    \cup {<<"footprint_" \o m.algos[a] \o ".png", Binary(m.z, GoodShown(m, a)), GoodRings(m, a)>> : a \in 1..Len(m.algos)}
    \cup {<<"distribution_portfolio.png", Portfolio(m.z, m.p, m.shown), {}>>,
          <<"distribution_svm_portfolio.png", Portfolio(m.z, Recommended(m), m.shown), {}>>,
          <<"distribution_beta_score.png", Binary(m.z, m.beta), {}>>,
          <<"footprint_portfolio.png", Portfolio(m.z, BestShown(m), m.shown), BestRings(m)>>}
    \cup (IF m.s = <<>> THEN {} ELSE {<<"distribution_sources.png", Sources(m.z, m.s), {}>>})
FeaturePlot(m, f) == "distribution_feature_" \o m.feats[f] \o ".png"
GlobalPlot(m, a) == "distribution_performance_global_normalized_" \o m.algos[a] \o ".png"
OwnPlot(m, a) == "distribution_performance_individual_normalized_" \o m.algos[a] \o ".png"
CountPlot == "distribution_number_good_algos.png"
ColourPlots(m) == {FeaturePlot(m, f) : f \in 1..Len(m.feats)} \cup {GlobalPlot(m, a) : a \in 1..Len(m.algos)}
                  \cup {OwnPlot(m, a) : a \in 1..Len(m.algos)} \cup {CountPlot}
GraphNames(m) == ColourPlots(m) \cup {g[1] : g \in GroupPlots(m)}
\* colours (0..1000) of the values of several vectors scaled together, in order
UnitScaling(vecs, cols, linear) ==
    LET S == {<<j, i>> : j \in 1..Len(vecs), i \in 1..Len(vecs[1])}
        V == {vecs[x[1]][x[2]] : x \in S}
        val(x) == vecs[x[1]][x[2]] col(x) == cols[x[1]][x[2]]
        lo == CHOOSE a \in V : \A b \in V : a <= b
        hi == CHOOSE a \in V : \A b \in V : a >= b
        AbsU(a) == IF a < 0 THEN -a ELSE a
    IN \A x \in S : /\ col(x) \in 0..1000
                    /\ lo < hi /\ val(x) = lo => col(x) = 0
                    /\ lo < hi /\ val(x) = hi => col(x) = 1000
                    /\ linear /\ lo < hi => AbsU(col(x) * (hi - lo) - 1000 * (val(x) - lo)) <= hi - lo
                    /\ \A y \in S : val(x) <= val(y) => col(x) <= col(y)

---- (* names of the files of each format *)
CsvNames(m) == {t[1] : t \in CsvTables(m)} \cup {b[1] : b \in Boundaries(m)}
CsvMayNames(m) == {FootName(m.algos[a], k) : a \in 1..Len(m.algos), k \in {"good", "best"}}
WebNames(m) == {t[1] : t \in WebTables(m)} \cup {"color_table.csv"}

---- (* a directory: path to content; and what one save does to it *)
Overlay(d, w) == [f \in (DOMAIN d) \cup (DOMAIN w) |-> IF f \in DOMAIN w THEN w[f] ELSE d[f]]
=============================================================================

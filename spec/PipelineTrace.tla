--------------------------- MODULE PipelineTrace ----------------------------
(* Records: the metadata (fx, fy: cells, all values different), the options    *)
(* that matter here, the values after the first three stages, the final ones,  *)
(* and fingerprints of repeated runs.                                          *)
EXTENDS Pipeline, TraceLib
R == INSTANCE Prelim

Cell(f, rows, cols) == [i \in 1..Len(rows) |-> [j \in 1..Len(cols) |-> f[rows[i]][cols[j]]]]
Column(m, j) == [i \in 1..Len(m) |-> m[i][j]]
\* transformed values keep the order of the original ones, column by column
Keeps(raw, t) == /\ Len(raw) = Len(t)
                 /\ \A i \in 1..Len(raw) : Len(raw[i]) = Len(t[i])
                 /\ Len(raw) > 0 => \A j \in 1..Len(raw[1]) : R!Order(Column(raw, j), Column(t, j))
Listed(n, list) == [i \in 1..n |-> i]
Subset(full, o) ==      \* o.kind, o.a/o.b, o.list (positions)
    CASE o.kind = "file" -> LET ks == {o.list[i] : i \in 1..Len(o.list)} \cap (1..Len(full)) IN Keep(full, {full[k] : k \in ks})
      [] OTHER -> full
SubsetOk(rows, full, o) ==
    CASE o.kind \in {"none", "file"} -> rows = Subset(full, o)
      [] o.kind = "fraction" -> IsSubSeq(rows, full) /\ Abs(o.b * Len(rows) - o.a * Len(full)) < o.b
      [] o.kind = "density" -> IsSubSeq(rows, full) /\ rows # <<>> /\ rows[1] = full[1]

Table(r) == [rows |-> [i \in 1..Len(r.fx) |-> i], feats |-> [j \in 1..Len(r.fx[1]) |-> j], algos |-> [a \in 1..Len(r.fy[1]) |-> a]]
Want(r) == TLCEval(Prepared(Table(r), r.wish, r.fx, r.fy))
Dealt(f, ids, s, r) == IF r.has_s THEN s = ids ELSE s = <<>>
\* what every stage up to feature selection hands on
Common(k, v, r, t) ==
    LET rows == v.labels
    IN Clause("C80:labels-" \o k, \A i \in 1..Len(rows) : rows[i] > 0)
       \cup Clause("C80:features-raw-" \o k, v.xraw = Cell(r.fx, rows, t.feats))
       \cup Clause("C80:performances-raw-" \o k, v.yraw = Cell(r.fy, rows, t.algos))
       \cup Clause("C80:sources-" \o k, Dealt("s", rows, v.s, r))
       \cup Clause("C80:features-" \o k, Keeps(Cell(r.fx, rows, v.feats), v.x))
       \cup Clause("C80:performances-" \o k, r.rule.abs \/ k = "preprocessing" => Keeps(Cell(r.fy, rows, t.algos), v.y))
       \cup Clause("C80:names-" \o k, v.algos = t.algos)
Rule(k, v, r, t) ==
    LET rows == v.labels m == Cell(r.fy, rows, t.algos)
        size(vec) == Len(vec) = Len(rows)
        at(i) == TLCEval({a \in 1..Len(t.algos) : v.ybin[i][a] = 1})
    IN Clause("C80:good-" \o k, size(v.ybin) /\ \A i \in 1..Len(rows) : Len(v.ybin[i]) = Len(t.algos)
                 /\ \A a \in 1..Len(t.algos) : (v.ybin[i][a] = 1) \in R!GoodSet(m[i], a, r.rule, 1))
       \cup Clause("C80:best-" \o k, size(v.ybest) /\ \A i \in 1..Len(rows) : v.ybest[i] = R!Best(m[i], r.rule.max))
       \cup Clause("C80:first-" \o k, size(v.p) /\ \A i \in 1..Len(rows) : v.p[i] = R!FirstBest(m[i], r.rule.max))
       \cup Clause("C80:count-" \o k, size(v.count) /\ size(v.ybin) /\ \A i \in 1..Len(rows) : v.count[i] = Cardinality(at(i)))
       \cup Clause("C80:easy-" \o k, size(v.beta) /\ size(v.ybin) /\ \A i \in 1..Len(rows) :
                     (v.beta[i] = 1) <=> R!Easy(Cardinality(at(i)), Len(t.algos), r.bn, r.bd))
Sum(s) == R!SumSeq(s)
\* x and a in ten-thousandths of their largest entry, z in the product of these units
Projected(v) ==
    /\ Len(v.z) = Len(v.labels) /\ Len(v.a) = 2 /\ \A k \in 1..2 : Len(v.a[k]) = Len(v.feats)
    /\ Len(v.x2) = Len(v.z)
    /\ \A i \in 1..Len(v.z) : \A k \in 1..2 :
         Abs(Sum([j \in 1..Len(v.feats) |-> v.x2[i][j] * v.a[k][j]]) - v.z[i][k])
           <= 1 + Sum([j \in 1..Len(v.feats) |-> Abs(v.x2[i][j]) + Abs(v.a[k][j]) + 1])
Count(inside, lab) == Cardinality({i \in Rng(inside) : lab[i] = 1})
Final(r, v, t) ==
    LET n == Len(v.labels) na == Len(t.algos) IN
    UNION {Clause("C80:length-" \o q[1], q[2] = n) : q \in Rng(v.lens)}
    \cup UNION {Clause("C80:width-" \o q[1], q[2] = na) : q \in Rng(v.widths)}
    \cup Clause("C80:selected", Len(v.idx) = Len(v.feats) /\ \A j \in 1..Len(v.feats) : v.idx[j] + 1 \in 1..Len(t.feats) /\ t.feats[v.idx[j] + 1] = v.feats[j])
    \cup Clause("C80:coordinates", Projected(v))
    \cup Clause("C80:projection-names", v.pilotnames = v.feats)
    \cup Clause("C80:predictions", v.yhat = v.yhatagain)
    \cup Clause("C80:recommendations", \A i \in 1..n : v.sel0[i] >= 0 => v.sel0[i] < na /\ v.yhat[i][v.sel0[i] + 1] = 1)
    \cup Clause("C80:prediction-names", v.pythianames = t.algos)
    \cup Clause("C80:footprint-names", v.tracenames = t.algos /\ Len(v.good) = na /\ Len(v.best) = na)
    \cup Clause("C80:footprints", \A a \in 1..na : /\ v.good[a].elements = Len(v.good[a].inside)
                /\ v.good[a].hits = Count(v.good[a].inside, Column(IF r.usesim THEN v.yhat ELSE v.ybin, a))
                /\ v.best[a].elements = Len(v.best[a].inside)
                /\ r.usesim => v.best[a].hits = Count(v.best[a].inside, [i \in 1..n |-> IF v.sel0[i] = a - 1 THEN 1 ELSE 0]))
    \cup Clause("C80:hard-footprint", v.hard.elements = Len(v.hard.inside) /\ v.hard.hits = Count(v.hard.inside, [i \in 1..n |-> 1 - v.beta[i]]))
    \cup Clause("C80:space-footprint", v.space.elements = Len(v.space.inside) /\ v.space.hits = Len(v.space.inside))
    \cup Clause("C80:exported", v.csv.labels = v.labels /\ v.csv.feats = v.feats /\ v.csv.xraw = Cell(r.fx, v.labels, v.feats)
                               /\ v.csv.yraw = Cell(r.fy, v.labels, t.algos) /\ v.csv.z = v.z)
Agree(a, b) == Rng(a) = Rng(b)
Verdict(r) ==
    IF r.status = "skipped" THEN {}
    ELSE IF r.status = "refused" THEN {"C80:refused"}
    ELSE LET t == Want(r) v1 == r.after[1] v2 == r.after[2] v3 == r.after[3] v4 == r.after[4] IN
       Clause("C80:prepared-rows", v1.labels = t.rows) \cup Clause("C80:prepared-features", v1.feats = t.feats)
       \cup Common("preprocessing", v1, r, t)
       \cup Clause("C80:subset", SubsetOk(v2.labels, v1.labels, r.o)) \cup Common("prelim", v2, r, t) \cup Rule("prelim", v2, r, t)
       \cup Clause("C80:rows-sifted", IF r.o.kind = "density" THEN IsSubSeq(v3.labels, v1.labels) /\ v3.labels # <<>> ELSE v3.labels = v2.labels)
       \cup Clause("C80:features-sifted-names", IsSubSeq(v3.feats, t.feats) /\ v3.feats # <<>>)
       \cup Common("sifted", v3, r, t) \cup Rule("sifted", v3, r, t)
       \cup Clause("C80:rows-final", v4.labels = v3.labels /\ v4.feats = v3.feats)
       \cup Common("final", v4, r, t) \cup Rule("final", v4, r, t)
       \cup Final(r, v4, t)
       \cup Clause("C80:same-model", r.samemodel)
       \cup Clause("C80:again", Agree(r.prints, r.again))
       \cup Clause("C80:fresh", Agree(r.prints, r.fresh))
       \cup Clause("C80:elsewhere", Agree(r.prints, r.elsewhere))
VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================

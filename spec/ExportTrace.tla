---------------------------- MODULE ExportTrace -----------------------------
(* Records: the model m that was saved and what was found afterwards.         *)
(* csv, web: files (name to head, labels, v). graph: plots. history: ref (what *)
(* each format writes from an equal model into an empty directory) and steps   *)
(* (before, after: sets of <<path, content>>).                                 *)
EXTENDS Export, TraceLib

Found(r, name) == {f \in Rng(r.files) : f.name = name}
TheFile(r, name) == CHOOSE f \in Found(r, name) : TRUE
AsTable(f) == [head |-> f.head, labels |-> f.labels, v |-> f.v]
Sees(r, name, P(_)) == Cardinality(Found(r, name)) = 1 /\ P(TheFile(r, name))

FootOk(r, a, kind, rings) ==
    LET name == FootName(r.m.algos[a], kind)
    IN IF Found(r, name) = {} THEN rings = <<>>
       ELSE LET f == TheFile(r, name)
            IN f.head = <<"Row">> \o BoundaryHead /\ Len(f.v) = Len(f.labels) /\ Outlines(f.v, rings)
CsvVerdict(r) ==
    LET m == r.m
    IN UNION {Clause("C70:" \o t[1], LET same(f) == AsTable(f) = t[2] IN Sees(r, t[1], same)) : t \in CsvTables(m)}
       \cup UNION {Clause("C70:" \o b[1], LET same(f) == f.head = <<"Row">> \o BoundaryHead /\ f.v = b[2] /\ Len(f.labels) = Len(b[2])
                                          IN Sees(r, b[1], same)) : b \in Boundaries(m)}
       \cup UNION {Clause("C70:good-footprint", FootOk(r, a, "good", m.rgood[a]))
                   \cup Clause("C70:best-footprint", FootOk(r, a, "best", m.rbest[a])) : a \in 1..Len(m.algos)}
       \cup Clause("C70:mat-names", r.mat = m.algos)

WebVerdict(r) ==
    LET m == r.m
        shape(f, t) == /\ f.head = <<"Row">> \o t[2] /\ f.labels = m.labels /\ Len(f.v) = Len(t[3])
                       /\ \A i \in 1..Len(f.v) : Len(f.v[i]) = Len(t[2]) /\ \A j \in 1..Len(t[2]) : f.v[i][j] \in 0..255
        ok(f, t) == shape(f, t) /\ (IF t[4] = "all" THEN OverAll(t[3], f.v) ELSE PerColumn(t[3], f.v))
    IN UNION {Clause("C71:" \o t[1], LET good(f) == ok(f, t) IN Sees(r, t[1], good)) : t \in WebTables(m)}
       \cup Clause("C71:color_table.csv", LET good(f) == /\ f.head = <<"R", "G", "B">> /\ Len(f.v) = 256
                                                         /\ \A i \in 1..256 : \A k \in 1..3 : f.v[i][k] \in 0..255
                                          IN Sees(r, "color_table.csv", good))

Plot(r, name) == {p \in Rng(r.plots) : p.name = name}
ThePlot(r, name) == CHOOSE p \in Plot(r, name) : TRUE
Shown(p) == {[name |-> g.name, pts |-> Rng(g.pts)] : g \in {h \in Rng(p.groups) : h.pts # <<>>}}
\* no instance is drawn twice
RECURSIVE Total(_)
Total(gs) == IF gs = <<>> THEN 0 ELSE Len(Head(gs).pts) + Total(Tail(gs))
Once(p, m) == Total(p.groups) + Len(p.dots) = Len(m.z)
\* the value given to the point of each instance
Coloured(p, m) == {<<d[1], d[2]>> : d \in Rng(p.dots)} = Rng(m.z) /\ Once(p, m)
ValueOf(p, pt) == LET d == CHOOSE x \in Rng(p.dots) : <<x[1], x[2]>> = pt IN d[3]
\* of two instances of a plot the one with the higher value has the higher place in the colour scale
Shaded(dots) == \A i, j \in 1..Len(dots) : dots[i][3] < dots[j][3] => dots[i][4] <= dots[j][4] /\ (dots[i][3] + 20 < dots[j][3] => dots[i][4] < dots[j][4])
Values(p, m) == [i \in 1..Len(m.z) |-> ValueOf(p, m.z[i])]
GraphVerdict(r) ==
    LET m == [r.m EXCEPT !.good = [a \in 1..Len(r.m.algos) |-> Rng(r.m.good[a])], !.best = [a \in 1..Len(r.m.algos) |-> Rng(r.m.best[a])]]
        names == {p.name : p \in Rng(r.plots)}
        colour == ColourPlots(m)
        ready == \A n \in colour : n \in names /\ Coloured(ThePlot(r, n), m)
        val(n) == Values(ThePlot(r, n), m)
        na == Len(m.algos)
    IN Clause("C73:files", names = GraphNames(m) /\ \A n \in names : Cardinality(Plot(r, n)) = 1)
       \cup UNION {IF g[1] \notin names THEN {} ELSE LET p == ThePlot(r, g[1]) IN
                   Clause("C73:groups", p.dots = <<>> /\ Once(p, m) /\ Shown(p) = g[2])
                   \cup Clause("C73:footprints", Rng(p.rings) = g[3] /\ Len(p.rings) = Cardinality(g[3]))
                   : g \in GroupPlots(m)}
       \cup Clause("C73:points", ready)
       \cup (IF ~ready THEN {} ELSE
             UNION {Clause("C73:feature", UnitScaling(<<Col(m.x, f)>>, <<val(FeaturePlot(m, f))>>, TRUE)) : f \in 1..Len(m.feats)}
             \cup UNION {Clause("C73:own-performance", UnitScaling(<<Col(m.yraw, a)>>, <<val(OwnPlot(m, a))>>, TRUE)) : a \in 1..na}
             \cup Clause("C73:global-performance", UnitScaling([a \in 1..na |-> Col(m.yraw, a)], [a \in 1..na |-> val(GlobalPlot(m, a))], FALSE))
             \cup Clause("C73:number-good", \A i \in 1..Len(m.z) : Abs(val(CountPlot)[i] * na - 1000 * m.count[i]) <= na))
       \cup Clause("C73:shades", \A n \in colour : n \in names => Shaded(ThePlot(r, n).dots))
       \cup Clause("C73:titles", \A p \in Rng(r.plots) : p.titled)

---- (* histories *)
Dir(pairs) == [f \in {p[1] : p \in Rng(pairs)} |-> (CHOOSE p \in Rng(pairs) : p[1] = f)[2]]
CountOf(pairs, x) == Cardinality({i \in 1..Len(pairs) : pairs[i] = x})
StepVerdict(r, k) ==
    LET s == r.steps[k] d == Dir(s.before) e == Dir(s.after)
    IN IF s.op = "zip"
       THEN LET others == {i \in 1..Len(s.before) : s.before[i][1] # s.name /\ s.bases[i] # ".gitignore"}
                want == [i \in others |-> <<"output/" \o s.bases[i], s.before[i][2]>>]
                all == {want[i] : i \in others} \cup Rng(s.members)
            IN Clause("C72:zip-done", s.done)
               \cup (IF ~s.done THEN {} ELSE
                     Clause("C72:zip-contents", \A x \in all : CountOf(s.members, x) = Cardinality({i \in others : want[i] = x}))
                     \cup Clause("C72:zip-names", \A i, j \in 1..Len(s.members) : s.members[i][1] = s.members[j][1] => i = j)
                     \cup Clause("C72:zip-leaves-others", \A f \in DOMAIN d : f # s.name => f \in DOMAIN e /\ e[f] = d[f])
                     \cup Clause("C72:zip-adds-only-itself", DOMAIN e \ DOMAIN d \subseteq {s.name}))
               \cup Clause("C72:model-changed", s.unchanged)
       ELSE IF s.op = "nowhere" THEN Clause("C72:missing-directory", ~s.done) \cup Clause("C72:model-changed", s.unchanged)
       ELSE LET w == Dir(r.ref[s.op])
            IN Clause("C72:save-done", s.done)
               \cup Clause("C72:own-files", \A f \in DOMAIN w : f \in DOMAIN e /\ e[f] = w[f])
               \cup Clause("C72:other-files", \A f \in (DOMAIN d \cup DOMAIN e) \ DOMAIN w : f \in DOMAIN d /\ f \in DOMAIN e /\ d[f] = e[f])
               \cup Clause("C72:model-changed", s.unchanged)
NamesVerdict(r) ==
    LET m == r.m csv == DOMAIN Dir(r.ref.csv)
    IN Clause("C72:csv-files", CsvNames(m) \subseteq csv /\ csv \subseteq CsvNames(m) \cup CsvMayNames(m))
       \cup Clause("C72:web-files", DOMAIN Dir(r.ref.web) = WebNames(m))
       \cup Clause("C72:graph-files", DOMAIN Dir(r.ref.graphs) = GraphNames(m))
       \cup Clause("C72:mat-files", DOMAIN Dir(r.ref.mat) = {"model.mat"})
HistVerdict(r) == IF ~r.refdone THEN {"C72:refused"} ELSE NamesVerdict(r) \cup UNION {StepVerdict(r, k) : k \in 1..Len(r.steps)}

Verdict(r) ==
    IF r.kind = "csv" THEN IF r.done THEN CsvVerdict(r) ELSE {"C70:refused"}
    ELSE IF r.kind = "web" THEN IF r.done THEN WebVerdict(r) ELSE {"C71:refused"}
    ELSE IF r.kind = "graph" THEN IF r.done THEN GraphVerdict(r) ELSE {"C73:refused"}
    ELSE HistVerdict(r)
VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================

-------------------------- MODULE FootprintsTrace ---------------------------
(* Records, by kind:                                                          *)
(*  cluster: pts, k, r2n, r2d (squared radius), got.labels                    *)
(*  radius:  pts (distinct), marked (size of the evidence), got.labels        *)
(*  run:     pts (instances, units of 0.02), ybin, yhat (rows), p, sel0       *)
(*           (0-based, -1 none), beta, usesim, pn, pd (purity); got: foot     *)
(*           (which, algo, footprint), rows, table, laps                      *)
(*  contra:  w, h (cells of 0.2), A, B (cells), owner (per instance: 1 base,  *)
(*           2 test, 0 neither), at (cell of each instance), pn, pd; got:     *)
(*           base, test (footprints)                                          *)
(* A footprint: empty, rings (thousandths), el, good, area, area6             *)
(* (ten-thousandths, millionths), dens (hundredths), pur (millionths),        *)
(* inside (per instance), close (instance too close to the outline to tell),  *)
(* sharp, clean, apart (see harness).                                         *)
EXTENDS Footprints, TraceLib, SequencesExt

Near3(a, b, tol) == Abs(a - b) <= tol
RECURSIVE Shoelace(_, _)
Shoelace(ring, i) == IF i >= Len(ring) THEN 0
    ELSE Cross(ring[1], ring[i], ring[i + 1]) + Shoelace(ring, i + 1)
RECURSIVE Girth(_, _)
Girth(ring, i) == IF i >= Len(ring) THEN 0
    ELSE Abs(ring[i][1] - ring[i + 1][1]) + Abs(ring[i][2] - ring[i + 1][2]) + Girth(ring, i + 1)
RECURSIVE Over(_, _)
\* rings come outline first (counter-clockwise), holes clockwise: signed areas add up
Over(rings, what) == IF rings = <<>> THEN 0
    ELSE (IF what = "area" THEN Shoelace(Head(rings), 1) ELSE Girth(Head(rings), 1)) + Over(Tail(rings), what)

Count(s, P(_)) == Cardinality({i \in 1..Len(s) : P(i)})
\* statistics of footprint f, whose evidence is mask, over instances at pts (thousandths)
Stats(pts, mask, f) ==
    IF f.empty THEN Clause("C60:empty-has-zeros", f.el = 0 /\ f.good = 0 /\ f.area = 0 /\ f.dens = 0 /\ f.pur = 0)
    ELSE LET el == Count(f.inside, LAMBDA i : f.inside[i])
             gd == Count(f.inside, LAMBDA i : f.inside[i] /\ mask[i])
         IN Clause("C60:elements", f.el = el)
            \cup Clause("C60:good-elements", f.good = gd)
            \cup Clause("C60:membership", \A i \in 1..Len(pts) : f.close[i] \/ f.inside[i] = Inside(f.rings, pts[i]))
            \cup Clause("C60:area", Abs(Over(f.rings, "area") - 2 * f.area6) <= 2 * Over(f.rings, "girth") + 20)
            \cup Clause("C60:purity", IF f.el = 0 THEN f.pur = 0 ELSE Near3(f.pur, (1000000 * f.good) \div f.el, 2))
            \cup Clause("C60:density", IF f.area6 < 2000 THEN TRUE
                    ELSE LET want == (1000000 * f.el) \div f.area IN Near3(f.dens, want, want \div f.area + 2))
Milli(p) == <<p[1] * 20, p[2] * 20>>
MilliAll(pts) == [i \in 1..Len(pts) |-> Milli(pts[i])]
\* three times the centre of a piece, in thousandths
Centre3(t) == <<(t[1][1] + t[2][1] + t[3][1]) * 20, (t[1][2] + t[2][2] + t[3][2]) * 20>>
Triple(rings) == [k \in 1..Len(rings) |-> [i \in 1..Len(rings[k]) |-> <<3 * rings[k][i][1], 3 * rings[k][i][2]>>]]
\* region of a footprint against what it must be built from
Region(pts, mask, pn, pd, f, name) ==
    LET u == TLCEval(SetToSeq(Evidence(pts, mask)))
        T == TLCEval(PiecesOf(u, mask))
        K == TLCEval(Kept(pts, u, mask, pn, pd))
        hull == TLCEval(Corners(Evidence(pts, mask)))
        r3 == TLCEval(Triple(f.rings))
    IN IF ~f.sharp THEN {}
       ELSE Clause("C61:" \o name \o "-empty", T = {} => f.empty)
       \cup Clause("C61:" \o name \o "-evidence", f.empty \/ \A k \in 1..Len(f.rings) : \A i \in 1..Len(f.rings[k]) :
                \* every corner of the region within (a hair of) the hull of the evidence
                \A e \in {q \in hull \X hull : q[1] # q[2] /\ \A z \in hull : Cross(q[1], q[2], z) >= 0} :
                    LET a == Milli(e[1]) b == Milli(e[2]) v == f.rings[k][i]
                    IN Cross(a, b, v) >= 0 - 12 * (Abs(a[1] - b[1]) + Abs(a[2] - b[2])))
       \cup (IF ~f.clean THEN {} ELSE
             Clause("C61:" \o name \o "-empty", (K = {}) = f.empty)
             \cup Clause("C61:" \o name \o "-region",
                    /\ \A t \in T : Inside(r3, Centre3(t)) = (t \in K)
                    /\ Abs(f.area6 - 200 * TotalArea2(K)) <= 2000 + 2 * TotalArea2(K)))
EvidenceOf(r, f) ==
    LET n == Len(r.pts) IN
    CASE f.which = "space" -> [i \in 1..n |-> TRUE]
      [] f.which = "hard" -> [i \in 1..n |-> ~r.beta[i]]
      [] f.which = "good" -> [i \in 1..n |-> IF r.usesim THEN r.yhat[i][f.algo] ELSE r.ybin[i][f.algo]]
      [] f.which = "best" -> [i \in 1..n |-> (IF r.usesim THEN r.sel0[i] ELSE r.p[i]) = f.algo - 1]
Pick(g, w, a) == CHOOSE f \in SetOf(g.foot) : f.which = w /\ f.algo = a
RunClauses(r) ==
    LET g == r.got na == Len(r.ybin[1]) m == TLCEval(MilliAll(r.pts))
        wanted == {<<"space", 0>>, <<"hard", 0>>} \cup {<<w, a>> : w \in {"good", "best"}, a \in 1..na}
        sp == Pick(g, "space", 0)
        \* v over whole, in units of 1 / unit; values are rounded
        normed(v, whole, got, unit) == IF whole <= 0 \/ v < 0 THEN TRUE ELSE
            LET w == (Min2(v, 2000000000 \div unit) * unit) \div whole IN Near3(got, w, w \div whole + (IF v > 0 THEN w \div v ELSE 0) + unit \div whole + 2)
        row(f, t, o) == /\ Near3(t[o], f.area, 1) /\ Near3(t[o + 2], f.dens, 1) /\ Near3(t[o + 4], f.pur, 1)
                        /\ normed(f.area, sp.area, t[o + 1], 10000)
                        /\ normed(f.dens, sp.dens, t[o + 3], 1000)
    IN IF {<<f.which, f.algo>> : f \in SetOf(g.foot)} # wanted \/ Len(g.foot) # Cardinality(wanted) THEN {"C60:footprints", "C61:footprints"}
       ELSE UNION {LET f == g.foot[k] mask == TLCEval(EvidenceOf(r, f))
                   IN Stats(m, mask, f)
                      \cup (IF f.which = "best" /\ ~f.apart THEN {} ELSE Region(r.pts, mask, r.pn, r.pd, f, f.which))
                   : k \in 1..Len(g.foot)}
       \cup Clause("C60:summary-rows", g.rows = [a \in 1..na |-> a])
       \cup (IF Len(g.table) # na THEN {"C60:summary-rows"} ELSE
             Clause("C60:summary", \A a \in 1..na :
                row(Pick(g, "good", a), g.table[a], 1) /\ row(Pick(g, "best", a), g.table[a], 6)))
       \* two algorithms whose places no third one enters
       \cup Clause("C62:settled", \A k \in 1..Len(g.laps) : LET l == g.laps[k]
                IN ~l.alone \/ l.area6 <= 1 \/ Loser(l.el, l.gi, l.gj) = "none")
       \cup Clause("C61:arguments-untouched", g.untouched)

RECURSIVE Linked(_, _, _)
\* everything in S reached from W by touching
Linked(S, W, width) == LET Touch(a, b) == Abs(((a - 1) % width) - ((b - 1) % width)) <= 1 /\ Abs(((a - 1) \div width) - ((b - 1) \div width)) <= 1
                           V == W \cup {b \in S : \E a \in W : Touch(a, b)}
                       IN IF V = W THEN W ELSE Linked(S, V, width)
---- (* contradictions on cells; cell c (1..w*h) is at column (c-1)%w *)
Col0(r, c) == (c - 1) % r.w
Row0(r, c) == (c - 1) \div r.w
Probes(r, c) == LET x == Col0(r, c) * 200 y == Row0(r, c) * 200
    IN {<<x + 100, y + 100>>} \cup {<<x + a, y + b>> : a \in {47, 153}, b \in {52, 148}}
CellOf(r, x, y) == IF x \in 0..(r.w - 1) /\ y \in 0..(r.h - 1) THEN y * r.w + x + 1 ELSE 0
Contra(r) ==
    LET A == Rng(r.A) B == Rng(r.B) O == A \cap B g == r.got
        el == Count(r.at, LAMBDA i : r.at[i] \in O)
        gb == Count(r.at, LAMBDA i : r.at[i] \in O /\ r.owner[i] = 1)
        gt == Count(r.at, LAMBDA i : r.at[i] \in O /\ r.owner[i] = 2)
        l == Loser(el, gb, gt)
        all == 1..(r.w * r.h)
        centre(i) == <<Col0(r, r.at[i]) * 200 + 100, Row0(r, r.at[i]) * 200 + 100>>
        m == TLCEval([i \in 1..Len(r.at) |-> centre(i)])
        same(f, S) == /\ f.empty = (S = {})
                      /\ S = {} \/ (\A c \in all : \A q \in Probes(r, c) : Inside(f.rings, q) = (c \in S))
                      /\ Abs(f.area6 - 40000 * Cardinality(S)) <= 40
        \* what the weaker one may keep, and must keep when purity is no issue
        reduced(f, S, o) ==
            /\ f.empty \/ (\A c \in all \ S : \A q \in Probes(r, c) : ~Inside(f.rings, q))
            /\ f.area6 <= 40000 * Cardinality(S) + 40
            /\ r.pn = 0 => \A x \in 0..(r.w - 2) : \A y \in 0..(r.h - 2) :
                LET Q == {CellOf(r, x, y), CellOf(r, x + 1, y), CellOf(r, x, y + 1), CellOf(r, x + 1, y + 1)}
                IN (\A c \in Q : c \in S /\ \E i \in 1..Len(r.at) : r.at[i] = c /\ r.owner[i] = o)
                    => ~f.empty /\ Inside(f.rings, <<x * 200 + 203, y * 200 + 197>>)
        \* what is rebuilt stands on its own evidence within one of the parts left
        parts(S) == TLCEval({Linked(S, {a}, r.w) : a \in S})
        own(f, S, o) == f.empty \/
            LET H == TLCEval({Corners({centre(i) : i \in {j \in 1..Len(r.at) : r.at[j] \in P /\ r.owner[j] = o}}) : P \in parts(S)})
            IN \A k \in 1..Len(f.rings) : \E h \in H : Cardinality(h) >= 3 /\
                \A e \in {q \in h \X h : q[1] # q[2] /\ \A z \in h : Cross(q[1], q[2], z) >= 0} :
                    \A i \in 1..Len(f.rings[k]) :
                        Cross(e[1], e[2], f.rings[k][i]) >= 0 - 2 * (Abs(e[1][1] - e[2][1]) + Abs(e[1][2] - e[2][2]))
        mask(o) == TLCEval([i \in 1..Len(r.at) |-> r.owner[i] = o])
        stats(f, o) == {"C62:statistics" : c \in Stats(m, mask(o), f)}
    IN Clause("C62:base", IF l = "base" THEN reduced(g.base, A \ O, 1) ELSE same(g.base, A))
       \cup Clause("C62:test", IF l = "test" THEN reduced(g.test, B \ O, 2) ELSE same(g.test, B))
       \cup (IF (l = "base" => own(g.base, A \ O, 1)) /\ (l = "test" => own(g.test, B \ O, 2)) THEN {}
             ELSE {"C61:refined-evidence", "C62:refined-evidence"})
       \cup stats(g.base, 1) \cup stats(g.test, 2)

Verdict(r) ==
    IF r.got.status = "error" THEN (IF r.kind \in {"cluster", "radius"} THEN {"C64:refused"}
                                    ELSE IF r.kind = "contra" THEN {"C61:refused", "C62:refused"} ELSE {"C60:refused", "C61:refused", "C62:refused"})
    ELSE CASE r.kind = "cluster" -> Clause("C64:clusters", LabelsOk(TLCEval(Near(r.pts, r.r2n, r.r2d)), r.k, r.got.labels))
           [] r.kind = "radius" -> Clause("C64:radius", LET k == MinPoints(r.marked) IN LabelsOk(TLCEval(NearFor(r.pts, k)), k, r.got.labels))
           [] r.kind = "run" -> RunClauses(r)
           [] r.kind = "contra" -> Contra(r)
VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================

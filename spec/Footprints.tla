----------------------------- MODULE Footprints -----------------------------
(* Footprints: regions built from an algorithm's evidence, their statistics,  *)
(* and the removal of contradictions. Exact on integers.                      *)
EXTENDS Dbscan

---- (* plane geometry *)
Cross(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
SetOf(s) == {s[i] : i \in 1..Len(s)}
Abs_(v) == IF v < 0 THEN -v ELSE v
\* corners of the convex hull of a set of points, no three in line
Between(p, q, r) == Cross(p, q, r) = 0 /\ Dist2(p, q) <= Dist2(p, r) /\ Dist2(q, r) <= Dist2(p, r)
Corners(P) == {p \in P :
    \E q \in P \ {p} : /\ \A r \in P : Cross(p, q, r) >= 0
                       /\ \A r \in P \ {p} : Cross(p, q, r) = 0 => ~Between(r, p, q)}
InCircle(a, b, c, d) ==     \* for a, b, c counter-clockwise: d strictly inside their circle
    LET x(p) == p[1] - d[1] y(p) == p[2] - d[2] s(p) == x(p) * x(p) + y(p) * y(p)
    IN x(a) * (y(b) * s(c) - y(c) * s(b)) - y(a) * (x(b) * s(c) - x(c) * s(b))
       + s(a) * (x(b) * y(c) - x(c) * y(b)) > 0
\* the elementary pieces of a set of points: counter-clockwise triangles with empty circles
Pieces(P) ==
    LET T == {t \in P \X P \X P : Cross(t[1], t[2], t[3]) > 0
                /\ (t[1][1] < t[2][1] \/ (t[1][1] = t[2][1] /\ t[1][2] < t[2][2]))
                /\ (t[1][1] < t[3][1] \/ (t[1][1] = t[3][1] /\ t[1][2] < t[3][2]))}
    IN {t \in T : \A d \in P \ {t[1], t[2], t[3]} : ~InCircle(t[1], t[2], t[3], d)}
InPiece(t, p) == Cross(t[1], t[2], p) > 0 /\ Cross(t[2], t[3], p) > 0 /\ Cross(t[3], t[1], p) > 0
Area2(t) == Cross(t[1], t[2], t[3])
RECURSIVE TotalArea2(_)
TotalArea2(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE x \in T : TRUE IN Area2(t) + TotalArea2(T \ {t})

---- (* what a region is built from; pts: all instances, mask: the evidence *)
Evidence(pts, mask) == {pts[i] : i \in {j \in 1..Len(pts) : mask[j]}}
All(mask) == \A i \in 1..Len(mask) : mask[i]
Marked(mask) == Cardinality({i \in 1..Len(mask) : mask[i]})
Pure(pts, mask, t, pn, pd) ==      \* a piece without instances counts as pure
    LET el == Cardinality({i \in 1..Len(pts) : InPiece(t, pts[i])})
        good == Cardinality({i \in 1..Len(pts) : mask[i] /\ InPiece(t, pts[i])})
    IN el = 0 \/ good * pd >= el * pn
\* clusters of evidence, as sets of points; u: the distinct evidence as a sequence
ClustersOf(u, mask) == IF Len(u) < 3 THEN {} ELSE
    LET k == MinPoints(Marked(mask)) IN {{u[i] : i \in G} : G \in Groups(NearFor(u, k), k)}
InLine(P) == \A p, q, r \in P : Cross(p, q, r) = 0
PiecesOf(u, mask) == UNION {IF InLine(C) THEN {} ELSE Pieces(Corners(C)) : C \in ClustersOf(u, mask)}
Kept(pts, u, mask, pn, pd) == LET T == PiecesOf(u, mask)
    IN IF All(mask) THEN T ELSE {t \in T : Pure(pts, mask, t, pn, pd)}

---- (* a reported region: closed rings (outlines and holes) of integer points *)
Crosses(a, b, p) ==       \* the edge a-b crosses the ray from p to the right
    /\ (a[2] > p[2]) # (b[2] > p[2])
    /\ (Cross(a, b, p) > 0) = (b[2] > a[2])
RingCount(ring, p) == Cardinality({i \in 1..(Len(ring) - 1) : Crosses(ring[i], ring[i + 1], p)})
RECURSIVE RingsCount(_, _)
RingsCount(rings, p) == IF rings = <<>> THEN 0 ELSE RingCount(Head(rings), p) + RingsCount(Tail(rings), p)
Inside(rings, p) == RingsCount(rings, p) % 2 = 1

---- (* contradictions: which of two best footprints gives up the overlap *)
\* el instances lie in the overlap, gb (gt) of them are evidence of the base (test)
Loser(el, gb, gt) == IF el = 0 \/ gb = gt THEN "none" ELSE IF gb > gt THEN "test" ELSE "base"
=============================================================================

------------------------------- MODULE Dbscan -------------------------------
(* Density clusters over a neighbourhood relation: near[i] is the set of      *)
(* points within the radius of i, itself included; a point with more than k   *)
(* of them is a core. A cluster is everything linked, by steps within the     *)
(* radius, to a core; everything else is noise.                               *)
EXTENDS Integers, Sequences, FiniteSets

Cores(near, k) == {i \in DOMAIN near : Cardinality(near[i]) >= k + 1}
RECURSIVE Reach(_, _)
Reach(near, S) == LET T == S \cup UNION {near[i] : i \in S} IN IF T = S THEN S ELSE Reach(near, T)
Groups(near, k) == {Reach(near, {i}) : i \in Cores(near, k)}
Noise(near, k) == DOMAIN near \ UNION Groups(near, k)

\* labels: noise is negative, clusters are numbered from 1 without gaps
LabelsOk(near, k, labels) ==
    LET G == Groups(near, k)
        used == {labels[i] : i \in {j \in DOMAIN near : labels[j] > 0}}
    IN /\ Len(labels) = Cardinality(DOMAIN near)
       /\ used = 1..Cardinality(G)
       /\ \A i \in DOMAIN near : (labels[i] > 0) = (i \notin Noise(near, k))
       /\ \A i \in DOMAIN near : labels[i] # 0
       /\ \A i, j \in DOMAIN near : labels[i] > 0 /\ labels[j] > 0 =>
            ((labels[i] = labels[j]) = (\E S \in G : {i, j} \subseteq S))
Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Near(pts, r2n, r2d) ==        \* squared radius r2n / r2d
    [i \in 1..Len(pts) |-> {j \in 1..Len(pts) : Dist2(pts[i], pts[j]) * r2d <= r2n}]

---- (* the radius and count that the footprints use *)
CeilDiv(a, b) == (a + b - 1) \div b
MinPoints(marked) == LET c == CeilDiv(marked, 20) m == IF c > 50 THEN 50 ELSE c IN IF m < 3 THEN 3 ELSE m
Least(s) == CHOOSE v \in s : \A w \in s : v <= w
Most(s) == CHOOSE v \in s : \A w \in s : w <= v
Spread(pts, c) == Most({pts[i][c] : i \in 1..Len(pts)}) - Least({pts[i][c] : i \in 1..Len(pts)})
\* as many points as asked for, spread evenly, fall into a disc of this radius: pi r^2 m = w h k
NearFor(pts, k) == Near(pts, Spread(pts, 1) * Spread(pts, 2) * k * 113, Len(pts) * 355)
=============================================================================

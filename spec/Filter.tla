------------------------------- MODULE Filter -------------------------------
(* Similarity filtering: instances are scanned in order; an instance is       *)
(* excluded when an earlier retained one is similar enough. Coordinates are   *)
(* integers; md2 is the squared minimum distance in the same unit.            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Dist2(_, _)
Dist2(a, b) == IF a = <<>> THEN 0
               ELSE (Head(a) - Head(b)) * (Head(a) - Head(b)) + Dist2(Tail(a), Tail(b))
Near(t, i, j) == Dist2(t.x[i], t.x[j]) <= t.md2
\* performances are compared at the same distance per dimension
NearPerf(t, i, j) == Dist2(t.y[i], t.y[j]) * Len(t.x[1]) <= Len(t.y[1]) * t.md2
BothGood(t, i, j) == \A a \in 1..Len(t.yb[i]) : t.yb[i][a] /\ t.yb[j][a]
Excludes(t, i, j) ==
    /\ Near(t, i, j)
    /\ t.type \in {"Ftr&AP", "Ftr&AP&Good"} => NearPerf(t, i, j)
    /\ t.type \in {"Ftr&Good", "Ftr&AP&Good"} => BothGood(t, i, j)

\* The retained ones among the first n, in order
RECURSIVE Retained(_, _)
Retained(t, n) ==
    IF n = 0 THEN <<>>
    ELSE LET R == Retained(t, n - 1)
         IN IF \E k \in 1..Len(R) : Excludes(t, R[k], n) THEN R ELSE Append(R, n)
InSeq(v, s) == \E k \in 1..Len(s) : s[k] = v
Similar(t, R, j) == \E k \in 1..Len(R) : R[k] < j /\ Near(t, R[k], j)
Flags(t) ==
    LET n == Len(t.x)
        R == Retained(t, n)
    IN [excluded   |-> [j \in 1..n |-> ~InSeq(j, R)],
        dissimilar |-> [j \in 1..n |-> ~Similar(t, R, j)],
        visa       |-> [j \in 1..n |-> InSeq(j, R) /\ Similar(t, R, j)]]

---- (* uniformity: one minus the coefficient of variation of the distances to the nearest neighbour *)
MinOf(S) == CHOOSE m \in S : \A v \in S : m <= v
Root(n) == LET RECURSIVE up(_, _)    \* nearest integer to the square root
               up(lo, hi) == IF lo >= hi THEN lo
                             ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN up(m, hi) ELSE up(lo, m - 1)
               f == up(0, 46340)
           IN IF n - f * f > f THEN f + 1 ELSE f
\* nearest distances among the retained, in hundredths
Nearest(t, R) == [k \in 1..Len(R) |->
    Root(10000 * MinOf({Dist2(t.x[R[k]], t.x[R[l]]) : l \in 1..Len(R) \ {k}}))]
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
\* n times the sample standard deviation
Deviation(d) ==
    LET n == Len(d)
        a == n * Total([k \in 1..n |-> d[k] * d[k]]) - Total(d) * Total(d)
    IN Root((a \div (n - 1)) * n)
Near3(a, b, tol) == a - b <= tol /\ b - a <= tol
\* u: reported uniformity in thousandths
UniformityOk(t, R, u) ==
    LET d == Nearest(t, R) s == Total(d)
    IN Near3(1000 * Deviation(d), (1000 - u) * s,
             1000 * (Len(d) + 2) + (IF u > 1000 THEN u - 1000 ELSE 1000 - u) * Len(d) + s)
=============================================================================

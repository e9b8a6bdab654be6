------------------------------- MODULE Sifted -------------------------------
(* Screening features by their correlation with the performances, and         *)
(* choosing one feature per cluster. Tables are rows of integers.             *)
EXTENDS Integers, Sequences, FiniteSets

Sq(v) == v * v
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Elems(s) == {s[i] : i \in 1..Len(s)}
\* a performance may be missing: correlations are those of the instances where it is known
None == 0 - 1
Known(v) == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : v[i] # None)
At(v, ids) == [k \in 1..Len(ids) |-> v[ids[k]]]
Perf(y, a) == LET v == Col(y, a) IN At(v, Known(v))
Feat(x, f, y, a) == At(Col(x, f), Known(Col(y, a)))
\* n^2 times covariance and variance
Cov(u, v) == Len(u) * Sum([i \in 1..Len(u) |-> u[i] * v[i]]) - Sum(u) * Sum(v)
Var(u) == Cov(u, u)

\* Largest squared correlation (in millionths) that is insignificant at the 5% level, n observations
Critical == <<1000000, 1000000, 993844, 902500, 771480, 658372, 569259, 499474, 444067, 399294, 362487, 331756, 305746,
              283463, 264173, 247316, 232465, 219284, 207508, 196926>>
\* Significance of the correlation of u and v: "yes", "no" or "near" the critical value
Significance(u, v) ==
    IF Var(u) = 0 \/ Var(v) = 0 THEN "no"
    ELSE LET den == Var(u) * Var(v)
             thousandth == (Sq(Cov(u, v)) * 1000) \div den
             crit == Critical[Len(u)] \div 1000
         IN IF thousandth > crit + 2 THEN "yes" ELSE IF thousandth < crit - 2 THEN "no" ELSE "near"
\* |r| against the threshold rn/rd: "above", "below", "equal"
Against(u, v, rn, rd) ==
    LET a == Sq(Cov(u, v)) * Sq(rd) b == Sq(rn) * Var(u) * Var(v)
    IN IF a > b THEN "above" ELSE IF a < b THEN "below" ELSE "equal"
\* squared correlation with one and the same column, as a comparison
Weaker(u1, u2, v) ==
    IF Var(u1) = 0 THEN Var(u2) # 0 /\ Cov(u2, v) # 0
    ELSE IF Var(u2) = 0 THEN FALSE
    ELSE Sq(Cov(u1, v)) * Var(u2) < Sq(Cov(u2, v)) * Var(u1)

\* Reaches the threshold for some algorithm: surely / possibly
Surely(x, y, f, rn, rd) == \E a \in 1..Len(y[1]) :
    Significance(Feat(x, f, y, a), Perf(y, a)) = "yes" /\ Against(Feat(x, f, y, a), Perf(y, a), rn, rd) = "above"
Possibly(x, y, f, rn, rd) == \E a \in 1..Len(y[1]) :
    Significance(Feat(x, f, y, a), Perf(y, a)) # "no" /\ Against(Feat(x, f, y, a), Perf(y, a), rn, rd) # "below"
\* Features with the strongest correlation with algorithm a; any, if none is significant
Top(x, y, a) ==
    LET F == 1..Len(x[1])
        sig(f) == Significance(Feat(x, f, y, a), Perf(y, a))
        best == {f \in F : ~\E g \in F : Weaker(Feat(x, f, y, a), Feat(x, g, y, a), Perf(y, a))}
    IN IF \E f \in best : sig(f) # "yes" THEN F ELSE best
\* Is K what screening may keep?
ScreenOk(x, y, K, rn, rd) ==
    LET F == 1..Len(x[1]) A == 1..Len(y[1])
        top == [a \in A |-> Top(x, y, a)]
        sure == {f \in F : Surely(x, y, f, rn, rd)}
        open == {f \in F : Possibly(x, y, f, rn, rd)}
        extra == K \ open
    IN /\ sure \subseteq K
       /\ \A a \in A : top[a] \cap K # {}
       \* every other kept feature stands for some algorithm, each algorithm for one
       /\ \E pick \in [A -> extra \cup {0}] :
              /\ {pick[a] : a \in A} \ {0} = extra
              /\ \A a \in A : pick[a] # 0 => pick[a] \in top[a]

\* The same on reported correlations: rank[f][a] orders their absolute values, 0 is none
RankOk(rank, thr, K) ==
    LET F == 1..Len(rank) A == 1..Len(rank[1])
        top == [a \in A |-> {f \in F : \A g \in F : rank[g][a] <= rank[f][a]}]
        reach == {f \in F : \E a \in A : rank[f][a] >= thr}
        extra == K \ reach
    IN /\ reach \subseteq K
       /\ \A a \in A : top[a] \cap K # {}
       /\ \E pick \in [A -> extra \cup {0}] :
              /\ {pick[a] : a \in A} \ {0} = extra
              /\ \A a \in A : pick[a] # 0 => pick[a] \in top[a]

---- (* one feature per cluster *)
OnePerCluster(clusters, chosen) == \A k \in 1..Len(clusters) : Cardinality(clusters[k] \cap chosen) = 1
Partition(clusters, S) ==
    /\ UNION {clusters[k] : k \in 1..Len(clusters)} = S
    /\ \A k \in 1..Len(clusters) : clusters[k] # {}
    /\ \A k, l \in 1..Len(clusters) : k # l => clusters[k] \cap clusters[l] = {}
=============================================================================

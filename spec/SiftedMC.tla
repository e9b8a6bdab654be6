------------------------------ MODULE SiftedMC ------------------------------
(* Two machines: screening feature by feature on every small table, and a     *)
(* search over combinations that remembers the best one it has tried.         *)
EXTENDS Sifted, TLC
CONSTANTS NR, NF, V, NERR
VARIABLES x, y, K, f, clusters, tried, best, mode
vars == <<x, y, K, f, clusters, tried, best, mode>>
Tables == [1..NR -> [1..NF -> 0..V]]
Parts == {<<{1}, {2, 3}>>, <<{1, 3}, {2}>>, <<{1}, {2}, {3}>>, <<{1, 2, 3, 4}>>, <<{1, 2}, {3, 4}>>}
Err(S) == (7 * Cardinality(S) + 3 * Sum([i \in 1..4 |-> IF i \in S THEN i * i ELSE 0])) % NERR
Init == \/ /\ mode = "screen" /\ x \in Tables /\ y \in [1..NR -> {<<v>> : v \in 0..V}]
           /\ K = {} /\ f = 0 /\ clusters = <<>> /\ tried = {} /\ best = {}
        \/ /\ mode = "search" /\ clusters \in Parts
           /\ x = <<>> /\ y = <<>> /\ K = {} /\ f = 0 /\ tried = {} /\ best = {}
\* The strongest feature first, then those above the threshold 1/2
Screen == /\ mode = "screen" /\ f <= NF /\ f' = f + 1
          /\ IF f = 0 THEN \E t \in Top(x, y, 1) : K' = {t}
             ELSE K' = K \cup (IF Possibly(x, y, f, 1, 2) THEN {f} ELSE {})
          /\ UNCHANGED <<x, y, clusters, tried, best, mode>>
Features == UNION {clusters[k] : k \in 1..Len(clusters)}
Try == /\ mode = "search"
       /\ \E S \in SUBSET Features :
            /\ OnePerCluster(clusters, S) /\ S \notin tried
            /\ tried' = tried \cup {S}
            /\ best' = IF tried = {} \/ Err(S) < Err(best) THEN S ELSE best
       /\ UNCHANGED <<x, y, K, f, clusters, mode>>
Next == Screen \/ Try
Spec == Init /\ [][Next]_vars
Screened == mode = "screen" /\ f = NF + 1 => ScreenOk(x, y, K, 1, 2)
\* Mirroring a feature changes nothing; nor does an unrelated threshold keep fewer
Mirror == [i \in 1..NR |-> [j \in 1..NF |-> IF j = 1 THEN V - x[i][j] ELSE x[i][j]]]
SignFree == mode = "screen" /\ f = NF + 1 => ScreenOk(Mirror, y, K, 1, 2)
NeverNone == mode = "screen" => Top(x, y, 1) # {}
NotTooMuch == mode = "screen" /\ f = NF + 1 =>
    \A j \in 1..NF : (j \notin K /\ Surely(x, y, j, 1, 4)) => ~Surely(x, y, j, 1, 2)
Drop == mode = "screen" /\ f = NF + 1 => \A j \in K : Surely(x, y, j, 1, 2) => ~ScreenOk(x, y, K \ {j}, 1, 2)
Found == mode = "search" /\ tried # {} =>
    /\ best \in tried /\ \A S \in tried : Err(best) <= Err(S)
    /\ Cardinality(best) = Len(clusters) /\ best \subseteq Features
=============================================================================

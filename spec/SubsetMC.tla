------------------------------ MODULE SubsetMC ------------------------------
(* Reading an index list entry by entry, then restricting a table.            *)
EXTENDS Subset
CONSTANTS N, L, TOP
VARIABLES list, k, flags
vars == <<list, k, flags>>
Init == list \in UNION {[1..l -> -1..TOP] : l \in 0..L} /\ k = 0 /\ flags = {}
Next == k < Len(list) /\ k' = k + 1 /\ UNCHANGED list
        /\ flags' = IF list[k + 1] \in 1..N THEN flags \cup {list[k + 1]} ELSE flags
Spec == Init /\ [][Next]_vars
Field == [i \in 1..N |-> 10 * i]
Done == k = Len(list) =>
    LET s == Listed(N, list) IN
    /\ Increasing(s) /\ {s[i] : i \in 1..Len(s)} = flags /\ Len(s) = Cardinality(flags)
    /\ Restrict(Field, s) = [i \in 1..Len(s) |-> 10 * s[i]]
Grows == [][flags \subseteq flags']_vars
Fractions == \A n \in 1..40, a \in 1..19 : Floor(n, a, 20) <= Ceil(n, a, 20) /\ Ceil(n, a, 20) - Floor(n, a, 20) <= 1
ASSUME Fractions
=============================================================================

------------------------------ MODULE FilterMC ------------------------------
(* The scan one instance pair at a time, as an explicit state machine, on     *)
(* every small table, against the definitions in Filter.                      *)
EXTENDS Filter, TLC
CONSTANTS N, XMAX, YMAX, MD2
VARIABLES t, i, j, excluded, dissimilar, visa
vars == <<t, i, j, excluded, dissimilar, visa>>
Types == {"Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"}
Init == /\ t \in [x : [1..N -> {<<v>> : v \in 0..XMAX}], y : [1..N -> {<<v>> : v \in 0..YMAX}],
                  yb : [1..N -> {<<b>> : b \in BOOLEAN}], type : Types, md2 : MD2]
        /\ i = 1 /\ j = 2
        /\ excluded = [k \in 1..N |-> FALSE] /\ dissimilar = [k \in 1..N |-> TRUE] /\ visa = [k \in 1..N |-> FALSE]
Advance == IF j < N THEN i' = i /\ j' = j + 1 ELSE i' = i + 1 /\ j' = i + 2
Next == /\ i < N
        /\ Advance /\ UNCHANGED t
        /\ IF excluded[i] \/ excluded[j] \/ ~Near(t, i, j) THEN UNCHANGED <<excluded, dissimilar, visa>>
           ELSE /\ dissimilar' = [dissimilar EXCEPT ![j] = FALSE]
                /\ excluded' = [excluded EXCEPT ![j] = Excludes(t, i, j)]
                /\ visa' = [visa EXCEPT ![j] = ~Excludes(t, i, j)]
Spec == Init /\ [][Next]_vars
Same == i = N => Flags(t) = [excluded |-> excluded, dissimilar |-> dissimilar, visa |-> visa]
FirstKept == ~excluded[1]
Kept == {k \in 1..N : ~excluded[k]}
CoverOk == i = N => \A k \in 1..N : excluded[k] => \E l \in Kept : l < k /\ Near(t, l, k)
Mutual == i = N /\ t.type = "Ftr" => \A k, l \in Kept : k # l => ~Near(t, k, l)
Settled == \A k \in 1..N : ~(excluded[k] /\ visa[k])
Monotone == [][\A k \in 1..N : excluded[k] => excluded'[k]]_vars
=============================================================================

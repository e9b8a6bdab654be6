------------------------------ MODULE DbscanMC ------------------------------
(* The clustering procedure, taking points and their neighbours in any order, *)
(* on every neighbourhood relation of N points: it ends in the groups and     *)
(* noise of the definition. TextBook is the textbook grouping (only cores     *)
(* pass a cluster on), of which ours is a coarsening.                         *)
EXTENDS Dbscan, TLC
CONSTANTS N, KMax
VARIABLES near, k, class, touched, queue, no
vars == <<near, k, class, touched, queue, no>>
P == 1..N
Pairs == {e \in SUBSET P : Cardinality(e) = 2}
Init == /\ \E E \in SUBSET Pairs : near = [i \in P |-> {j \in P : i = j \/ {i, j} \in E}]
        /\ k \in 1..KMax
        /\ class = [i \in P |-> 0] /\ touched = {} /\ queue = {} /\ no = 0
Start(i) == /\ queue = {} /\ i \notin touched /\ Cardinality(near[i]) >= k + 1
            /\ no' = no + 1
            /\ class' = [j \in P |-> IF j \in near[i] THEN no + 1 ELSE class[j]]
            /\ queue' = near[i] /\ touched' = touched \cup {i}
            /\ UNCHANGED <<near, k>>
Skip(i) == /\ queue = {} /\ i \notin touched /\ near[i] = {i}
           /\ touched' = touched \cup {i} /\ class' = [class EXCEPT ![i] = -1]
           /\ UNCHANGED <<near, k, queue, no>>
Grow(i) == /\ i \in queue
           /\ class' = [j \in P |-> IF j \in near[i] THEN no ELSE class[j]]
           /\ queue' = (queue \cup {j \in near[i] : j \notin touched}) \ {i}
           /\ touched' = touched \cup near[i]
           /\ UNCHANGED <<near, k, no>>
Next == \E i \in P : Start(i) \/ Skip(i) \/ Grow(i)
Spec == Init /\ [][Next]_vars
Finished == ~ENABLED Next
Labels == [i \in P |-> IF class[i] = 0 THEN -1 ELSE class[i]]
Correct == Finished => LabelsOk(near, k, Labels)
TextBookGroup(c) == LET RECURSIVE R(_)
                        R(S) == LET T == S \cup {d \in Cores(near, k) : \E e \in S : d \in near[e]} IN IF T = S THEN S ELSE R(T)
                    IN R({c})
Coarser == \A c \in Cores(near, k) : \E G \in Groups(near, k) : TextBookGroup(c) \subseteq G /\ near[c] \subseteq G
Partition == \A G, H \in Groups(near, k) : G = H \/ G \cap H = {}
\* asking for more neighbours never turns noise into members
Monotone == Noise(near, k) \subseteq Noise(near, k + 1)
=============================================================================

---------------------------- MODULE FootprintsMC ----------------------------
(* Best footprints of three algorithms as sets of cells; pairs are compared   *)
(* in order and the weaker one gives up the overlap (and possibly more, when  *)
(* what remains is refined). Each cell holds one instance, best solved by one *)
(* algorithm, or none.                                                        *)
EXTENDS Footprints, TLC
CONSTANTS NCells, NAlgos
VARIABLES orig, cur, owner, todo, ignored
vars == <<orig, cur, owner, todo, ignored>>
Cells == 1..NCells
Algos == 1..NAlgos
Init == /\ orig \in [Algos -> SUBSET Cells]
        /\ cur = orig
        /\ owner \in [Cells -> 0..NAlgos]
        /\ todo = [i \in 1..((NAlgos * (NAlgos - 1)) \div 2) |->
                    CHOOSE p \in Algos \X Algos : p[1] < p[2] /\
                        Cardinality({q \in Algos \X Algos : q[1] < q[2] /\ (q[1] < p[1] \/ (q[1] = p[1] /\ q[2] < p[2]))}) = i - 1]
        /\ ignored = {}
Step == /\ todo # <<>>
        /\ LET b == Head(todo)[1] t == Head(todo)[2] O == cur[b] \cap cur[t]
               has(a) == Cardinality({c \in O : owner[c] = a})
               l == Loser(Cardinality(O), has(b), has(t))
           IN IF l = "none" THEN cur' = cur /\ ignored' = IF O = {} THEN ignored ELSE ignored \cup {{b, t}}
              ELSE LET x == IF l = "test" THEN t ELSE b
                   IN /\ \E R \in SUBSET (cur[x] \ O) :       \* refining may drop more
                            /\ {c \in cur[x] \ O : owner[c] = x} \subseteq R
                            /\ cur' = [cur EXCEPT ![x] = R]
                      /\ ignored' = ignored
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<orig, owner>>
Spec == Init /\ [][Step]_vars
NoGrowth == \A a \in Algos : cur[a] \subseteq orig[a]
\* once compared, only pairs found equal may still overlap
Settled == \A p \in Algos \X Algos : p[1] < p[2] /\ (\A i \in 1..Len(todo) : todo[i] # p)
    => cur[p[1]] \cap cur[p[2]] = {} \/ {p[1], p[2]} \in ignored
\* what an algorithm alone solves best stays with it unless another claims the place with more
Keeps == \A a \in Algos : (\A b \in Algos \ {a} : orig[a] \cap orig[b] = {}) => cur[a] = orig[a]
ThirdUnchanged == [][Cardinality({a \in Algos : cur[a] # cur'[a]}) <= 1]_vars
ChangedIsCompared == [][\A a \in Algos : cur[a] # cur'[a] => a \in {Head(todo)[1], Head(todo)[2]}]_vars
\* geometry: pieces of four points in general position tile their hull
Grid == {<<0, 0>>, <<4, 1>>, <<1, 3>>, <<5, 5>>, <<2, 7>>, <<7, 2>>}
Tiling == \A P \in SUBSET Grid : Cardinality(P) \in 3..5 /\ Corners(P) = P =>
    LET T == Pieces(P)
        tri(S) == {t \in P \X P \X P : Cross(t[1], t[2], t[3]) > 0}
    IN /\ Cardinality(T) = Cardinality(P) - 2
       /\ \A t, s \in T : t # s => \A p \in {<<x, y>> : x \in 0..7, y \in 0..7} : ~(InPiece(t, p) /\ InPiece(s, p))
ASSUME Tiling
ASSUME Corners({<<0, 0>>, <<2, 0>>, <<1, 0>>, <<1, 1>>, <<1, 3>>}) = {<<0, 0>>, <<2, 0>>, <<1, 3>>}
ASSUME Inside(<<<<<<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>>, <<0, 0>>>>, <<<<1, 1>>, <<3, 1>>, <<3, 3>>, <<1, 3>>, <<1, 1>>>>>>, <<1, 2>>) \in BOOLEAN
ASSUME LET sq == <<<<<<0, 0>>, <<8, 0>>, <<8, 8>>, <<0, 8>>, <<0, 0>>>>, <<<<2, 2>>, <<6, 2>>, <<6, 6>>, <<2, 6>>, <<2, 2>>>>>>
       IN Inside(sq, <<1, 1>>) /\ ~Inside(sq, <<4, 4>>) /\ ~Inside(sq, <<9, 1>>) /\ Inside(sq, <<7, 4>>)
=============================================================================

------------------------------ MODULE PilotMC -------------------------------
(* Keeping the best of several attempts as a running choice, and the         *)
(* fixed-point operators on small tables.                                    *)
EXTENDS Pilot, TLC
CONSTANTS Tries, Scores
Vals == {-2, 0, 1}
Ab(v) == IF v < 0 THEN -v ELSE v
VARIABLES scores, kept, x, A
vars == <<scores, kept, x, A>>
Tables == [1..2 -> [1..2 -> Vals]]
Init == scores = <<>> /\ kept = 0 /\ x \in Tables /\ A \in Tables
\* an attempt (with or without a score) finishes; the first of the best is kept
Attempt(s) ==
    /\ Len(scores) < Tries
    /\ scores' = Append(scores, s)
    /\ kept' = IF kept = 0 THEN 1 ELSE IF s > scores[kept] THEN Len(scores) + 1 ELSE kept
    /\ UNCHANGED <<x, A>>
Next == \E s \in Scores : Attempt(s)
Spec == Init /\ [][Next]_vars

KeptIsBest == kept # 0 => kept \in Best(scores)
FirstOfEqual == kept # 0 => \A j \in 1..(kept - 1) : scores[j] < scores[kept]
NeverCollapsed == kept # 0 /\ (\E j \in 1..Len(scores) : scores[j] > 0) => scores[kept] > 0
\* renaming features together with columns of the projection changes nothing
Swap(m) == [i \in 1..Len(m) |-> <<m[i][2], m[i][1]>>]
Z == [i \in 1..2 |-> Project(x[i], A)]
Equivariant == Z = [i \in 1..2 |-> Project(Swap(x)[i], Swap(A))]
Accepts == ProjectionOk(x, A, Z)
Rejects == \A d \in {-50, 50} : ~ProjectionOk(x, A, [Z EXCEPT ![2][1] = @ + d])
\* a perfect reconstruction has no error and full fit
Identity == <<<<10000, 0>>, <<0, 10000>>>>
Milli(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> 1000 * m[i][j]]]
Perfect == /\ TotalError(x, Rebuild(Milli(x), Identity)) = 0
           /\ \A j \in 1..2 : Varies(Col(x, j)) => Ab(Corr(Col(x, j), Col(x, j)) - 1000) <= 3
Bounded == Varies(Col(x, 1)) /\ Varies(Col(x, 2)) => Ab(Ab(Corr(Col(x, 1), Col(x, 2))) - 1000) <= 3
Roots == \A v \in Vals : v >= 0 => Root(v * v) = v /\ Root(v * v + v) = v
\* the error is quadratic in every single entry of A and of B, so that its central differences are
\* its slopes, exactly
Backs == {<<<<1, 0>>, <<-1, 2>>, <<0, 1>>>>, <<<<0, 0>>, <<2, 1>>, <<-1, -1>>>>, <<<<1, 1>>, <<1, 1>>, <<0, 0>>>>}
Data == [i \in 1..2 |-> x[i] \o <<3 - 2 * i>>]
Left(P, B) == TLCEval([i \in 1..2 |-> [q \in 1..3 |->
    Sum([k \in 1..2 |-> Project(x[i], P)[k] * B[q][k]]) - Data[i][q]]])
Squares(P, B) == LET R == Left(P, B) IN Sum([i \in 1..2 |-> Sum([q \in 1..3 |-> Sq(R[i][q])])])
SlopesRight == scores = <<>> => \A B \in Backs : LET R == Left(A, B) IN
    /\ \A q \in 1..3 : \A k \in 1..2 :
        Squares(A, [B EXCEPT ![q][k] = @ + 1]) - Squares(A, [B EXCEPT ![q][k] = @ - 1]) = 4 * SlopeB(R, Z, 1, <<3, 3>>, q, k)
    /\ \A k \in 1..2 : \A j \in 1..2 :
        Squares([A EXCEPT ![k][j] = @ + 1], B) - Squares([A EXCEPT ![k][j] = @ - 1], B) = 4 * SlopeA(R, B, x, 1, <<3, 3>>, k, j)
PairOrder == Pairs(3) = <<<<1, 2>>, <<1, 3>>, <<2, 3>>>>
=============================================================================

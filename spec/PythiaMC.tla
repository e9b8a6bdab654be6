------------------------------ MODULE PythiaMC ------------------------------
(* All small goodness tables and predictions; instances are served one by one. *)
EXTENDS Pythia, TLC
CONSTANTS N, A
VARIABLES yb, yhat, sel0, sel1
vars == <<yb, yhat, sel0, sel1>>
Tables == [1..N -> [1..A -> BOOLEAN]]
Init == yb \in Tables /\ yhat \in Tables /\ sel0 = <<>> /\ sel1 = <<>>
Prec == [a \in 1..A |-> Precision(Confusion(Col(yb, a), Col(yhat, a)))]
First(S) == CHOOSE a \in S : \A b \in S : a <= b
Serve == /\ Len(sel0) < N
         /\ LET R == Recommended(yhat[Len(sel0) + 1], Prec)
                a == IF R = {} THEN 0 ELSE First(R)
            IN sel0' = Append(sel0, a) /\ sel1' = Append(sel1, IF a = 0 THEN First(Fallback(yb)) ELSE a)
         /\ UNCHANGED <<yb, yhat>>
Spec == Init /\ [][Serve]_vars
Done == Len(sel0) = N
Accepts == Done => SelectionOk(yb, yhat, Prec, sel0, sel1)
\* what is recommended is predicted good and right at least once
Sound == \A i \in 1..Len(sel0) : sel0[i] # 0 =>
    yhat[i][sel0[i]] /\ \E j \in 1..N : yhat[j][sel0[i]] /\ yb[j][sel0[i]]
\* a perfect prediction recommends a good algorithm whenever there is one
Perfect == Done /\ yhat = yb => \A i \in 1..N : (sel0[i] # 0 <=> \E a \in 1..A : yb[i][a]) /\ (sel0[i] # 0 => yb[i][sel0[i]])
Complete == \A a \in 1..A : LET c == Confusion(Col(yb, a), Col(yhat, a)) IN
    /\ Sum(c) = N /\ c[3] + c[4] = GoodCount(yb, a) /\ c[2] + c[4] = GoodCount(yhat, a)
    /\ (yhat = yb => c[2] = 0 /\ c[3] = 0)
\* nobody is served by an algorithm that never is good unless no algorithm ever is
Served == Done => \A i \in 1..N : GoodCount(yb, sel1[i]) > 0 \/ \A a \in 1..A : GoodCount(yb, a) = 0
ASSUME MeanOk(<<1, 2, NONE>>, 1500) /\ ~MeanOk(<<1, 2, NONE>>, 1000) /\ MeanOk(<<1, 1, 2>>, 1333) /\ MeanOk(<<NONE>>, NONE)
ASSUME DevOk(<<1, 2>>, 500) /\ DevOk(<<0, 9, 0>>, 4243) /\ ~DevOk(<<0, 9, 0>>, 5196) /\ DevOk(<<3>>, 0) /\ ~DevOk(<<3, 4>>, 0)
=============================================================================

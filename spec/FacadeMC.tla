------------------------------ MODULE FacadeMC ------------------------------
(* Two facades over one list of stages: every interleaving of builds, failed *)
(* builds, partial runs and single-stage runs.                               *)
EXTENDS Facade, TLC
CONSTANTS MaxClock

P == [n |-> 3, inp |-> <<{"m"}, {"x", "m"}, {"x"}>>, out |-> <<{"x"}, {"y"}, {"z"}>>, prec |-> {},
      init |-> {"m"}]
Names == {"m", "x", "y", "z"}
Order == Resolve(P).order
None == [a \in Names |-> 0]
\* The metadata of facade i has id 100 * i; what its runs produce is 100 * i + clock
Start(i) == [None EXCEPT !["m"] = 100 * i]
Outs(i, s, t) == [a \in Names |-> IF a \in P.out[s] THEN 100 * i + t ELSE 0]

VARIABLES f, clock, last
vars == <<f, clock, last>>
Init == /\ f = [i \in 1..2 |-> NewFacade(None)]
        /\ clock = 0
        /\ last = [i \in 1..2 |-> 0]   \* clock of the last complete build

RECURSIVE Execute(_, _, _, _)
Execute(i, st, todo, t) ==
    IF todo = <<>> THEN st
    ELSE Execute(i, Done(Order, st, Head(todo), Outs(i, Head(todo), t)), Tail(todo), t)
Sequence == <<1, 2, 3>>

Build(i, upto) ==
    LET st == Execute(i, Fresh(Start(i)), SubSeq(Sequence, 1, upto), clock + 1)
    IN /\ f' = [f EXCEPT ![i] = IF upto = 3 THEN Built(@, st) ELSE Moved(@, st)]
       /\ last' = [last EXCEPT ![i] = IF upto = 3 THEN clock + 1 ELSE @]
RunOne(i, s) ==
    /\ MayRun(Order, f[i].st, s)
    /\ HasInputs(P, Given(Order, f[i].st, s, None), s)
    /\ f' = [f EXCEPT ![i] = Moved(@, Done(Order, @.st, s, Outs(i, s, clock + 1)))]
    /\ UNCHANGED last
Next == /\ clock < MaxClock
        /\ clock' = clock + 1
        /\ \E i \in 1..2 : (\E upto \in 0..3 : Build(i, upto)) \/ (\E s \in 1..3 : RunOne(i, s))
Spec == Init /\ [][Next]_vars

\* The model shows exactly the last complete build of its own facade
ModelIsLastBuild ==
    \A i \in 1..2 :
        /\ HasModel(f[i]) = (last[i] > 0)
        /\ HasModel(f[i]) => f[i].built = [a \in Names |-> IF a = "m" THEN 100 * i ELSE 100 * i + last[i]]
Apart == \A i \in 1..2 : \A a \in Names :
            LET v == f[i].st.cur[a] IN v = 0 \/ (100 * i <= v /\ v < 100 * i + 100)
EveryFieldOnce == \A j, k \in 1..Len(ModelFields) : j # k => ModelFields[j][1] # ModelFields[k][1]
=============================================================================

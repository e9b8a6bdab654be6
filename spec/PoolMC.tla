------------------------------- MODULE PoolMC -------------------------------
EXTENDS Pool
CONSTANTS NTasks, NWorkers
VARIABLES s, w, failing
vars == <<s, w, failing>>
Init == s = Fresh(NTasks) /\ w \in 1..NWorkers /\ failing \in SUBSET ((1..NTasks) \X Parts)
Act == \/ CanTake(s, w) /\ s' = Take(s)
       \/ \E i \in DOMAIN s.at : \E p \in Parts :
            CanPart(s, i, p) /\ s' = (IF <<i, p>> \in failing THEN Fail(s, i) ELSE Part(s, i, p))
       \/ \E i \in DOMAIN s.at : CanFinish(s, i) /\ s' = Finish(s, i)
       \/ \E i \in s.done : s' = Collect(s, i)
Next == Act /\ UNCHANGED <<w, failing>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* no schedule changes the outcome
SameOutcome == Over(s) => Result(s) = Outcome(NTasks, failing)
OwnSlot == \A i \in 1..NTasks : s.good[i] \in {0, i} /\ s.best[i] \in {0, i}
Bounded == Cardinality(DOMAIN s.at) <= w
Ends == <>Over(s)
=============================================================================

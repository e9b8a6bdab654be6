------------------------------ MODULE RunnerMC ------------------------------
(* Every history of restarts, single-stage runs (with and without explicit  *)
(* values) and failures, on every accepted small pipeline.                  *)
EXTENDS Runner, TLC

CONSTANTS NStages, NArgs, MaxExec, Mode

Args == 1..NArgs
NoPrec == {}
Small == {q \in {[n |-> NStages, inp |-> ins, out |-> outs, prec |-> {}, init |-> init] :
                    ins \in [1..NStages -> SUBSET Args], outs \in [1..NStages -> SUBSET Args],
                    init \in SUBSET Args} : Resolve(q).status = "accepted"}
\* A diamond, a chain with a modifying stage in the middle, two stages per step
Named == {
    [n |-> 4, inp |-> <<{1}, {2}, {2}, {3, 4}>>, out |-> <<{2}, {3}, {4}, {1}>>, prec |-> {}, init |-> {1}],
    [n |-> 4, inp |-> <<{1}, {2}, {2, 3}, {2, 4}>>, out |-> <<{2, 3}, {2}, {4}, {1}>>, prec |-> {}, init |-> {1}],
    [n |-> 4, inp |-> <<{1}, {1}, {2, 3}, {2, 3}>>, out |-> <<{2}, {3}, {2}, {4}>>, prec |-> {}, init |-> {1}],
    [n |-> 3, inp |-> <<{1}, {1}, {1}>>, out |-> <<{1}, {1}, {1}>>, prec |-> {<<1, 2>>, <<2, 3>>}, init |-> {1}],
    [n |-> 3, inp |-> <<{1}, {1}, {2}>>, out |-> <<{2}, {1}, {}>>, prec |-> {<<1, 2>>}, init |-> {1}] }
Pipes == IF Mode = "small" THEN Small ELSE Named
ArgsOf(q) == IF Mode = "small" THEN Args ELSE 1..4

VARIABLES p, order, st, clock, used, over, it    \* it: the open iteration, and whether it had the runner for itself
vars == <<p, order, st, clock, used, over, it>>

None(q) == [a \in ArgsOf(q) |-> 0]
InitVals(q, t) == [a \in ArgsOf(q) |-> IF a \in q.init THEN t ELSE 0]

Init == /\ p \in Pipes
        /\ order = Resolve(p).order
        /\ st = Fresh(InitVals(p, 1))
        /\ clock = 1
        /\ used = [s \in Stages(p) |-> None(p)]
        /\ over = [s \in Stages(p) |-> None(p)]
        /\ \E opens \in BOOLEAN : it = [open |-> opens, seen |-> {}, calm |-> opens]

\* A full run, a run up to a stage, or (opens) an iteration starts
Restart == /\ clock < MaxExec
           /\ st.ran # {}
           /\ st' = Fresh(InitVals(p, clock + 1))
           /\ clock' = clock + 1
           /\ \E opens \in BOOLEAN : it' = IF opens THEN [open |-> TRUE, seen |-> {}, calm |-> TRUE]
                                           ELSE [it EXCEPT !.calm = FALSE]
           /\ UNCHANGED <<p, order, used, over>>

Exec(s, o) ==
    /\ clock < MaxExec
    /\ MayRun(order, st, s)
    /\ HasInputs(p, Given(order, st, s, o), s)
    /\ clock' = clock + 1
    /\ st' = Done(order, st, s, [a \in ArgsOf(p) |-> IF a \in p.out[s] THEN clock + 1 ELSE 0])
    /\ used' = [used EXCEPT ![s] = Given(order, st, s, o)]
    /\ over' = [over EXCEPT ![s] = o]
    /\ UNCHANGED <<p, order>>

\* Explicit values are marked by negative ids
Overs(s) == {None(p)} \cup {[None(p) EXCEPT ![a] = -(clock + 1)] : a \in p.inp[s]}

Single == \E s \in Stages(p) : \E o \in Overs(s) : Exec(s, o) /\ it' = [it EXCEPT !.calm = FALSE]
Iterate == /\ it.open /\ it.seen # Stages(p)
           /\ \E s \in IterDue(order, it.seen) : Exec(s, None(p)) /\ it' = [it EXCEPT !.seen = @ \cup {s}]
Next == Restart \/ Single \/ Iterate
Spec == Init /\ [][Next]_vars

\* C05: exactly the stages of complete earlier steps and some of the current one are in force
Gating ==
    /\ \A i \in 1..(st.pos - 1) : order[i] \subseteq st.ran
    /\ \A i \in 1..Len(order) : i > st.pos => order[i] \cap st.ran = {}
    /\ st.pos <= Len(order) => ~(order[st.pos] \subseteq st.ran)
    /\ Len(st.snap) = st.pos

\* C04, C05: the values at the start of a step are those of the last earlier step producing
\* them that is in force.  (Stages of one step never produce the same value.)
Producers(a, i) == {t \in st.ran : a \in p.out[t] /\ Index(order, t) < i}
LatestValue ==
    \A i \in 1..st.pos : \A a \in ArgsOf(p) :
        LET ps == Producers(a, i)
        IN IF ps = {} THEN st.snap[i][a] = st.snap[1][a]
           ELSE LET last == CHOOSE t \in ps : \A u \in ps : Index(order, u) <= Index(order, t)
                IN \A u \in ps : Index(order, u) = Index(order, last) => u = last

\* C05: every result in force was computed from what is in force at the start of its step
\* (and its explicit values): nothing stale survives
NothingStale ==
    \A s \in st.ran : used[s] = Overlay(st.snap[Index(order, s)], over[s])

\* C04: an iteration that nobody disturbs is never refused, and has run everything at its end
IterationRuns ==
    it.open /\ it.calm =>
        IF it.seen = Stages(p) THEN st.ran = Stages(p) /\ st.pos = Len(order) + 1
        ELSE \A s \in IterDue(order, it.seen) : MayRun(order, st, s) /\ HasInputs(p, Given(order, st, s, None(p)), s)

\* C05: explicit values are never stored
NoLeak == \A a \in ArgsOf(p) : st.cur[a] >= 0 /\ \A i \in 1..Len(st.snap) : st.snap[i][a] >= 0
=============================================================================

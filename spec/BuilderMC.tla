----------------------------- MODULE BuilderMC -----------------------------
(* Exhaustive check of the resolution over every pipeline within bounds.    *)
EXTENDS Builder, SequencesExt, TLC

CONSTANTS NStages, NArgs, MaxPrec

Args == 1..NArgs
\* NStages + 1 stands for a stage that is named in a restriction but not added
PrecPairs == {e \in (1..(NStages + 1)) \X (1..(NStages + 1)) : e[1] # e[2]}
PrecSets == {S \in SUBSET PrecPairs : Cardinality(S) <= MaxPrec}

VARIABLES p, r
vars == <<p, r>>

Init == /\ \E ins \in [1..NStages -> SUBSET Args], outs \in [1..NStages -> SUBSET Args],
              prec \in PrecSets, init \in SUBSET Args :
              p = [n |-> NStages, inp |-> ins, out |-> outs, prec |-> prec, init |-> init]
        /\ r = StartResolve(p)
Next == r.status = "running" /\ r' = Round(p, r) /\ UNCHANGED p
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SeqOrder == [i \in 1..Len(r.order) |-> SetToSeq(r.order[i])]

\* Every accepted pipeline has a sound running order (C01, C03)
Sound == r.status = "accepted" =>
    /\ EachOnce(p, SeqOrder)
    /\ InputsEarlier(p, SeqOrder)
    /\ RestrictionsHold(p, SeqOrder)
    /\ ModifyFirst(p, SeqOrder)
    /\ NoNeedlessWait(p, SeqOrder)
    /\ StepsUnambiguous(p, SeqOrder)

\* A pipeline refused as unresolvable really has no order at all: what is left can never
\* run, or waits for a circle of stages modifying each other's inputs (C02)
RECURSIVE Closure(_, _)
Closure(q, done) ==
    LET more == {s \in Stages(q) \ done :
                    /\ q.inp[s] \subseteq (q.init \cup UnionOf(q.out, done))
                    /\ \A e \in q.prec : e[2] = s => e[1] \in done}
    IN IF more = {} THEN done ELSE Closure(q, done \cup more)
Circle(q, rr) ==
    LET ready == Ready(q, rr) IN ready # {} /\ \A s \in ready : Held(q, ready, s)
RefusedOnlyIfNeeded ==
    /\ r.status = "unresolvable" => (Closure(p, {}) # Stages(p) \/ Circle(p, r))
    /\ Closure(p, {}) # Stages(p) => r.status # "accepted"
    /\ r.status = "ambiguous" =>
          \E s, t \in Stages(p) \ r.resolved : s # t /\ p.out[s] \cap p.out[t] # {}

\* A round never loses anything, and the resolution ends
Progress == Cardinality(r.resolved) >= Len(r.order)
Terminates == <>(r.status # "running")
=============================================================================

------------------------------ MODULE Builder ------------------------------
(* Resolution of a set of stages into a running order (StageBuilder).       *)
(*                                                                          *)
(* A pipeline p is a record                                                 *)
(*   n    number of stages, which are 1..n                                  *)
(*   inp  inp[s]: set of values stage s consumes                            *)
(*   out  out[s]: set of values stage s produces                            *)
(*   prec set of pairs <<b, a>>: b has to run before a, declared by one of  *)
(*        them.  The partner may be a stage that is not in the pipeline     *)
(*        (an id larger than n).                                            *)
(*   init set of values available at the start                              *)
(*                                                                          *)
(* The resolution state r is a record: resolved stages, available values,   *)
(* order (sequence of sets of stages: the steps) and status.                *)
EXTENDS Integers, Sequences, FiniteSets

Stages(p) == 1..p.n
Mutates(p, s) == p.inp[s] \cap p.out[s]

StartResolve(p) ==
    [resolved |-> {}, avail |-> p.init, order |-> <<>>, status |-> "running"]

\* Stages that have everything they need
Ready(p, r) ==
    {s \in Stages(p) \ r.resolved :
        /\ p.inp[s] \subseteq r.avail
        /\ \A e \in p.prec : e[2] = s => e[1] \in r.resolved}

\* Two ready stages modifying the same value: nothing says which is first
ModifyClash(p, ready) ==
    \E s, t \in ready : s # t /\ Mutates(p, s) \cap Mutates(p, t) # {}

\* A ready stage waits while another ready stage modifies a value it reads
Held(p, ready, s) ==
    \E t \in ready : t # s /\ (Mutates(p, t) \ Mutates(p, s)) \cap p.inp[s] # {}

Step(p, ready) == {s \in ready : ~Held(p, ready, s)}

ProduceClash(p, step) ==
    \E s, t \in step : s # t /\ p.out[s] \cap p.out[t] # {}

RECURSIVE UnionOf(_, _)
UnionOf(f, S) == IF S = {} THEN {}
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] \cup UnionOf(f, S \ {x})

\* One round of the resolution
Round(p, r) ==
    LET ready == Ready(p, r)
        step  == Step(p, ready)
    IN  IF r.resolved = Stages(p) THEN [r EXCEPT !.status = "accepted"]
        ELSE IF ModifyClash(p, ready) \/ ProduceClash(p, step)
             THEN [r EXCEPT !.status = "ambiguous"]
        ELSE IF step = {} THEN [r EXCEPT !.status = "unresolvable"]
        ELSE [resolved |-> r.resolved \cup step,
              avail    |-> r.avail \cup UnionOf(p.out, step),
              order    |-> Append(r.order, step),
              status   |-> "running"]

RECURSIVE ResolveFrom(_, _)
ResolveFrom(p, r) == IF r.status = "running" THEN ResolveFrom(p, Round(p, r)) ELSE r
Resolve(p) == ResolveFrom(p, StartResolve(p))

-----------------------------------------------------------------------------
(* What a user relies on, stated on a running order alone (order: sequence  *)
(* of sequences of stages), independently of Round.                         *)

StepsOf(order, s) == {i \in 1..Len(order) : \E j \in 1..Len(order[i]) : order[i][j] = s}
Occurrences(order, s) ==
    {<<i, j>> \in (1..Len(order)) \X (1..20) : j <= Len(order[i]) /\ order[i][j] = s}

\* C01: every stage exactly once, and nothing else
EachOnce(p, order) ==
    /\ \A s \in Stages(p) : Cardinality(Occurrences(order, s)) = 1
    /\ \A i \in 1..Len(order) : \A j \in 1..Len(order[i]) : order[i][j] \in Stages(p)

StepOf(order, s) == CHOOSE i \in 1..Len(order) : \E j \in 1..Len(order[i]) : order[i][j] = s

\* C01: inputs come from the start or a strictly earlier step
InputsEarlier(p, order) ==
    \A s \in Stages(p) : \A a \in p.inp[s] :
        \/ a \in p.init
        \/ \E t \in Stages(p) : a \in p.out[t] /\ StepOf(order, t) < StepOf(order, s)

\* C03: restrictions hold
RestrictionsHold(p, order) ==
    \A e \in p.prec :
        (e[1] \in Stages(p) /\ e[2] \in Stages(p)) => StepOf(order, e[1]) < StepOf(order, e[2])

AvailBefore(p, order, i) ==
    p.init \cup UnionOf(p.out, {t \in Stages(p) : StepOf(order, t) < i})
ReadyAt(p, order, s, i) ==
    /\ StepOf(order, s) >= i
    /\ p.inp[s] \subseteq AvailBefore(p, order, i)
    /\ \A e \in p.prec : e[2] = s => (e[1] \in Stages(p) /\ StepOf(order, e[1]) < i)

\* C03: a stage modifying a value runs before any other stage that reads the value and
\* is ready at the same time; nothing else may keep a ready stage waiting
ModifyFirst(p, order) ==
    \A i \in 1..Len(order) : \A s \in Stages(p) :
        (StepOf(order, s) = i /\ Mutates(p, s) # {}) =>
            \A t \in Stages(p) \ {s} :
                (ReadyAt(p, order, t, i) /\ (p.inp[t] \cap Mutates(p, s)) \ Mutates(p, t) # {})
                    => StepOf(order, t) > i
NoNeedlessWait(p, order) ==
    \A i \in 1..Len(order) : \A s \in Stages(p) :
        (ReadyAt(p, order, s, i) /\ StepOf(order, s) > i) =>
            \E t \in Stages(p) \ {s} :
                ReadyAt(p, order, t, i) /\ (Mutates(p, t) \ Mutates(p, s)) \cap p.inp[s] # {}

\* No two stages of one step produce the same value: results do not depend on the order
\* inside a step
StepsUnambiguous(p, order) ==
    \A s, t \in Stages(p) :
        (s # t /\ StepOf(order, s) = StepOf(order, t)) => p.out[s] \cap p.out[t] = {}
=============================================================================

-------------------------------- MODULE Pool --------------------------------
(* Footprints of several algorithms are computed by a pool of workers and     *)
(* collected as they finish. Every algorithm is a task of Parts parts (its    *)
(* good and its best footprint); a part may fail.                             *)
EXTENDS Integers, Sequences, FiniteSets

Parts == {"good", "best"}
\* a pool: tasks not yet taken, per-task parts done, tasks finished but not collected, slots, error
Fresh(n) == [queue |-> [i \in 1..n |-> i], at |-> [i \in {} |-> {}], done |-> {},
             good |-> [i \in 1..n |-> 0], best |-> [i \in 1..n |-> 0], error |-> FALSE]
CanTake(s, w) == s.queue # <<>> /\ Cardinality(DOMAIN s.at) < w
Take(s) == [s EXCEPT !.queue = Tail(s.queue), !.at = [i \in (DOMAIN s.at) \cup {Head(s.queue)} |->
                IF i \in DOMAIN s.at THEN s.at[i] ELSE {}]]
CanPart(s, i, p) == i \in DOMAIN s.at /\ p \notin s.at[i]
Part(s, i, p) == [s EXCEPT !.at[i] = @ \cup {p}]
CanFinish(s, i) == i \in DOMAIN s.at /\ s.at[i] = Parts
Drop(f, i) == [j \in (DOMAIN f) \ {i} |-> f[j]]
Finish(s, i) == [s EXCEPT !.at = Drop(s.at, i), !.done = @ \cup {i}]
\* a failing part ends its task; the failure is met when the task is collected
Fail(s, i) == [s EXCEPT !.at = Drop(s.at, i), !.done = @ \cup {-i}]
Collect(s, i) == IF i < 0 THEN [s EXCEPT !.done = @ \ {i}, !.error = TRUE]
                 ELSE [s EXCEPT !.done = @ \ {i}, !.good[i] = i, !.best[i] = i]
Over(s) == s.queue = <<>> /\ DOMAIN s.at = {} /\ s.done = {}
\* what the caller gets, whatever the schedule was
Outcome(n, failing) == IF failing = {} THEN [status |-> "ok", good |-> [i \in 1..n |-> i], best |-> [i \in 1..n |-> i]]
                       ELSE [status |-> "error", good |-> <<>>, best |-> <<>>]
Result(s) == IF s.error THEN [status |-> "error", good |-> <<>>, best |-> <<>>]
             ELSE [status |-> "ok", good |-> s.good, best |-> s.best]
=============================================================================

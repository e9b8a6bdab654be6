---------------------------- MODULE RunnerTrace ----------------------------
(* Replays histories of calls observed on the real StageRunner through the  *)
(* transitions of Runner.                                                   *)
(*                                                                          *)
(* A record has the pipeline (n, inp, out, prec, init) and ops, a sequence  *)
(* of                                                                       *)
(*   op    "all" | "iter" | "until" | "stage" | "next" (of the iteration    *)
(*         that was kept)                                                   *)
(*   stage the stage ("until", "stage"; else 0)                             *)
(*   init  initial values ("all", "iter", "until"), by value id             *)
(*   over  explicit values ("stage")                                        *)
(*   take  how many results were taken from the iterator, -1 for all        *)
(*   execs the executions seen, in order: s, ins, outs, fail, restr         *)
(*         (ins has -1 where the received object had been tampered with,    *)
(*          -2 where it came from a dictionary handed to the caller)        *)
(*   yields for "iter": s and outs as yielded                               *)
(*   kept  whether the iteration is left open, to be resumed later          *)
(*   err   "none" | "gate" | "stage" | "stop" (end of iteration) | "other"  *)
(*   res   the values returned, -1 / -2 as above                            *)
(*   dirty whether an object of the caller was changed by the call          *)
EXTENDS Runner, TraceLib

PipeOf(rec) ==
    [n    |-> rec.n,
     inp  |-> [s \in 1..rec.n |-> Rng(rec.inp[s])],
     out  |-> [s \in 1..rec.n |-> Rng(rec.out[s])],
     prec |-> {<<e[1], e[2]>> : e \in Rng(rec.prec)},
     init |-> Rng(rec.init)]

VARIABLES c, k, pipe, order, st, seen, halted     \* seen: stages the open iteration has run
vars == <<c, k, pipe, order, st, seen, halted>>

Init == /\ c \in 1..NRecs
        /\ k = 0
        /\ pipe = PipeOf(Recs[c])
        /\ order = Resolve(pipe).order
        /\ st = Fresh([a \in 1..Recs[c].na |-> 0])
        /\ seen = {}
        /\ halted = (Resolve(pipe).status # "accepted")

Tag(op) == CASE op = "all" -> "C04" [] op = "iter" -> "C04" [] op = "until" -> "C07" [] op = "stage" -> "C05"

\* What an execution received is wrong: in which way?
InputClauses(tag, e, given, s) ==
    LET bad == {a \in pipe.inp[s] : e.ins[a] # given[a]}
    IN  (IF \E a \in bad : e.ins[a] < 0 THEN {"C06:tampered-input"} ELSE {})
        \cup (IF \E a \in bad : e.ins[a] >= 0 THEN {tag \o ":input-value"} ELSE {})
        \cup Clause("C03:restriction-handed-over", ~e.restr)

(* Executions of a full or partial run: st2 is threaded; stops at the first problem. *)
RECURSIVE RunExecs(_, _, _, _)
RunExecs(tag, st2, execs, i) ==
    IF i > Len(execs) THEN [st |-> st2, bad |-> {}]
    ELSE LET e == execs[i] IN
         IF e.s \notin Stages(pipe) \/ e.s \in st2.ran \/ st2.pos > Len(order)
             THEN [st |-> st2, bad |-> {tag \o ":executed-again"}]
         ELSE IF e.s \notin order[st2.pos]
             THEN [st |-> st2, bad |-> {tag \o ":execution-order"}]
         ELSE LET b == InputClauses(tag, e, Given(order, st2, e.s, [a \in DOMAIN st2.cur |-> 0]), e.s)
              IN IF b # {} THEN [st |-> st2, bad |-> b]
                 ELSE IF e.fail THEN [st |-> st2, bad |-> {}]
                 ELSE RunExecs(tag, Done(order, st2, e.s, e.outs), execs, i + 1)

AsMap(seq) == [a \in DOMAIN seq |-> seq[a]]

ResultClauses(tag, res, want) ==
    (IF \E a \in DOMAIN want : res[a] # want[a] /\ res[a] < 0 THEN {"C06:tampered-result"} ELSE {})
    \cup (IF \E a \in DOMAIN want : res[a] # want[a] /\ res[a] >= 0 THEN {tag \o ":result"} ELSE {})

LastFailed(o) == Len(o.execs) > 0 /\ o.execs[Len(o.execs)].fail

\* How far the call should have come: all steps, or up to the one of the stop stage
Complete(o, st2) ==
    IF o.op = "until" THEN st2.pos = Index(order, o.stage) + 1
    ELSE IF o.op = "iter" /\ o.take >= 0 /\ o.take < pipe.n THEN Len(o.execs) = o.take
    ELSE st2.pos = Len(order) + 1

YieldClauses(o) ==
    LET n == IF LastFailed(o) THEN Len(o.execs) - 1 ELSE Len(o.execs)
    IN Clause("C04:yield", /\ Len(o.yields) = n
                           /\ \A i \in 1..n : /\ o.yields[i].s = o.execs[i].s
                                              /\ o.yields[i].outs = o.execs[i].outs)

RunOp(o) ==
    LET tag == Tag(o.op)
        r   == RunExecs(tag, Fresh(AsMap(o.init)), o.execs, 1)
        bad == IF r.bad # {} THEN r.bad
               ELSE IF LastFailed(o) THEN Clause(tag \o ":failure-hidden", o.err = "stage")
               ELSE IF o.err # "none" THEN {tag \o ":unexpected-error"}
               ELSE IF ~Complete(o, r.st) THEN {tag \o ":incomplete"}
               ELSE IF o.op = "iter" /\ o.take >= 0 THEN {}
               ELSE ResultClauses(tag, o.res, r.st.cur)
        y   == IF o.op = "iter" /\ bad = {} THEN YieldClauses(o) ELSE {}
    IN [st |-> r.st, bad |-> bad \cup y]

StageOp(o) ==
    LET s     == o.stage
        may   == MayRun(order, st, s)
        given == Given(order, st, s, AsMap(o.over))
        has   == may /\ HasInputs(pipe, given, s)
    IN  IF ~may THEN [st |-> st, bad |-> Clause("C05:not-gated", o.err = "gate" /\ Len(o.execs) = 0)]
        ELSE IF ~has THEN [st |-> st, bad |-> Clause("C05:missing-input-accepted",
                                                     o.err # "none" /\ Len(o.execs) = 0)]
        ELSE IF Len(o.execs) = 0
             THEN [st |-> st, bad |-> {IF o.err = "gate" THEN "C05:wrongly-refused" ELSE "C05:not-executed"}]
        ELSE IF Len(o.execs) > 1 \/ o.execs[1].s # s THEN [st |-> st, bad |-> {"C05:executed-other"}]
        ELSE LET e == o.execs[1]
                 b == InputClauses("C05", e, given, s)
             IN IF b # {} THEN [st |-> st, bad |-> b]
                ELSE IF e.fail THEN [st |-> st, bad |-> Clause("C05:failure-hidden", o.err = "stage")]
                ELSE IF o.err # "none" THEN [st |-> st, bad |-> {"C05:unexpected-error"}]
                ELSE [st  |-> Done(order, st, s, e.outs),
                      bad |-> ResultClauses("C05", o.res, AsMap(e.outs))]

\* The next stage of the open iteration, from whatever state other calls have left
NextOp(o) ==
    IF seen = Stages(pipe)
    THEN [st |-> st, bad |-> Clause("C04:iteration-end", o.err = "stop" /\ Len(o.execs) = 0)
                             \cup (IF o.err = "stop" THEN ResultClauses("C04", o.res, st.cur) ELSE {})]
    ELSE LET due == IterDue(order, seen)
             s   == IF Len(o.execs) > 0 THEN o.execs[1].s ELSE CHOOSE t \in due : TRUE
         IN IF s \notin due THEN [st |-> st, bad |-> {"C04:iteration-order"}]
            ELSE LET r == StageOp([o EXCEPT !.stage = s, !.over = [a \in DOMAIN st.cur |-> 0]])
                 IN [st |-> r.st, bad |-> r.bad \cup Clause("C04:yield", o.err = "none" =>
                        /\ Len(o.yields) = 1
                        /\ o.yields[1].s = s /\ o.yields[1].outs = o.execs[1].outs)]
Executed(o) == {o.execs[i].s : i \in 1..Len(o.execs)}
SeenAfter(o) == IF o.op = "iter" /\ o.kept THEN Executed(o)
                ELSE IF o.op = "next" THEN seen \cup Executed(o) ELSE seen

OpOutcome(o) == IF o.op = "stage" THEN StageOp(o) ELSE IF o.op = "next" THEN NextOp(o) ELSE RunOp(o)

\* A wrong outcome right after a failed call is also a failure that left traces
PrevFailed == k > 0 /\ LastFailed(Recs[c].ops[k])
Tagged(bad) == IF bad # {} /\ PrevFailed THEN bad \cup {"C06:failure-left-traces"} ELSE bad

Next ==
    /\ ~halted
    /\ k < Len(Recs[c].ops)
    /\ LET o   == Recs[c].ops[k + 1]
           out == OpOutcome(o)
           bad == Tagged(out.bad) \cup Clause("C06:caller-object-changed", ~o.dirty)
       IN /\ st' = out.st
          /\ seen' = SeenAfter(o)
          /\ halted' = (bad # {})
          /\ Report(c, k + 1, bad)
    /\ k' = k + 1
    /\ UNCHANGED <<c, pipe, order>>
=============================================================================

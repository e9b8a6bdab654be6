----------------------------- MODULE FacadeTrace -----------------------------
(* Replays calls observed on real InstanceSpace objects through Facade.      *)
(*                                                                           *)
(* Record: n, inp, out (lists of names per stage), names (all names),        *)
(*   start: per facade, the ids of its initial values by name                *)
(*   created: per facade, whether construction succeeded                     *)
(*   probes: other constructions over the same stages: [extra (with a further *)
(*         initial input), probing (with a stage that needs it), got, kept]   *)
(*   ops: [f, op "build"|"model"|"iter"|"until"|"stage", stage, over, take,  *)
(*         execs [s, ins, outs, fail], yields, err "none"|"gate"|"stage"|    *)
(*         "other", res, model (field -> id), opts_ok, dirty]                *)
(* Or, for construction from files: files [meta_ok, opts_ok, got "none"|     *)
(*   "space"|"error", same].                                                 *)
EXTENDS Facade, TraceLib

Val(m, a) == IF a \in DOMAIN m THEN m[a] ELSE 0

VARIABLES c, k, pipe, order, names, fs, halted
vars == <<c, k, pipe, order, names, fs, halted>>

IsFiles(rec) == "files" \in DOMAIN rec
PipeOf(rec) == [n |-> rec.n, inp |-> [s \in 1..rec.n |-> Rng(rec.inp[s])],
                out |-> [s \in 1..rec.n |-> Rng(rec.out[s])], prec |-> {}, init |-> InputNames]
EmptyPipe == [n |-> 0, inp |-> <<>>, out |-> <<>>, prec |-> {}, init |-> {}]

Init == /\ c \in 1..NRecs
        /\ k = 0
        /\ pipe = IF IsFiles(Recs[c]) THEN EmptyPipe ELSE PipeOf(Recs[c])
        /\ order = Resolve(pipe).order
        /\ names = IF IsFiles(Recs[c]) THEN {} ELSE Rng(Recs[c].names) \cup InputNames
        /\ fs = [i \in 1..2 |-> NewFacade([a \in names |-> 0])]
        /\ halted = FALSE

FilesClauses(r) ==
    IF r.meta_ok /\ r.opts_ok
    THEN Clause("C08:files-not-loaded", r.got = "space" /\ r.same)
    ELSE Clause("C08:space-from-unreadable-files", r.got = "none")

Map(m) == [a \in names |-> Val(m, a)]

InputClauses(e, given) ==
    Clause("C08:stage-input", \A a \in pipe.inp[e.s] : Val(e.ins, a) = given[a])

RECURSIVE RunExecs(_, _, _)
RunExecs(st, execs, i) ==
    IF i > Len(execs) THEN [st |-> st, bad |-> {}]
    ELSE LET e == execs[i] IN
         IF e.s \in st.ran \/ st.pos > Len(order) \/ ~(e.s \in order[st.pos])
         THEN [st |-> st, bad |-> {"C08:execution-order"}]
         ELSE LET b == InputClauses(e, Given(order, st, e.s, [a \in names |-> 0]))
              IN IF b # {} \/ e.fail THEN [st |-> st, bad |-> b]
                 ELSE RunExecs(Done(order, st, e.s, Map(e.outs)), execs, i + 1)

LastFailed(o) == Len(o.execs) > 0 /\ o.execs[Len(o.execs)].fail
Complete(o, st) ==
    IF o.op = "until" THEN st.pos = Index(order, o.stage) + 1
    ELSE IF o.op = "iter" /\ o.take >= 0 /\ o.take < pipe.n THEN Len(o.execs) = o.take
    ELSE st.pos = Len(order) + 1

ModelClauses(o, built) ==
    Clause("C08:model-field",
           \A j \in 1..Len(ModelFields) : Val(o.model, ModelFields[j][1]) = built[ModelFields[j][2]])
    \cup Clause("C08:model-options", o.opts_ok)

RunOp(o, f) ==
    LET r   == RunExecs(Fresh(Map(Recs[c].start[o.f])), o.execs, 1)
        bad == IF r.bad # {} THEN r.bad
               ELSE IF LastFailed(o) THEN Clause("C08:failure-hidden", o.err = "stage")
               ELSE IF o.err # "none" THEN {"C08:unexpected-error"}
               ELSE IF ~Complete(o, r.st) THEN {"C08:incomplete"}
               ELSE IF o.op = "build" THEN ModelClauses(o, r.st.cur)
               ELSE IF o.op = "until" THEN Clause("C08:result", \A a \in names : Val(o.res, a) = r.st.cur[a])
               ELSE Clause("C08:yields", Len(o.yields) = Len(o.execs) /\
                        \A i \in 1..Len(o.execs) : o.yields[i].s = o.execs[i].s /\ o.yields[i].outs = o.execs[i].outs)
        done == o.op = "build" /\ bad = {} /\ ~LastFailed(o)
    IN [f |-> IF done THEN Built(f, r.st) ELSE Moved(f, r.st), bad |-> bad]

StageOp(o, f) ==
    LET may   == MayRun(order, f.st, o.stage)
        given == Given(order, f.st, o.stage, Map(o.over))
        has   == may /\ HasInputs(pipe, given, o.stage)
    IN IF ~has THEN [f |-> f, bad |-> Clause("C08:stage-not-refused", o.err # "none" /\ Len(o.execs) = 0)]
       ELSE IF Len(o.execs) # 1 \/ o.execs[1].s # o.stage THEN [f |-> f, bad |-> {"C08:stage-not-run"}]
       ELSE LET e == o.execs[1]
                b == InputClauses(e, given)
            IN IF b # {} THEN [f |-> f, bad |-> b]
               ELSE IF e.fail THEN [f |-> f, bad |-> Clause("C08:failure-hidden", o.err = "stage")]
               ELSE [f |-> Moved(f, Done(order, f.st, o.stage, Map(e.outs))),
                     bad |-> Clause("C08:unexpected-error", o.err = "none")]

\* Right after a run that did not build, the model is the one of the last complete build, or
\* refused if there was none.  (Whether a run finished through the iterator counts as a
\* build is left open: both answers are accepted until the next build.)
ModelOp(o, f) ==
    [f |-> f, bad |->
        IF HasModel(f) THEN
            IF o.err = "none" THEN ModelClauses(o, f.built) ELSE {"C08:model-refused"}
        ELSE Clause("C08:model-before-build", o.err = "gate"
                \/ (o.err = "none" /\ f.st.pos = Len(order) + 1 /\ ModelClauses(o, f.st.cur) = {}))]

\* What one space is constructed with says nothing about what another one has
ProbePipe(r) ==
    LET p == IF ~r.probing THEN pipe
             ELSE [pipe EXCEPT !.n = @ + 1, !.inp = Append(@, {"unused_extra", "features"}), !.out = Append(@, {"probed"})]
    IN IF r.extra THEN [p EXCEPT !.init = @ \cup {"unused_extra"}] ELSE p
ProbeClauses(r) ==
    Clause("C08:wrongly-constructed", r.got = (Resolve(ProbePipe(r)).status = "accepted"))
    \cup Clause("C08:stage-list-changed", r.kept)

Next ==
    /\ ~halted
    /\ IF IsFiles(Recs[c])
       THEN /\ k = 0
            /\ Report(c, 0, FilesClauses(Recs[c].files))
            /\ halted' = TRUE
            /\ UNCHANGED fs
       ELSE IF k = 0 /\ UNION {ProbeClauses(Recs[c].probes[i]) : i \in 1..Len(Recs[c].probes)} # {}
       THEN /\ Report(c, 0, UNION {ProbeClauses(Recs[c].probes[i]) : i \in 1..Len(Recs[c].probes)})
            /\ halted' = TRUE
            /\ UNCHANGED fs
       ELSE IF ~(Recs[c].created[1] /\ Recs[c].created[2])
       THEN /\ Report(c, 0, {"C08:not-constructed"})
            /\ halted' = TRUE
            /\ UNCHANGED fs
       ELSE /\ k < Len(Recs[c].ops)
            /\ LET o   == Recs[c].ops[k + 1]
                   out == CASE o.op = "stage" -> StageOp(o, fs[o.f])
                            [] o.op = "model" -> ModelOp(o, fs[o.f])
                            [] OTHER -> RunOp(o, fs[o.f])
                   bad == out.bad \cup Clause("C08:caller-data-changed", ~o.dirty)
               IN /\ fs' = [fs EXCEPT ![o.f] = out.f]
                  /\ halted' = (bad # {})
                  /\ Report(c, k + 1, bad)
    /\ k' = k + 1
    /\ UNCHANGED <<c, pipe, order, names>>
=============================================================================

---------------------------- MODULE BuilderTrace ----------------------------
(* Checks builds observed from the real StageBuilder against Builder.       *)
EXTENDS Builder, TraceLib

(* Record: n, inp, out, prec, init (lists), builds: a sequence of           *)
(*   [status |-> "accepted" | "refused" | "error", order |-> <<<<..>>, ..>>,  *)
(*    n |-> number of stages added at the time, init, init_after]           *)
(* adds: a sequence of [stage, status, was: "new"|"dup"|"badout"]           *)
AsPipe(rec, b) ==
    [n    |-> b.n,
     inp  |-> [s \in 1..b.n |-> Rng(rec.inp[s])],
     out  |-> [s \in 1..b.n |-> Rng(rec.out[s])],
     prec |-> {<<e[1], e[2]>> : e \in Rng(rec.prec[b.n + 1])},
     init |-> Rng(b.init)]

BuildVerdict(rec, b) ==
    LET p   == AsPipe(rec, b)
        r   == Resolve(p)
        acc == b.status = "accepted"
        well == acc /\ EachOnce(p, b.order)
    IN  Clause("C02:verdict", b.status = IF r.status = "accepted" THEN "accepted" ELSE "refused")
        \cup Clause("C03:satisfiable-restriction-refused",
                    (r.status = "accepted" /\ p.prec # {}) => acc)
        \cup Clause("C02:init-changed", Rng(b.init_after) = p.init)
        \cup (IF acc THEN
                Clause("C01:each-once", EachOnce(p, b.order))
                \cup (IF well THEN
                        Clause("C01:inputs-earlier", InputsEarlier(p, b.order))
                        \cup Clause("C03:restrictions", RestrictionsHold(p, b.order))
                        \cup Clause("C03:modify-first", ModifyFirst(p, b.order))
                        \cup Clause("C03:needless-wait", NoNeedlessWait(p, b.order))
                        \cup Clause("C02:ambiguous-step", StepsUnambiguous(p, b.order))
                        \cup Clause("C02:order-depends-on-history",
                                r.status = "accepted" =>
                                  [i \in 1..Len(b.order) |-> Rng(b.order[i])] = r.order)
                      ELSE {})
              ELSE {})

AddVerdict(a) ==
    Clause("C02:add-verdict",
           a.status = CASE a.was = "new" -> "ok" [] a.was = "dup" -> "refused" [] OTHER -> "refused")

RECURSIVE All(_, _)
All(rec, i) == IF i = 0 THEN {} ELSE BuildVerdict(rec, rec.builds[i]) \cup All(rec, i - 1)
RECURSIVE AllAdds(_, _)
AllAdds(rec, i) == IF i = 0 THEN {} ELSE AddVerdict(rec.adds[i]) \cup AllAdds(rec, i - 1)

VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ Report(c, 0, All(Recs[c], Len(Recs[c].builds)) \cup AllAdds(Recs[c], Len(Recs[c].adds)))
=============================================================================

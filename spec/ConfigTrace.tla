----------------------------- MODULE ConfigTrace -----------------------------
(* Checks loads observed on the real options classes against Config.         *)
(* Record: events, a sequence of                                             *)
(*   kind "load" (file: [group, entries [low, val]], via "dict"|"file")      *)
(*      | "fault" (an unreadable or malformed file; what)                    *)
(*      | "default" (given: groups built by hand, group -> field -> text)    *)
(*      | "group" (one group's own default with some fields given)           *)
(*      | "prelim" (vals in, pre: the options of the preparation stage)      *)
(*   status "ok" | "rejected" | "none" | "error", vals, dirty                *)
EXTENDS Config, TraceLib

Matches(vals, want) == \A g \in Groups : \A f \in Names(g) : vals[g][f] = want[g][f]
LoadClauses(e) ==
    LET r == Load(e.file)
    IN IF r.status = "ok"
       THEN IF e.status # "ok" THEN {"C10:good-options-refused"}
            ELSE Clause("C10:loaded-value", Matches(e.vals, r.vals))
       ELSE Clause("C10:bad-options-accepted",
                   e.status = IF e.via = "dict" THEN "rejected" ELSE "none")
FaultClauses(e) == Clause("C10:options-from-a-bad-file",
                          IF e.strict THEN e.status = "none" ELSE e.status # "ok")
Given(e, g, f) == IF g \in DOMAIN e.given /\ f \in DOMAIN e.given[g] THEN e.given[g][f] ELSE Default(g, f)
DefaultClauses(e) ==
    IF e.status # "ok" THEN {"C10:default-refused"}
    ELSE Clause("C10:default-value", \A g \in Groups : \A f \in Names(g) : e.vals[g][f] = Given(e, g, f))
GroupClauses(e) ==
    IF e.status # "ok" THEN {"C10:default-refused"}
    ELSE Clause("C10:default-value", \A f \in Names(e.group) :
            e.vals[f] = IF f \in DOMAIN e.given THEN e.given[f] ELSE Default(e.group, f))
PrelimClauses(e) ==
    IF e.status # "ok" THEN {"C10:preparation-options"}
    ELSE Clause("C10:preparation-options", LET w == PrelimOf(e.vals) IN \A f \in DOMAIN w : e.pre[f] = w[f])

Verdict(e) ==
    (CASE e.kind = "load" -> LoadClauses(e)
       [] e.kind = "fault" -> FaultClauses(e)
       [] e.kind = "default" -> DefaultClauses(e)
       [] e.kind = "group" -> GroupClauses(e)
       [] e.kind = "prelim" -> PrelimClauses(e))
    \cup Clause("C10:input-changed", ~e.dirty)

VARIABLES c, k
Init == c \in 1..NRecs /\ k = 0
Next == /\ k < Len(Recs[c].events)
        /\ k' = k + 1
        /\ UNCHANGED c
        /\ Report(c, k + 1, Verdict(Recs[c].events[k + 1]))
=============================================================================

------------------------------ MODULE TraceLib ------------------------------
(* Records observed from the implementation, one JSON object per line.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
NRecs == Len(Recs)

\* Reports the clauses of the specification that record (or history) number c breaks.
Report(c, k, clauses) ==
    IF clauses = {} THEN TRUE
    ELSE PrintT("@@" \o ToJson([c |-> c, k |-> k, clauses |-> clauses]))

Rng(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================

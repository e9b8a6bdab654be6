----------------------------- MODULE PilotTrace -----------------------------
(* Record: x, y (integers), names (ids of the feature names, 1..n), method    *)
(* ("analytic", "tries", "given"); got: status, A (2 x n), B (m x 2; of the   *)
(* features, then of the algorithms) and z in ten-thousandths (Alo and zlo:   *)
(* what this leaves of A and z, in billionths), err in ten-                   *)
(* thousandths, r2 in thousandths, shapes_ok, head (ids of the summary's      *)
(* feature columns), table (their values), labels (row labels).               *)
(* For "tries": start (keys of the starting points asked for, <<>> if random),*)
(* x0 (keys of those reported), cols (one solution per attempt), perf         *)
(* (thousandths, 5000 for none), rank (order of the scores, 0 for none), eopt *)
(* (ten-thousandths), begin (error at the starting point, ten-thousandths),   *)
(* colkeys, alone (the same solutions when each start is tried by itself),    *)
(* first, again (keys of all results of two runs).                            *)
(* "stiff" (analytic): the last feature has e/part more than x says; space is *)
(* an integer basis of the features' span; got has B and z only.              *)
(* "slope": several attempts (cols), some performances unknown (known).       *)
(* "slope": an attempt or more (cols), with known cells marked by 1 in known.  *)
(* For "given": cols has the given solution.                                  *)
EXTENDS Pilot, TraceLib

Z3(z) == TLCEval([i \in 1..Len(z) |-> [k \in 1..2 |-> Near(z[i][k], 10)]])
Bar(r) == TLCEval([i \in 1..Len(r.x) |-> r.x[i] \o r.y[i]])

Reported(r) ==
    LET g == r.got n == Width(r.x) m == n + Width(r.y)
        z3 == Z3(g.z) hat == Rebuild(z3, g.B) bar == Bar(r)
    IN IF ~g.shapes_ok THEN {"C40:shapes"}
    ELSE Clause("C40:coordinates", ProjectionOk(r.x, g.A, g.z))
         \cup Clause("C40:coordinates-fine", FineOk(r.x, g.A, g.z, g.Alo, g.zlo))
         \cup Clause("C40:summary", g.head = [j \in 1..n |-> j] /\ g.table = g.A /\ g.labels = <<"Z_{1}", "Z_{2}">>)
         \cup Clause("C40:error", Abs(TotalError(bar, hat) - g.err) <= ErrorDoubt(bar, hat, z3, g.B) + 5)
         \cup Clause("C40:fit", \A c \in 1..m :
                LET h == Col(hat, c) IN
                (Varies(Col(bar, c)) /\ Largest(Centred(h)) >= 800) =>
                    LET q == Corr(Col(bar, c), h)
                    IN Abs(Near(q * q, 1000) - g.r2[c]) <= 12)
         \cup (IF r.method # "analytic" THEN {}
               ELSE LET M == Cross(bar, bar) IN
                    Clause("C40:analytic-directions", Orthonormal(g.B) /\ Eigen(M, g.B, 1) /\ Eigen(M, g.B, 2))
                    \cup Clause("C40:leading-directions", Orthonormal(g.B) => Leading(M, g.B))
                    \cup Clause("C40:least-squares", LeastSquares(r.x, bar, g.A, g.B)))

\* the score and the error of attempt i, from its own solution
OwnScore(r, i) ==
    LET n == Width(r.x) A == MatA(r.got.cols[i], n)
        z3 == Z3([k \in 1..Len(r.x) |-> Project(r.x[k], A)])
        pairs == Pairs(Len(r.x))
        dx == Dist(r.x, pairs, 1000000) dz == Dist(z3, pairs, 1)
    IN IF ~Varies(dx) \/ Largest(Centred(dz)) < 300 THEN -5000 ELSE Corr(dx, dz)
Attempts(r) ==
    LET g == r.got n == Width(r.x) m == n + Width(r.y) k == Len(g.cols) bar == Bar(r)
        kept == {i \in Best(g.rank) : MatA(g.cols[i], n) = g.A /\ MatB(g.cols[i], n, m) = g.B}
    IN Clause("C41:starting-points", Len(g.x0) = k /\ (r.start # <<>> => g.x0 = r.start))
       \cup Clause("C41:best-attempt", kept # {})
       \cup Clause("C41:scores", Len(g.perf) = k /\ Len(g.eopt) = k)
       \cup (IF Len(g.perf) # k \/ Len(g.eopt) # k THEN {} ELSE
            Clause("C41:own-score", \A i \in 1..k :
                LET own == OwnScore(r, i) IN own > -5000 => Abs(own - g.perf[i]) <= 12)
            \cup Clause("C41:own-error", \A i \in 1..k :
                LET A == MatA(g.cols[i], n) B == MatB(g.cols[i], n, m)
                    z3 == Z3([q \in 1..Len(r.x) |-> Project(r.x[q], A)])
                    hat == Rebuild(z3, B) cells == Len(bar) * m
                IN Abs(Near(TotalError(bar, hat), cells) - g.eopt[i]) * cells
                       <= ErrorDoubt(bar, hat, z3, B) + 5 * cells + TotalError(bar, hat) \div 50)
            \cup Clause("C41:no-worse-than-start", \A i \in 1..k : g.eopt[i] <= g.begin[i] + 1))
       \cup Clause("C41:attempt-by-itself", g.alone = g.colkeys)
       \cup Clause("C41:repeatable", g.first = g.again)
Given(r) == LET g == r.got n == Width(r.x) m == n + Width(r.y) IN
    Clause("C40:given-solution", MatA(g.cols[1], n) = g.A /\ MatB(g.cols[1], n, m) = g.B)
Slopes(r) == LET n == Width(r.x) m == n + Width(r.y) IN
    IF ~r.got.shapes_ok THEN {"C90:shapes"}
    ELSE Clause("C90:stationary", \A i \in 1..Len(r.got.cols) :
            Stationary(r.x, Bar(r), r.known, MatA(r.got.cols[i], n), MatB(r.got.cols[i], n, m)))
         \cup Clause("C90:reported", \E i \in 1..Len(r.got.cols) :
            MatA(r.got.cols[i], n) = r.got.A /\ MatB(r.got.cols[i], n, m) = r.got.B)

Verdict(r) ==
    IF r.got.status # "ok" THEN {"C40:refused", "C41:refused", "C90:refused"}
    ELSE IF r.method = "slope" THEN Slopes(r)
    ELSE IF r.method = "stiff" THEN
         IF ~r.got.shapes_ok THEN {"C40:shapes"}
         ELSE Clause("C40:analytic-directions", Orthonormal(r.got.B))
              \cup Clause("C40:least-squares", SpanSquares(Bar(r), r.e, r.part, r.space, r.got.z, r.got.B))
    ELSE Reported(r)
         \cup (IF ~r.got.shapes_ok THEN {}
               ELSE IF r.method = "tries" THEN Attempts(r) ELSE IF r.method = "given" THEN Given(r) ELSE {})
VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================

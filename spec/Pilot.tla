------------------------------- MODULE Pilot --------------------------------
(* The two-dimensional projection: coordinates, reconstruction, error, fit,   *)
(* and the choice among several attempts. Tables are rows of integers; real   *)
(* numbers are integers in the units named.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* (TLCEval has no meaning of its own: it makes TLC compute a table once)

LOCAL Ab(v) == IF v < 0 THEN -v ELSE v
Sq(v) == v * v
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Width(m) == Len(m[1])
\* nearest integer to a/b, b > 0
Near(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
RECURSIVE RootIn(_, _, _)
RootIn(v, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET mid == (lo + hi) \div 2
                          IN IF mid * mid <= v THEN RootIn(v, mid, hi) ELSE RootIn(v, lo, mid)
Root(v) == RootIn(v, 0, 46341)     \* whole part of the square root

\* Row times transposed matrix: coordinates of one row of integers under A (units kept)
Project(row, A) == [k \in 1..Len(A) |-> Sum([j \in 1..Len(row) |-> row[j] * A[k][j]])]
\* what rounding of A may have added, in units of A
Slack(row) == Sum([j \in 1..Len(row) |-> Ab(row[j])]) \div 2 + 1
ProjectionOk(x, A, z) == \A i \in 1..Len(x) : \A k \in 1..Len(A) :
    Ab(Project(x[i], A)[k] - z[i][k]) <= Slack(x[i])

\* The same to a billionth: A and z in ten-thousandths, what these leave of them in billionths
FineOk(x, A, z, Alo, zlo) == \A i \in 1..Len(x) : \A k \in 1..Len(A) :
    LET e == Project(x[i], A)[k] - z[i][k]
    IN Ab(e) <= 1000 /\ Ab(100000 * e + Project(x[i], Alo)[k] - zlo[i][k]) <= Slack(x[i]) + 2

\* z in thousandths, B (columns x 2) in ten-thousandths: reconstruction in thousandths
Rebuild(z3, B4) == TLCEval([i \in 1..Len(z3) |-> [c \in 1..Len(B4) |->
    Near(z3[i][1] * B4[c][1] + z3[i][2] * B4[c][2], 10000)]])
\* error of one rebuilt value, in thousandths, caused by rounding
Doubt(z3, B4, i, c) == 2 + (Ab(B4[c][1]) + Ab(B4[c][2])) \div 20000 + (Ab(z3[i][1]) + Ab(z3[i][2])) \div 20000
\* table and its rebuilt version: sum of squared residuals in ten-thousandths, and its doubt
Residual(xbar, hat3, i, c) == 1000 * xbar[i][c] - hat3[i][c]
TotalError(xbar, hat3) ==
    Sum([i \in 1..Len(xbar) |-> Sum([c \in 1..Width(xbar) |-> Sq(Residual(xbar, hat3, i, c)) \div 100])])
ErrorDoubt(xbar, hat3, z3, B4) ==
    Sum([i \in 1..Len(xbar) |-> Sum([c \in 1..Width(xbar) |->
        LET d == Doubt(z3, B4, i, c) IN ((2 * Ab(Residual(xbar, hat3, i, c)) + d) * d) \div 100 + 2])])

\* Pearson correlation of two sequences of integers, in thousandths; both must vary.
\* Sequences are centred and brought to a largest absolute value in 800..8000 first.
Centred(u) == TLCEval(LET m == Near(Sum(u), Len(u)) IN [i \in 1..Len(u) |-> u[i] - m])
Largest(u) == LET S == {Ab(u[i]) : i \in 1..Len(u)} IN CHOOSE t \in S : \A w \in S : w <= t
RECURSIVE Level(_)
Level(v) == LET u == TLCEval(v) n == Len(u) top == Largest(Centred(u)) IN TLCEval(
    IF top < 800 THEN Level([i \in 1..n |-> 10 * u[i]])
    ELSE IF top > 8000 THEN Level([i \in 1..n |-> Near(u[i], 10)]) ELSE Centred(u))
Varies(u) == \E i \in 1..Len(u) : u[i] # u[1]
Corr(u, v) ==
    LET n == Len(u) a == Level(u) b == Level(v)
        cov == Sum([i \in 1..n |-> a[i] * b[i]]) - Near(Sum(a) * Sum(b), n)
        va == Sum([i \in 1..n |-> a[i] * a[i]]) - Near(Sq(Sum(a)), n)
        vb == Sum([i \in 1..n |-> b[i] * b[i]]) - Near(Sq(Sum(b)), n)
    IN Near(cov, (Root(va) * Root(vb)) \div 1000)

\* Distances of all pairs of rows, in units of the rows over s
Pairs(n) == TLCEval([q \in 1..((n * (n - 1)) \div 2) |->
    CHOOSE ij \in {<<i, j>> \in (1..n) \X (1..n) : i < j} :
        q = Cardinality({<<a, b>> \in (1..n) \X (1..n) : a < b /\ (a < ij[1] \/ (a = ij[1] /\ b <= ij[2]))})])
Dist(m, pairs, up) == TLCEval([q \in 1..Len(pairs) |->
    LET u == m[pairs[q][1]] v == m[pairs[q][2]]
    IN Root(up * Sum([j \in 1..Len(u) |-> Sq(u[j] - v[j])]))])

---- (* the analytic solution *)
Cross(u, v) == TLCEval([i \in 1..Width(u) |-> [j \in 1..Width(v) |-> Sum([q \in 1..Len(u) |-> u[q][i] * v[q][j]])]])
\* columns of B (ten-thousandths) have length one and are perpendicular
Orthonormal(B4) == LET d(k, l) == Sum([c \in 1..Len(B4) |-> Near(B4[c][k] * B4[c][l], 10000)])
                   IN Ab(d(1, 1) - 10000) <= 10 /\ Ab(d(2, 2) - 10000) <= 10 /\ Ab(d(1, 2)) <= 10
\* M v for an integer matrix M and column k of B, and the quotient v'Mv (hundredths)
Times(M, B4, k) == TLCEval([i \in 1..Len(M) |-> Sum([j \in 1..Len(M) |-> M[i][j] * B4[j][k]])])
Quotient(M, B4, k) == LET mv == Times(M, B4, k)
                      IN Near(Sum([i \in 1..Len(M) |-> Near(mv[i], 100) * Near(B4[i][k], 10)]), 1000)
Total(M) == Sum([i \in 1..Len(M) |-> M[i][i]])
Eigen(M, B4, k) == LET mv == Times(M, B4, k) q == Quotient(M, B4, k)
                   IN \A i \in 1..Len(M) : Ab(Near(mv[i], 100) - Near(q * Near(B4[i][k], 10), 1000)) <= 3 + Total(M) \div 5
\* what is left of M (tenths) without the two directions has no larger quotient: tried from
\* every axis, three steps of the power method each
Rest(M, B4) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M) |->
    10 * M[i][j] - Near(Near(Quotient(M, B4, 1), 10) * Near(B4[i][1] * B4[j][1], 100000)
                        + Near(Quotient(M, B4, 2), 10) * Near(B4[i][2] * B4[j][2], 100000), 1000)]])
Shrunk(w) == TLCEval(LET S == {Ab(w[i]) : i \in 1..Len(w)} top == CHOOSE t \in S : \A u \in S : u <= t
             IN IF top <= 60 THEN w ELSE [i \in 1..Len(w) |-> Near(w[i] * 60, top)])
RECURSIVE Power(_, _, _)
Power(R, w, steps) == IF steps = 0 THEN w
    ELSE Power(R, Shrunk([i \in 1..Len(R) |-> Sum([j \in 1..Len(R) |-> R[i][j] * w[j]])]), steps - 1)
Leading(M, B4) ==
    LET R == Rest(M, B4) n == Len(M)
        lam == [k \in 1..2 |-> Near(Quotient(M, B4, k), 10)]
        low == IF lam[1] < lam[2] THEN lam[1] ELSE lam[2]
    IN \A a \in 1..n :
        LET w == TLCEval(Power(R, [i \in 1..n |-> IF i = a THEN 60 ELSE 0], 3))
            num == Sum([i \in 1..n |-> w[i] * Sum([j \in 1..n |-> R[i][j] * w[j]])])
            den == Sum([i \in 1..n |-> w[i] * w[i]])
        IN den > 0 => num \div den <= low + 5 + Total(M) \div 50
\* A is the least-squares map: A (X'X) = B' (Xbar'X)
LeastSquares(x, bar, A4, B4) ==
    LET G == Cross(x, x) H == Cross(bar, x)
    IN \A k \in 1..2 : \A l \in 1..Width(x) :
        Ab(Sum([j \in 1..Len(G) |-> A4[k][j] * G[j][l]]) - Sum([q \in 1..Len(H) |-> B4[q][k] * H[q][l]]))
            <= 2 + Sum([j \in 1..Len(G) |-> Ab(G[j][l])]) + Sum([q \in 1..Len(H) |-> Ab(H[q][l])])

\* The same said of the coordinates alone, for features that all but depend on each other: the
\* columns of bar are integers, but the last feature (number n) has e[i]/part more; space is
\* an integer basis of what the features span. What the coordinates leave of the target
\* (the projection of the data on the directions) is orthogonal to it.
Target(bar, e, part, n, B4) == TLCEval([i \in 1..Len(bar) |-> [k \in 1..2 |->
    Sum([c \in 1..Len(B4) |-> bar[i][c] * B4[c][k]]) + Near(B4[n][k] * e[i], part)]])
SpanSquares(bar, e, part, space, z4, B4) ==
    LET n == Width(space) t == Target(bar, e, part, n, B4) N == Len(bar)
    IN \A k \in 1..2 : \A l \in 1..n :
        Ab(Sum([i \in 1..N |-> (t[i][k] - z4[i][k]) * space[i][l]]))
            <= 20 + Sum([i \in 1..N |-> Ab(space[i][l]) * (2 + Slack(bar[i]))])

---- (* the slope of the error: half its derivative, for residuals R = z B' - data, z = x A'.
\* s brings products down to the unit wanted; a row with unknown cells counts them less *)
Share(v, m, known) == Near(v * m, known)
SlopeB(R, z, s, held, c, k) == Sum([i \in 1..Len(R) |-> Share(Near(R[i][c] * z[i][k], s), Len(R[1]), held[i])])
SlopeA(R, B, x, s, held, k, j) == Sum([i \in 1..Len(R) |->
    Share(Sum([c \in 1..Len(B) |-> Near(R[i][c] * B[c][k], s)]) * x[i][j], Len(R[1]), held[i])])
\* A and B (ten-thousandths) as reported, each entry with a relative error of one in 2048 at
\* most; slopes in ten-thousandths are zero but for what that explains, and for a thousandth
\* of the mean squared error's own slope
Stationary(x, bar, known, A4, B4) ==
    LET N == Len(x) m == Len(B4)
        z3 == TLCEval([i \in 1..N |-> [k \in 1..2 |-> Near(Project(x[i], A4)[k], 10)]])
        hat == Rebuild(z3, B4)
        R3 == TLCEval([i \in 1..N |-> [c \in 1..m |-> IF known[i][c] = 1 THEN hat[i][c] - 1000 * bar[i][c] ELSE 0]])
        held == TLCEval([i \in 1..N |-> Sum(known[i])])
        dz6 == TLCEval([i \in 1..N |-> [k \in 1..2 |->
                   Near(100 * Sum([j \in 1..Len(x[i]) |-> Ab(x[i][j]) * Ab(A4[k][j])]), 2048) + 1]])
        dR6 == TLCEval([i \in 1..N |-> [c \in 1..m |-> IF known[i][c] = 0 THEN 0 ELSE
                   510 + Sum([k \in 1..2 |-> Near(dz6[i][k] * Ab(B4[c][k]), 10000) + Near(Ab(z3[i][k]) * Ab(B4[c][k]), 20480)
                                             + Near(Ab(B4[c][k]), 20) + Near(Ab(z3[i][k]), 20)])]])
        doubtB(c, k) == Sum([i \in 1..N |-> Share(2 + Near(Near(dR6[i][c], 10) * Ab(z3[i][k]), 10000)
                                                   + Near(Ab(R3[i][c]) * dz6[i][k], 100000), m, held[i])])
        doubtA(k, j) == Sum([i \in 1..N |-> Share(Ab(x[i][j]) * Sum([c \in 1..m |->
                            2 + Near(Near(dR6[i][c], 100) * Ab(B4[c][k]), 10000) + Near(Ab(R3[i][c]) * Ab(B4[c][k]), 2048000)]),
                            m, held[i])])
    IN /\ \A c \in 1..m : \A k \in 1..2 : Ab(SlopeB(R3, z3, 100, held, c, k)) <= doubtB(c, k) + 5 * N * m
       /\ \A k \in 1..2 : \A j \in 1..Width(x) : Ab(SlopeA(R3, B4, x, 1000, held, k, j)) <= doubtA(k, j) + 5 * N * m

---- (* choosing among attempts: scores are ranks, 0 for an attempt without a score *)
Best(scores) == {i \in 1..Len(scores) : \A j \in 1..Len(scores) : scores[j] <= scores[i]}
\* layout of a solution of n features and m columns
MatA(al, n) == TLCEval([k \in 1..2 |-> [j \in 1..n |-> al[(k - 1) * n + j]]])
MatB(al, n, m) == TLCEval([c \in 1..m |-> [k \in 1..2 |-> al[2 * n + 2 * (c - 1) + k]]])
=============================================================================

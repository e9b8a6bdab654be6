------------------------------- MODULE Pythia -------------------------------
(* Recommending an algorithm per instance from predictions and track records, *)
(* and the quality figures. Tables are rows; NONE is a missing value.         *)
EXTENDS Integers, Sequences, FiniteSets
NONE == -999999

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Col(m, a) == [i \in 1..Len(m) |-> m[i][a]]
Count(n, P(_)) == Cardinality({i \in 1..n : P(i)})
Algos(yb) == 1..Len(yb[1])

\* confusion counts of a prediction: <<true negative, false positive, false negative, true positive>>
Confusion(truth, pred) ==
    LET n == Len(truth) IN
    <<Count(n, LAMBDA i : ~truth[i] /\ ~pred[i]), Count(n, LAMBDA i : ~truth[i] /\ pred[i]),
      Count(n, LAMBDA i : truth[i] /\ ~pred[i]), Count(n, LAMBDA i : truth[i] /\ pred[i])>>
\* quality as fractions <<a, b>>; nothing over nothing counts as zero
Frac(a, b) == IF b = 0 THEN <<0, 1>> ELSE <<a, b>>
Precision(c) == Frac(c[4], c[2] + c[4])
Recall(c) == Frac(c[4], c[3] + c[4])
Accuracy(c) == Frac(c[1] + c[4], c[1] + c[2] + c[3] + c[4])
LessFrac(p, q) == p[1] * q[2] < q[1] * p[2]

\* algorithms that may be recommended for an instance predicted `row`, given precisions
Candidates(row, prec) == {a \in 1..Len(row) : row[a] /\ prec[a][1] > 0}
Recommended(row, prec) == LET C == Candidates(row, prec) IN {a \in C : \A b \in C : ~LessFrac(prec[a], prec[b])}
GoodCount(yb, a) == Count(Len(yb), LAMBDA i : yb[i][a])
Fallback(yb) == {a \in Algos(yb) : \A b \in Algos(yb) : GoodCount(yb, b) <= GoodCount(yb, a)}
\* sel0 (0 is none) and sel1
SelectionOk(yb, yhat, prec, sel0, sel1) ==
    /\ Len(sel0) = Len(yb) /\ Len(sel1) = Len(yb)
    /\ \A i \in 1..Len(yb) :
        LET R == Recommended(yhat[i], prec)
        IN IF R = {} THEN sel0[i] = 0 /\ sel1[i] \in Fallback(yb)
           ELSE sel0[i] \in R /\ sel1[i] = sel0[i]
    \* one and the same fall-back everywhere
    /\ \A i, j \in 1..Len(yb) : sel0[i] = 0 /\ sel0[j] = 0 => sel1[i] = sel1[j]

---- (* averages of known values, in thousandths *)
Known(s) == SelectSeq(s, LAMBDA v : v # NONE)
Abs_(v) == IF v < 0 THEN -v ELSE v
MeanOk(s, got) == LET k == Known(s) IN
    IF k = <<>> THEN got = NONE ELSE got # NONE /\ 2 * Abs_(1000 * Sum(k) - got * Len(k)) <= Len(k) + 2
\* n^2 times the variance
Spread(k) == Len(k) * Sum([i \in 1..Len(k) |-> k[i] * k[i]]) - Sum(k) * Sum(k)
\* got = 1000 * sqrt(spread)/n, rounded: compare squares of 2*got -+ 1
DevOk(s, got) == LET k == Known(s) n == Len(k) sp == Spread(k) IN
    IF k = <<>> THEN got = NONE
    ELSE /\ got # NONE /\ got >= 0
         /\ LET lo == IF got > 1 THEN got - 1 ELSE 0 hi == got + 1
                \* (got +- 1)^2 n^2 in units of 10^6, kept small: compare got*n/1000 with the root
            IN /\ ((lo * n) \div 100) * ((lo * n) \div 100) <= sp * 100
               /\ sp * 100 <= ((hi * n) \div 100 + 1) * ((hi * n) \div 100 + 1)
Rounded(p, unit, got) == Abs_(p[1] * unit - got * p[2]) <= p[2]     \* within one unit
Values(y, keep(_, _)) ==      \* the cells of the table that are kept, in row order
    LET cells == [q \in 1..(Len(y) * Len(y[1])) |->
                    LET i == ((q - 1) \div Len(y[1])) + 1 a == ((q - 1) % Len(y[1])) + 1
                    IN IF keep(i, a) THEN y[i][a] ELSE NONE]
    IN Known(cells)
=============================================================================

------------------------------- MODULE Prelim -------------------------------
(* The performance rule (who is good, who is best, what is easy), bounding   *)
(* of outliers and the standardisation of columns. All numbers are integers: *)
(* fixed multiples of a unit; Missing stands for an unknown value.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Missing == -99999999
Elems(s) == {s[i] : i \in 1..Len(s)}
AbsV(v) == IF v < 0 THEN -v ELSE v
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SetMax(S) == CHOOSE m \in S : \A v \in S : v <= m
SetMin(S) == CHOOSE m \in S : \A v \in S : m <= v

---- (* performance rule: r = [max, abs, en, ed]; the threshold is en/ed *)
Known(row) == {a \in 1..Len(row) : row[a] # Missing}
Best(row, max) == LET V == {row[a] : a \in Known(row)} IN IF max THEN SetMax(V) ELSE SetMin(V)
FirstBest(row, max) == SetMin({a \in Known(row) : row[a] = Best(row, max)})

\* unit: performances are multiples of 1/unit
GoodAbs(v, r, unit) == IF r.max THEN v * r.ed >= r.en * unit ELSE v * r.ed <= r.en * unit
\* a fraction of the best (efficiency) resp. of the algorithm's own cost
Gap(v, best, max)   == IF max THEN best - v ELSE v - best
Whole(v, best, max) == IF max THEN best ELSE v
GoodRel(v, best, r) == Gap(v, best, r.max) * r.ed <= r.en * Whole(v, best, r.max)
\* The rule is met with equality by a quotient that binary arithmetic cannot hold
PowerOfTwo(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Dyadic(n, d) == \E k \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024} : (n * k) % d = 0
Undecided(v, best, r) ==
    LET w == Whole(v, best, r.max) IN
    /\ w > 0 /\ Gap(v, best, r.max) * r.ed = r.en * w
    /\ Gap(v, best, r.max) > 0
    /\ ~(Dyadic(best, w) /\ Dyadic(v, w) /\ Dyadic(r.en, r.ed))
\* an infinite value stands beyond every other; a fraction of it is not specified
Endless(v) == AbsV(v) >= 1048576
\* The verdicts allowed for algorithm a of an instance
GoodSet(row, a, r, unit) ==
    IF row[a] = Missing THEN {FALSE}
    ELSE IF r.abs THEN {GoodAbs(row[a], r, unit)}
    ELSE LET b == Best(row, r.max)
         IN IF Endless(b) \/ Undecided(row[a], b, r) THEN BOOLEAN ELSE {GoodRel(row[a], b, r)}
Easy(count, nalgos, bn, bd) == count * bd > bn * nalgos

---- (* bounding: cells are even multiples of a unit, so halves are integers *)
Values(col) == SortSeq(SelectSeq(col, LAMBDA v : v # Missing), <)
\* Percentile num/4: the element there, or the middle of its two neighbours
Quart(srt, num) ==
    LET k == num * (Len(srt) - 1)
        i == k \div 4
    IN IF k % 4 = 0 THEN srt[i + 1] ELSE (srt[i + 1] + srt[i + 2]) \div 2
Median(srt) == Quart(srt, 2)
Iqr(srt) == Quart(srt, 3) - Quart(srt, 1)
Hi(srt) == Median(srt) + 5 * Iqr(srt)
Lo(srt) == Median(srt) - 5 * Iqr(srt)
Clip(v, lo, hi) == IF v = Missing THEN v ELSE IF v > hi THEN hi ELSE IF v < lo THEN lo ELSE v
Bounded(col) == LET s == Values(col) IN [i \in 1..Len(col) |-> Clip(col[i], Lo(s), Hi(s))]

---- (* standardisation, z in thousandths *)
Order(col, z) == \A i, j \in 1..Len(col) :
    (col[i] # Missing /\ col[j] # Missing) =>
        /\ col[i] < col[j] => z[i] <= z[j]
        /\ col[i] = col[j] => z[i] = z[j]
StrictOrder(col, z) == \A i, j \in 1..Len(col) :
    (col[i] # Missing /\ col[j] # Missing /\ col[i] < col[j]) => z[i] < z[j]
Centred(z) == LET k == SelectSeq(z, LAMBDA v : v # Missing) IN AbsV(SumSeq(k)) <= Len(k)
UnitSpread(z) ==
    LET k == SelectSeq(z, LAMBDA v : v # Missing)
        sq == SumSeq([i \in 1..Len(k) |-> k[i] * k[i]])
        tol == 1 + Len(k) + SumSeq([i \in 1..Len(k) |-> AbsV(k[i])])
    IN AbsV(sq - (Len(k) - 1) * 1000000) <= tol
=============================================================================

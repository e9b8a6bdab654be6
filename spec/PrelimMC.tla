------------------------------ MODULE PrelimMC ------------------------------
(* Every short performance row under every rule, and every short column:     *)
(* the definitions against independent readings of them.                     *)
EXTENDS Prelim
CONSTANTS NA, VMAX, NR, XMAX
VARIABLES row, rule, col, phase
vars == <<row, rule, col, phase>>
Rules == [max : BOOLEAN, abs : BOOLEAN, en : {0, 1, 3}, ed : {4, 20}]
Rows == {r \in [1..NA -> (0..VMAX) \cup {Missing}] : \E a \in 1..NA : r[a] # Missing}
Cols == {c \in UNION {[1..n -> {2 * v : v \in 0..XMAX} \cup {Missing}] : n \in 1..NR} : \E i \in 1..Len(c) : c[i] # Missing}
Init == \/ phase = "row" /\ row \in Rows /\ rule \in Rules /\ col = <<>>
        \/ phase = "col" /\ row = <<0>> /\ rule = [max |-> TRUE, abs |-> TRUE, en |-> 0, ed |-> 1] /\ col \in Cols
\* Learning one more value, or clipping once more
Next == \/ /\ phase = "row" /\ \E a \in 1..NA : row[a] = Missing /\ \E v \in 0..VMAX : row' = [row EXCEPT ![a] = v]
           /\ UNCHANGED <<rule, col, phase>>
        \/ /\ phase = "col" /\ col' = Bounded(col) /\ phase' = "clipped" /\ UNCHANGED <<row, rule>>
Spec == Init /\ [][Next]_vars

Beats(v, w) == IF rule.max THEN v > w ELSE v < w
BestOk == phase = "row" =>
    LET p == FirstBest(row, rule.max) IN
    /\ row[p] # Missing
    /\ \A a \in Known(row) : ~Beats(row[a], row[p])
    /\ \A a \in Known(row) : a < p => Beats(row[p], row[a])
MissingNeverGood == phase = "row" => \A a \in 1..NA : row[a] = Missing => GoodSet(row, a, rule, 4) = {FALSE}
BestIsGood == phase = "row" /\ ~rule.abs => GoodSet(row, FirstBest(row, rule.max), rule, 4) = {TRUE}
BetterIsGood == phase = "row" => \A a, b \in Known(row) :
    (~Beats(row[b], row[a]) /\ GoodSet(row, b, rule, 4) = {TRUE}) => TRUE \in GoodSet(row, a, rule, 4)
LooserKeepsGood == phase = "row" /\ ~rule.abs => \A a \in 1..NA :
    TRUE \in GoodSet(row, a, rule, 4) => GoodSet(row, a, [rule EXCEPT !.en = @ + 1], 4) = {TRUE}
ScaleFree == phase = "row" /\ ~rule.abs => \A a \in 1..NA :
    GoodSet(row, a, rule, 4) = GoodSet([b \in 1..NA |-> IF row[b] = Missing THEN Missing ELSE 2 * row[b]], a, rule, 4)
\* quartiles: at least a quarter of the values on either side
Count(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
QuartOk == phase = "col" =>
    LET s == Values(col) n == Len(s) IN
    /\ 2 * Count(s, LAMBDA v : v <= Median(s)) >= n /\ 2 * Count(s, LAMBDA v : v >= Median(s)) >= n
    /\ 4 * Count(s, LAMBDA v : v <= Quart(s, 1)) >= n /\ 4 * Count(s, LAMBDA v : v >= Quart(s, 3)) >= n
    /\ Lo(s) <= Quart(s, 1) /\ Quart(s, 1) <= Median(s) /\ Median(s) <= Quart(s, 3) /\ Quart(s, 3) <= Hi(s)
    /\ LET mirror == Values([i \in 1..Len(col) |-> IF col[i] = Missing THEN Missing ELSE -col[i]])
       IN Median(mirror) = -Median(s) /\ Iqr(mirror) = Iqr(s)
\* clipping keeps what lies inside, and the order of all values
ClipOk == phase = "col" =>
    LET b == Bounded(col) s == Values(col) IN
    /\ \A i \in 1..Len(col) : (col[i] # Missing /\ Lo(s) <= col[i] /\ col[i] <= Hi(s)) => b[i] = col[i]
    /\ \A i \in 1..Len(col) : col[i] # Missing => b[i] \in Lo(s)..Hi(s)
    /\ \A i, j \in 1..Len(col) : (col[i] # Missing /\ col[j] # Missing /\ col[i] <= col[j]) => b[i] <= b[j]
    /\ Median(Values(b)) = Median(s)
ClipStable == phase = "clipped" => LET s == Values(col) IN Median(s) \in Elems(col) \cup (Lo(s)..Hi(s))
=============================================================================

------------------------------ MODULE Metadata ------------------------------
(* Reading a table of instances: columns are classified by name.             *)
(* A name is a sequence of character codes.  A table is a record             *)
(*   cols   names of the columns, in file order                              *)
(*   cells  cells[r][j]: the cell of row r in column j (values are ids or    *)
(*          scaled integers, Missing for an empty cell)                      *)
EXTENDS Integers, Sequences, FiniteSets

Missing == -99999999
Lower(ch) == IF ch >= 65 /\ ch <= 90 THEN ch + 32 ELSE ch
Low(name) == [i \in 1..Len(name) |-> Lower(name[i])]
Starts(name, w) == Len(name) >= Len(w) /\ SubSeq(name, 1, Len(w)) = w
WFeature   == <<102, 101, 97, 116, 117, 114, 101, 95>>          \* feature_
WAlgo      == <<97, 108, 103, 111, 95>>                          \* algo_
WInstances == <<105, 110, 115, 116, 97, 110, 99, 101, 115>>      \* instances
WSource    == <<115, 111, 117, 114, 99, 101>>                    \* source

Kind(name) == LET l == Low(name) IN
    IF Starts(l, WFeature) THEN "feature"
    ELSE IF Starts(l, WAlgo) THEN "algorithm"
    ELSE IF l = WInstances THEN "label"
    ELSE IF l = WSource THEN "source" ELSE "ignored"

RECURSIVE ColsFrom(_, _, _)
ColsFrom(cols, kind, j) ==
    IF j > Len(cols) THEN <<>>
    ELSE (IF Kind(cols[j]) = kind THEN <<j>> ELSE <<>>) \o ColsFrom(cols, kind, j + 1)
ColsOf(t, kind) == ColsFrom(t.cols, kind, 1)

Names(t, kind) == LET js == ColsOf(t, kind) IN [i \in 1..Len(js) |-> t.cols[js[i]]]
Matrix(t, kind) == LET js == ColsOf(t, kind)
                   IN [r \in 1..Len(t.cells) |-> [i \in 1..Len(js) |-> t.cells[r][js[i]]]]
Column(t, kind) == LET js == ColsOf(t, kind) IN [r \in 1..Len(t.cells) |-> t.cells[r][js[1]]]
WellFormed(t) == Len(ColsOf(t, "label")) = 1 /\ Len(ColsOf(t, "source")) <= 1
=============================================================================

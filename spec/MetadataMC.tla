----------------------------- MODULE MetadataMC -----------------------------
(* Tables built column by column from names that are close to the keywords.  *)
EXTENDS Metadata, TLC
CONSTANTS MaxCols, NRows
Upper(w, i) == [w EXCEPT ![i] = @ - 32]
Pool == {WFeature, WFeature \o <<97>>, Upper(WFeature, 1) \o <<66>>, SubSeq(WFeature, 1, 7),
         WAlgo \o <<97>>, Upper(WAlgo, 4) \o <<97>>, SubSeq(WAlgo, 1, 4) \o <<97>>,
         WInstances, Upper(WInstances, 9), SubSeq(WInstances, 1, 8), WInstances \o <<50>>,
         WSource, Upper(WSource, 2), WSource \o <<115>>, <<>>, <<120>> \o WFeature}
VARIABLES cols
Init == cols = <<>>
Next == Len(cols) < MaxCols /\ \E n \in Pool : cols' = Append(cols, n)
Spec == Init /\ [][Next]_cols
T == [cols |-> cols, cells |-> [r \in 1..NRows |-> [j \in 1..Len(cols) |-> 10 * r + j]]]
Kinds == {"feature", "algorithm", "label", "source", "ignored"}
\* Every column belongs to exactly one kind; order and values are kept
Partition == \A j \in 1..Len(cols) :
    Cardinality({k \in Kinds : \E i \in 1..Len(ColsOf(T, k)) : ColsOf(T, k)[i] = j}) = 1
Ordered == \A k \in Kinds : \A a, b \in 1..Len(ColsOf(T, k)) : a < b => ColsOf(T, k)[a] < ColsOf(T, k)[b]
Values == \A k \in Kinds : \A r \in 1..NRows : \A i \in 1..Len(ColsOf(T, k)) :
    Matrix(T, k)[r][i] = 10 * r + ColsOf(T, k)[i]
=============================================================================

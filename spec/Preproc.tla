------------------------------- MODULE Preproc -------------------------------
(* Preparing the table: manual selection of columns, then removal of rows    *)
(* and columns with missing values.                                          *)
(*                                                                           *)
(* A table t is a record                                                     *)
(*   rows   ids of its instances, in order                                   *)
(*   feats  ids of its features, in order; algos: ids of its algorithms      *)
(* over a background of cells fx[row][feature], fy[row][algorithm].          *)
EXTENDS Integers, Sequences, FiniteSets

Missing == -99999999
In(x, seq) == \E i \in 1..Len(seq) : seq[i] = x
RECURSIVE Keep(_, _)
Keep(seq, S) == IF seq = <<>> THEN <<>>
                ELSE (IF Head(seq) \in S THEN <<Head(seq)>> ELSE <<>>) \o Keep(Tail(seq), S)
Elems(seq) == {seq[i] : i \in 1..Len(seq)}

\* Columns the user asked for; a wish that matches nothing is no wish
Chosen(all, given, wish) ==
    LET hit == Elems(all) \cap Elems(wish)
    IN IF given /\ hit # {} THEN Keep(all, hit) ELSE all
Select(t, w) == [t EXCEPT !.feats = Chosen(@, w.has_feats, w.feats),
                          !.algos = Chosen(@, w.has_algos, w.algos)]

NoFeature(t, fx, r)   == \A i \in 1..Len(t.feats) : fx[r][t.feats[i]] = Missing
NoAlgorithm(t, fy, r) == \A i \in 1..Len(t.algos) : fy[r][t.algos[i]] = Missing
DropRows(t, fx, fy) ==
    [t EXCEPT !.rows = Keep(@, {r \in Elems(t.rows) : ~NoFeature(t, fx, r) /\ ~NoAlgorithm(t, fy, r)})]

MissingIn(t, fx, f) == Cardinality({i \in 1..Len(t.rows) : fx[t.rows[i]][f] = Missing})
\* at least 20% of the rows
Sparse(t, fx, f) == 5 * MissingIn(t, fx, f) >= Len(t.rows)
DropCols(t, fx) == IF t.rows = <<>> THEN t
                   ELSE [t EXCEPT !.feats = Keep(@, {f \in Elems(t.feats) : ~Sparse(t, fx, f)})]

Prepared(t, w, fx, fy) == DropCols(DropRows(Select(t, w), fx, fy), fx)
Cells(t, cols, f) == [i \in 1..Len(t.rows) |-> [j \in 1..Len(cols) |-> f[t.rows[i]][cols[j]]]]
=============================================================================

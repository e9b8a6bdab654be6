------------------------------ MODULE PreprocMC ------------------------------
(* Every pattern of missing cells and every selection on a small table; the  *)
(* three steps are taken one at a time.                                      *)
EXTENDS Preproc, TLC
CONSTANTS NR, NF, NA
Cell(b, v) == IF b THEN Missing ELSE v
Wishes(n) == {<<>>, <<1>>, <<2, 1>>, <<9>>, <<n, 9, n>>}
VARIABLES fx, fy, w, t, phase
vars == <<fx, fy, w, t, phase>>
Init == /\ fx \in [1..NR -> [1..NF -> {Missing, 1}]]
        /\ fy \in [1..NR -> [1..NA -> {Missing, 1}]]
        /\ w \in [has_feats : BOOLEAN, feats : Wishes(NF), has_algos : BOOLEAN, algos : {<<>>, <<1>>, <<9>>}]
        /\ (w.has_feats \/ w.feats = <<>>) /\ (w.has_algos \/ w.algos = <<>>)
        /\ t = [rows |-> [i \in 1..NR |-> i], feats |-> [i \in 1..NF |-> i], algos |-> [i \in 1..NA |-> i]]
        /\ phase = 0
Next == /\ phase < 3
        /\ phase' = phase + 1
        /\ t' = CASE phase = 0 -> Select(t, w) [] phase = 1 -> DropRows(t, fx, fy) [] phase = 2 -> DropCols(t, fx)
        /\ UNCHANGED <<fx, fy, w>>
Spec == Init /\ [][Next]_vars
Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
OrderKept == Increasing(t.rows) /\ Increasing(t.feats) /\ Increasing(t.algos)
\* Declarative reading of the whole preparation
F0 == IF w.has_feats /\ Elems(w.feats) \cap (1..NF) # {} THEN Elems(w.feats) \cap (1..NF) ELSE 1..NF
A0 == IF w.has_algos /\ Elems(w.algos) \cap (1..NA) # {} THEN Elems(w.algos) \cap (1..NA) ELSE 1..NA
R1 == {r \in 1..NR : (\E f \in F0 : fx[r][f] # Missing) /\ (\E a \in A0 : fy[r][a] # Missing)}
Exact == phase = 3 =>
    /\ Elems(t.rows) = R1 /\ Elems(t.algos) = A0
    /\ R1 # {} => Elems(t.feats) = {f \in F0 : 5 * Cardinality({r \in R1 : fx[r][f] = Missing}) < Cardinality(R1)}
NeverEmptyByWish == phase = 1 => t.feats # <<>> /\ t.algos # <<>>
=============================================================================

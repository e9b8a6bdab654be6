------------------------------- MODULE Subset -------------------------------
(* Restricting a run to some of its instances.                                *)
EXTENDS Filter
\* o: kind in {"none", "fraction", "file", "density"}
Ceil(n, a, b) == (n * a + b - 1) \div b
Floor(n, a, b) == (n * a) \div b
Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
RECURSIVE Sift(_, _, _)
Sift(n, S, k) == IF k > n THEN <<>> ELSE (IF k \in S THEN <<k>> ELSE <<>>) \o Sift(n, S, k + 1)
Listed(n, list) == Sift(n, {list[i] : i \in 1..Len(list)}, 1)
\* Is this selection of the rows 1..n what option o asks for?
ChosenOk(sel, n, o, t) ==
    CASE o.kind = "none"     -> sel = Listed(n, [i \in 1..n |-> i])
      [] o.kind = "fraction" -> Increasing(sel) /\ Len(sel) \in {Floor(n, o.a, o.b), Ceil(n, o.a, o.b)}
      [] o.kind = "file"     -> sel = Listed(n, o.list)
      [] o.kind = "density"  -> sel = Retained(t, n)
Restrict(field, sel) == [k \in 1..Len(sel) |-> field[sel[k]]]
=============================================================================

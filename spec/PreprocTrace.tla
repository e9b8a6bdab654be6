---------------------------- MODULE PreprocTrace ----------------------------
(* Record: nr, nf, na, x, y (cells as scaled integers), labels (ids), has_s,  *)
(* s (ids), w (wish: has_feats, feats, has_algos, algos as column numbers,    *)
(* numbers beyond the table for unknown names);                              *)
(* got: status, feats, algos (column numbers by name, 0 for an unknown name), *)
(* x, y, x_raw, y_raw, labels, has_s, s                                      *)
EXTENDS Preproc, TraceLib

Ident(n) == [i \in 1..n |-> i]
Table(r) == [rows |-> Ident(r.nr), feats |-> Ident(r.nf), algos |-> Ident(r.na)]
Verdict(r) ==
    LET sel == Select(Table(r), r.w)
        t   == DropCols(DropRows(sel, r.x, r.y), r.x)
        g   == r.got
        X   == Cells(t, t.feats, r.x)
        Y   == Cells(t, t.algos, r.y)
        lab == [i \in 1..Len(t.rows) |-> r.labels[t.rows[i]]]
    IN IF t.rows = <<>> THEN {}      \* nothing left to analyse: not specified
       ELSE IF g.status # "ok" THEN {"C12:refused", "C13:refused"}
       ELSE Clause("C12:algorithm-names", g.algos = sel.algos)
       \cup Clause("C12:feature-names", Elems(g.feats) \subseteq Elems(sel.feats) /\ g.feats = Keep(sel.feats, Elems(g.feats)))
       \cup Clause("C12:column-of-name",
               /\ \A i \in 1..Len(g.x) : Len(g.x[i]) = Len(g.feats)
               /\ \A i \in 1..Len(g.y) : Len(g.y[i]) = Len(g.algos)
               /\ (g.feats = t.feats /\ Len(g.x) = Len(t.rows)) => g.x = X
               /\ (g.algos = t.algos /\ Len(g.y) = Len(t.rows)) => g.y = Y)
       \cup Clause("C12:nothing-missing-kept",
               (\A i \in 1..r.nr : \A f \in 1..r.nf : r.x[i][f] # Missing) => g.feats = sel.feats)
       \cup Clause("C13:rows", g.labels = lab)
       \cup Clause("C13:columns", g.feats = t.feats)
       \cup Clause("C13:values", g.x = X /\ g.y = Y /\ g.x_raw = X /\ g.y_raw = Y)
       \cup Clause("C13:sources", g.has_s = r.has_s /\
                                  (r.has_s => g.s = [i \in 1..Len(t.rows) |-> r.s[t.rows[i]]]))

VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================

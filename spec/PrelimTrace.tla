----------------------------- MODULE PrelimTrace -----------------------------
(* Record: nr, nf, na, x (multiples of 1/8), y (multiples of 1/4), rule       *)
(* [max, abs, en, ed], bn, bd (easiness fraction), bound, norm (as decided by *)
(* the options), got:                                                         *)
(*  status, ybin, ybest, p, count, easy, med, iqr, hi, lo, x (1/8, norm off), *)
(*  y (norm off), xraw, yraw, xin, yin (the caller's tables afterwards), minx,*)
(*  and with norm: per column zx, zy (thousandths), rankx, ranky, lamx, lamy  *)
(*  (thousandths), backx, backy (z recomputed from the reported parameters)   *)
(* fine: the values differ by next to nothing; x, y and the threshold are then*)
(* given by their place in the order (times 4), which is all that the         *)
(* absolute rule, the best value and the order of the columns depend on       *)
EXTENDS Prelim, TraceLib

Column(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Constant(col) == Cardinality(Elems(Values(col))) <= 1
Close(a, b, tol) == AbsV(a - b) <= tol
BackOk(z, b) == \A i \in 1..Len(z) :
    IF z[i] = Missing THEN b[i] = Missing ELSE Close(z[i], b[i], 2 + AbsV(z[i]) \div 500)
Known1(z, col) == \A i \in 1..Len(col) : (col[i] = Missing) <=> (z[i] = Missing)

ColumnClauses(col, z, rank, lam, back, lo) ==
    IF Constant(col) THEN {}
    ELSE Clause("C22:missing", Known1(z, col))
    \cup Clause("C22:order", Order(col, rank))
    \cup Clause("C22:ties-made", (lam >= lo /\ lam <= 4000) => StrictOrder(col, rank))
    \cup Clause("C22:mean", Centred(z))
    \cup Clause("C22:deviation", UnitSpread(z))
    \cup Clause("C22:parameters", BackOk(z, back))

Verdict(r) ==
    LET g == r.got
        rows == {i \in 1..r.nr : Known(r.y[i]) # {}}
        bx(j) == IF r.bound THEN Bounded(Column(r.x, j)) ELSE Column(r.x, j)
        vals == [j \in 1..r.nf |-> Values(Column(r.x, j))]
    IN IF \E j \in 1..r.nf : vals[j] = <<>> THEN {}
       ELSE IF \E j \in 1..r.na : Values(Column(r.y, j)) = <<>> THEN {}
       \* a constant column has no standard form: not specified
       ELSE IF r.norm /\ ((\E j \in 1..r.nf : Constant(bx(j))) \/ (\E j \in 1..r.na : Constant(Column(r.y, j)))) THEN {}
       ELSE IF g.status # "ok" THEN {"C20:refused", "C21:refused", "C22:refused"}
       ELSE Clause("C20:best-value", \A i \in rows : g.ybest[i] = Best(r.y[i], r.rule.max))
       \cup Clause("C20:best-algorithm", \A i \in rows : g.p[i] = FirstBest(r.y[i], r.rule.max))
       \cup Clause("C20:good", \A i \in rows : \A a \in 1..r.na :
                    (r.fine /\ ~r.rule.abs) \/ g.ybin[i][a] \in GoodSet(r.y[i], a, r.rule, 4))
       \cup Clause("C20:count", \A i \in rows : g.count[i] = Cardinality({a \in 1..r.na : g.ybin[i][a]}))
       \cup Clause("C20:easy", \A i \in rows : g.easy[i] = Easy(g.count[i], r.na, r.bn, r.bd))
       \cup Clause("C21:median", r.fine \/ \A j \in 1..r.nf : g.med[j] = Median(vals[j]))
       \cup Clause("C21:range", r.fine \/ \A j \in 1..r.nf : g.iqr[j] = Iqr(vals[j]))
       \cup Clause("C21:bounds", r.fine \/ \A j \in 1..r.nf : g.hi[j] = Hi(vals[j]) /\ g.lo[j] = Lo(vals[j]))
       \cup (IF r.norm THEN {}
             ELSE LET ok == \A j \in 1..r.nf : Column(g.x, j) = bx(j)
                  IN Clause("C21:values", ok) \cup Clause("C22:rescaled", ok)
                     \cup Clause("C22:performance-rescaled", r.rule.abs => g.y = r.y))
       \cup Clause("C22:raw-tables", g.xraw = r.x /\ g.yraw = r.y)
       \cup Clause("C22:callers-tables", g.xin = r.x /\ g.yin = r.y)
       \cup (IF ~r.norm THEN {}
             ELSE UNION {ColumnClauses(bx(j), g.zx[j], g.rankx[j], g.lamx[j], g.backx[j], -3000) : j \in 1..r.nf}
                  \cup UNION {ColumnClauses(Column(r.y, j), g.zy[j], g.ranky[j], g.lamy[j], g.backy[j], 50) : j \in 1..r.na}
                  \cup Clause("C22:minimum", \A j \in 1..r.nf : g.minx[j] = SetMin(Elems(Values(bx(j))))))

VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================

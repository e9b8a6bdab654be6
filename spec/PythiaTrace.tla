---------------------------- MODULE PythiaTrace -----------------------------
(* Record: y (rows of integers or NONE), yb, ybest, weights (cost-sensitive), *)
(* folds, given (keys of given hyper-parameters, <<>> if none), labels        *)
(* (number of algorithms), oneclass; got: status, yhat, ysub, cvc, acc, prec, *)
(* rec (millionths), sel0 (0 is none), sel1 (1-based), params (keys of the    *)
(* hyper-parameters of each model), box (keys reported), hatagain, subagain   *)
(* (predictions of the reported models, and of models trained without the     *)
(* fold), probs, probsagain (keys), tested (how often each instance is        *)
(* tested), folds, w (thousandths), untouched, rows (ids of the row labels),  *)
(* kernel (as asked), searched (hyper-parameters within the search range),    *)
(* trained (training again with the reported weights gives the same models),  *)
(* table: ap, sp, pg, aps, sps (thousandths), tacc, tprec, trec (thousandths  *)
(* of a per cent), tbox, tscale, box3, scale3 (thousandths)                   *)
EXTENDS Pythia, TraceLib

N(r) == Len(r.yb)
A(r) == Len(r.yb[1])
Hat(r) == [a \in 1..A(r) |-> TLCEval(Confusion(Col(r.yb, a), Col(r.got.yhat, a)))]
Sub(r) == [a \in 1..A(r) |-> TLCEval(Confusion(Col(r.yb, a), Col(r.got.ysub, a)))]
Same(got, f(_), c) == \A a \in 1..Len(c) : Rounded(f(c[a]), 1000000, got[a])
QualityOf(r, c) == Same(r.got.acc, Accuracy, c) /\ Same(r.got.prec, Precision, c) /\ Same(r.got.rec, Recall, c)

\* precisions as reported decide; they are exact fractions of either prediction
ReportedPrec(r) == LET h == Hat(r) s == Sub(r)
    IN IF Same(r.got.prec, Precision, h) THEN [a \in 1..A(r) |-> Precision(h[a])]
       ELSE [a \in 1..A(r) |-> Precision(s[a])]
Sel0(r, i, a) == r.got.sel0[i] = a
Sel1(r, i, a) == r.got.sel1[i] = a
Cells(n, na, P(_, _)) == Cardinality({ia \in (1..n) \X (1..na) : P(ia[1], ia[2])})
Selecting(r) ==
    LET g == r.got n == N(r) na == A(r) t == g.table
        prec == TLCEval(ReportedPrec(r))
        hits == Cells(n, na, LAMBDA i, a : Sel0(r, i, a) /\ r.yb[i][a])
        made == Cells(n, na, LAMBDA i, a : Sel0(r, i, a))
        good == Cells(n, na, LAMBDA i, a : r.yb[i][a])
        lucky == Cardinality({i \in 1..n : r.yb[i][g.sel1[i]]})
        all == TLCEval(Values(r.y, LAMBDA i, a : Sel1(r, i, a)))
        some == TLCEval(Values(r.y, LAMBDA i, a : Sel0(r, i, a)))
        S == na + 2
    IN IF Len(g.sel1) # n \/ ~(Rng(g.sel1) \subseteq 1..na) THEN {"C50:fallback"}
    ELSE Clause("C50:recommendation", SelectionOk(r.yb, g.yhat, prec, g.sel0, g.sel1))
      \cup Clause("C50:portfolio-precision", Rounded(Frac(hits, made), 100000, t.tprec[S]))
      \cup Clause("C50:portfolio-recall", Rounded(Frac(hits, good), 100000, t.trec[S]))
      \cup Clause("C50:portfolio-good", Rounded(<<lucky, n>>, 1000, t.pg[S]))
      \cup Clause("C50:selector-average", MeanOk(all, t.ap[S]) /\ DevOk(all, t.sp[S]))
      \cup Clause("C50:selector-average-selected", MeanOk(some, t.aps[S]) /\ DevOk(some, t.sps[S]))
Quality(r) ==
    LET g == r.got n == N(r) na == A(r) t == g.table
        hat == TLCEval(Hat(r)) sub == TLCEval(Sub(r))
        ap(a) == Known(Col(r.y, a))
        sel(a) == Known([i \in 1..n |-> IF g.yhat[i][a] THEN r.y[i][a] ELSE NONE])
        close(x, y) == Abs(x - y) <= 1
    IN Clause("C51:confusion", g.cvc = sub)
       \cup Clause("C51:quality", QualityOf(r, hat) \/ QualityOf(r, sub))
       \cup Clause("C51:cross-validated-quality", QualityOf(r, sub))
       \cup Clause("C51:models-predict", g.yhat = g.hatagain)
       \cup Clause("C51:cross-validation", g.ysub = g.subagain /\ Rng(g.tested) = {1} /\ g.folds = r.folds)
       \cup Clause("C51:probabilities", g.probs = g.probsagain)
       \cup Clause("C51:hyper-parameters", g.params = g.box /\ (r.given # <<>> => g.params = r.given))
       \cup Clause("C51:kernel", g.kernel)
       \cup Clause("C51:search-range", r.given = <<>> => g.searched)
       \cup Clause("C51:trained-as-reported", g.trained)
       \cup Clause("C51:weights", r.weights \/ (\A i \in 1..n : \A a \in 1..na : g.w[i][a] = 1000))
       \cup Clause("C51:arguments-untouched", g.untouched)
       \cup Clause("C51:summary-rows", g.rows = [k \in 1..(na + 2) |-> k])
       \cup (IF Len(g.rows) # na + 2 THEN {} ELSE
            Clause("C51:summary-performance", \A a \in 1..na : MeanOk(ap(a), t.ap[a]) /\ DevOk(ap(a), t.sp[a]))
            \cup Clause("C51:summary-selected", \A a \in 1..na : MeanOk(sel(a), t.aps[a]) /\ DevOk(sel(a), t.sps[a]))
            \cup Clause("C51:summary-good", \A a \in 1..na : Rounded(<<GoodCount(r.yb, a), n>>, 1000, t.pg[a]))
            \cup Clause("C51:summary-oracle", MeanOk(r.ybest, t.ap[na + 1]) /\ DevOk(r.ybest, t.sp[na + 1]) /\ t.pg[na + 1] = 1000)
            \cup Clause("C51:summary-quality", \A a \in 1..na :
                    /\ close(t.tacc[a] * 10, g.acc[a]) \/ Abs(t.tacc[a] * 10 - g.acc[a]) <= 10
                    /\ Abs(t.tprec[a] * 10 - g.prec[a]) <= 10 /\ Abs(t.trec[a] * 10 - g.rec[a]) <= 10)
            \cup Clause("C51:summary-parameters", \A a \in 1..na : close(t.tbox[a], g.box3[a]) /\ close(t.tscale[a], g.scale3[a])))
       \cup (IF ~r.weights THEN {} ELSE
            LET k == TLCEval(Values(r.y, LAMBDA i, a : TRUE)) s == Sum(k) m == Len(k)
                d(i, a) == IF r.y[i][a] = NONE THEN NONE ELSE Abs(1000 * (r.y[i][a] * m - s)) \div m
                D == {d(i, a) : i \in 1..n, a \in 1..na}
                top == CHOOSE v \in D : \A u \in D : u <= v
                P == {v \in D : v > 0}
                low == IF P = {} THEN 0 ELSE CHOOSE v \in P : \A u \in P : v <= u
            IN IF P = {} THEN {}
               ELSE Clause("C51:weights", \A i \in 1..n : \A a \in 1..na :
                    Abs(g.w[i][a] - (IF d(i, a) = NONE THEN top ELSE IF d(i, a) = 0 THEN low ELSE d(i, a))) <= 2))
Verdict(r) == IF r.got.status = "shape" THEN {"C50:shapes", "C51:shapes"}
              ELSE IF r.got.status # "ok" THEN {"C50:refused", "C51:refused"}
              ELSE Selecting(r) \cup Quality(r)
VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================

----------------------------- MODULE PipelineMC -----------------------------
(* All runs over small tables with missing values and every choice of column  *)
(* selection, subset and feature selection; Forget names a field that a stage *)
(* forgets to restrict ("" for the real design).                              *)
EXTENDS Pipeline
CONSTANTS N, NF, NA, Forget
VARIABLES fx, wish, v, dense, done, firstrows
vars == <<fx, wish, v, dense, done, firstrows>>
T0 == [rows |-> [i \in 1..N |-> i], feats |-> [i \in 1..NF |-> i], algos |-> [i \in 1..NA |-> i]]
FY == [i \in 1..N |-> [a \in 1..NA |-> IF i = N /\ N > 2 THEN Missing ELSE 10 * i + a]]
Wishes == {[has_feats |-> hf, feats |-> fs, has_algos |-> ha, algos |-> as] :
             hf \in BOOLEAN, fs \in {<<>>, <<2>>, <<2, 1>>}, ha \in BOOLEAN, as \in {<<1>>}}
Init == /\ fx \in [1..N -> [1..NF -> {1, Missing}]]
        /\ wish \in Wishes /\ v = [f \in {} |-> 0] /\ dense = [f \in {} |-> 0] /\ done = {} /\ firstrows = <<>>
Ready(s) == s \notin done /\ Before(s) \subseteq done
Mark(s) == done' = done \cup {s} /\ UNCHANGED <<fx, wish>>
Same == UNCHANGED <<dense, firstrows>>
DoPre == Ready("Preprocessing") /\ Mark("Preprocessing") /\ UNCHANGED dense
         /\ LET t == Prepared(T0, wish, fx, FY)
            IN /\ t.rows # <<>> /\ t.feats # <<>>
               /\ v' = Prepare(t) /\ firstrows' = t.rows
DoPrelim == Ready("Prelim") /\ Mark("Prelim") /\ UNCHANGED firstrows
            /\ \E S \in (SUBSET Elems(RowsOf(v))) \ {{}} :
                 /\ \E d \in BOOLEAN : dense' = IF d THEN Ruled(v) ELSE [f \in {} |-> 0]
                 /\ v' = LET w == Prelim(v, S) IN IF Forget \in DOMAIN w THEN [w EXCEPT ![Forget] = Ruled(v)[Forget]] ELSE w
DoSift == Ready("Sifted") /\ Mark("Sifted") /\ Same
          /\ \E J \in (SUBSET Elems(v["feat_labels"].cols)) \ {{}} :
                \/ v' = Sift(v, dense, FALSE, {}, J)
                \/ DOMAIN dense # {} /\ \E S2 \in (SUBSET Elems(RowsOf(dense))) \ {{}} : v' = Sift(v, dense, TRUE, S2, J)
DoPilot == Ready("Pilot") /\ Mark("Pilot") /\ Same /\ v' = ProjectedTo(v)
DoPythia == Ready("Pythia") /\ Mark("Pythia") /\ Same /\ v' = Predicted(v)
DoCloister == Ready("Cloister") /\ Mark("Cloister") /\ Same /\ v' = Bordered(v)
DoTrace == Ready("Trace") /\ Mark("Trace") /\ Same /\ v' = Traced(v)
Next == DoPre \/ DoPrelim \/ DoSift \/ DoPilot \/ DoPythia \/ DoCloister \/ DoTrace
Spec == Init /\ [][Next]_vars
\* after every stage from the second on
AlwaysAligned == "Prelim" \in done => Aligned(v)
Ordered == done # {} => /\ IsSubSeq(RowsOf(v), firstrows) /\ IsSubSeq(firstrows, T0.rows)
                        /\ IsSubSeq(v["feat_labels"].cols, v["x_raw"].cols) /\ IsSubSeq(v["x_raw"].cols, T0.feats)
Inputs == \A s \in done : Reads(s) \ {"dense"} \subseteq DOMAIN v
Complete == Cardinality(done) = 7 => PerRow \subseteq DOMAIN v
=============================================================================

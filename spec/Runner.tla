------------------------------- MODULE Runner -------------------------------
(* Running a resolved pipeline (StageRunner).                               *)
(*                                                                          *)
(* order is the sequence of steps (sets of stages).  Values are ids of the  *)
(* executions (or initial assignments) that made them; 0 means no value.    *)
(* The state st of a runner is a record                                     *)
(*   pos   the step that is to be run next (Len(order) + 1 at the end)      *)
(*   ran   stages whose results are in force                                *)
(*   snap  snap[i], i <= pos: values at the start of step i                 *)
(*   cur   values now                                                       *)
EXTENDS Builder

Index(order, s) == CHOOSE i \in 1..Len(order) : s \in order[i]
Overlay(base, over) == [a \in DOMAIN base |-> IF over[a] # 0 THEN over[a] ELSE base[a]]

Fresh(init) == [pos |-> 1, ran |-> {}, snap |-> <<init>>, cur |-> init]

\* C05: a stage may run when every earlier step is complete
MayRun(order, st, s) == Index(order, s) <= st.pos

\* C04, C05: what the stage is given
Given(order, st, s, over) == Overlay(st.snap[Index(order, s)], over)
HasInputs(p, given, s) == \A a \in p.inp[s] : given[a] # 0

\* Going back to step i: its own results are kept, later ones are dropped
Back(order, st, i) ==
    IF i = st.pos THEN st
    ELSE [pos  |-> i,
          ran  |-> {t \in st.ran : Index(order, t) <= i},
          snap |-> SubSeq(st.snap, 1, i),
          cur  |-> st.snap[i + 1]]

\* A successful execution of stage s with outputs outs
Done(order, st, s, outs) ==
    LET b    == Back(order, st, Index(order, s))
        cur  == Overlay(b.cur, outs)
        ran  == b.ran \cup {s}
        full == order[b.pos] \subseteq ran
    IN  [pos  |-> IF full THEN b.pos + 1 ELSE b.pos,
         ran  |-> ran,
         snap |-> IF full THEN Append(b.snap, cur) ELSE b.snap,
         cur  |-> cur]

\* C04: the stages that an iteration which has run the stages seen may run next
IterDue(order, seen) ==
    LET i == CHOOSE j \in 1..Len(order) : ~(order[j] \subseteq seen) /\ \A l \in 1..(j - 1) : order[l] \subseteq seen
    IN order[i] \ seen
=============================================================================

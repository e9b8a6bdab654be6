------------------------------ MODULE Cloister ------------------------------
(* The boundary of the space: corners of the feature box, the corners that   *)
(* strongly correlated features rule out, and convex outlines. Everything is *)
(* exact on integers.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
S == INSTANCE Sifted

Elems(s) == {s[i] : i \in 1..Len(s)}
Lowest(u) == CHOOSE v \in Elems(u) : \A w \in Elems(u) : v <= w
Highest(u) == CHOOSE v \in Elems(u) : \A w \in Elems(u) : w <= v
NF(x) == Len(x[1])
Bits(x) == [1..NF(x) -> {FALSE, TRUE}]       \* TRUE: the maximum of that feature
Corner(x, b) == [j \in 1..NF(x) |-> IF b[j] THEN Highest(S!Col(x, j)) ELSE Lowest(S!Col(x, j))]
Point(row, A) == [k \in 1..2 |-> S!Sum([j \in 1..Len(row) |-> row[j] * A[k][j]])]

\* How features j and k go together: "pos", "neg", "none", or undecided: "pos?", "neg?"
Relation(x, j, k, rn, rd, all) ==
    LET u == S!Col(x, j) v == S!Col(x, k)
        sig == IF all /\ S!Var(u) # 0 /\ S!Var(v) # 0 THEN "yes" ELSE S!Significance(u, v)
        way == IF S!Cov(u, v) > 0 THEN "pos" ELSE "neg"
        size == S!Against(u, v, rn, rd)
    IN IF sig = "no" \/ size = "below" \/ S!Cov(u, v) = 0 THEN "none"
       ELSE IF sig = "near" \/ size = "equal" THEN way \o "?" ELSE way
PairsOf(x) == {jk \in (1..NF(x)) \X (1..NF(x)) : jk[1] < jk[2]}
Relations(x, rn, rd, all) == [jk \in PairsOf(x) |-> Relation(x, jk[1], jk[2], rn, rd, all)]
\* All ways of settling the undecided pairs
Settled(rel) ==
    LET open == {p \in DOMAIN rel : rel[p] \in {"pos?", "neg?"}}
    IN {[p \in DOMAIN rel |-> IF p \in drop THEN "none" ELSE CASE rel[p] = "pos?" -> "pos" [] rel[p] = "neg?" -> "neg" [] OTHER -> rel[p]]
        : drop \in SUBSET open}
RuledOut(b, rel) == \E p \in DOMAIN rel :
    \/ rel[p] = "pos" /\ b[p[1]] # b[p[2]]
    \/ rel[p] = "neg" /\ b[p[1]] = b[p[2]]
AllCorners(x, A) == {Point(Corner(x, b), A) : b \in Bits(x)}
KeptCorners(x, A, rel) == {Point(Corner(x, b), A) : b \in {c \in Bits(x) : ~RuledOut(c, rel)}}

---- (* outlines *)
Turn(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Flat(P) == \A p, q, r \in P : Turn(p, q, r) = 0
Nxt(s, i) == s[(i % Len(s)) + 1]
\* every point of P on the left of (or on) every edge, or every point on the right
Encloses(s, P) ==
    \/ \A i \in 1..Len(s) : \A p \in P : Turn(s[i], Nxt(s, i), p) >= 0
    \/ \A i \in 1..Len(s) : \A p \in P : Turn(s[i], Nxt(s, i), p) <= 0
Outline(s, P) == /\ Len(s) >= 3
                 /\ Cardinality(Elems(s)) = Len(s)
                 /\ Elems(s) \subseteq P
                 /\ ~Flat(Elems(s))
                 /\ Encloses(s, P)
=============================================================================

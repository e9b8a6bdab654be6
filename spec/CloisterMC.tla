----------------------------- MODULE CloisterMC -----------------------------
(* Small tables and projections; an outline is built point by point.         *)
EXTENDS Cloister, TLC
CONSTANTS NR, V, ALen
VARIABLES x, A, path
vars == <<x, A, path>>
Proj == {<<<<1, 0>>, <<0, 1>>>>, <<<<1, 1>>, <<1, -1>>>>, <<<<2, 1>>, <<0, -1>>>>, <<<<1, 1>>, <<1, 1>>>>}
Init == x \in [1..NR -> [1..2 -> 0..V]] /\ A \in Proj /\ path = <<>>
P == AllCorners(x, A)
Next == /\ Len(path) < ALen
        /\ ~Flat(P)
        /\ \E p \in P : path' = Append(path, p)
        /\ UNCHANGED <<x, A>>
Spec == Init /\ [][Next]_vars
\* Two outlines of the same points enclose the same points, whatever their start and direction
SameCover == Outline(path, P) =>
    \A s \in {[i \in 1..Len(path) |-> path[Len(path) + 1 - i]], Tail(path) \o <<Head(path)>>} : Outline(s, P)
Instances == Outline(path, P) => Encloses(path, {Point(x[i], A) : i \in 1..NR})
Unique == Outline(path, P) /\ Cardinality(P) = 4 => Len(path) = 4
Rel(all, rn, rd) == Relations(x, rn, rd, all)
Inside == path = <<>> => \A f \in Settled(Rel(TRUE, 1, 2)) : KeptCorners(x, A, f) \subseteq P
\* a stricter demand on the correlation rules out no more
Monotone == path = <<>> => \A f \in Settled(Rel(TRUE, 9, 10)) : \A g \in Settled(Rel(TRUE, 1, 2)) :
    (\A p \in DOMAIN f : f[p] # "none" => g[p] = f[p]) => KeptCorners(x, A, g) \subseteq KeptCorners(x, A, f)
Insignificant == path = <<>> /\ NR = 3 => \A f \in Settled(Rel(FALSE, 1, 2)) :
    (\A p \in DOMAIN f : f[p] = "none") => KeptCorners(x, A, f) = P
\* one strong pair leaves two opposite corners: no outline is left
Opposite == path = <<>> => \A f \in Settled(Rel(TRUE, 1, 2)) : f[<<1, 2>>] # "none" => Flat(KeptCorners(x, A, f))
TightWithin == Outline(path, P) => \A f \in Settled(Rel(TRUE, 1, 2)) : Encloses(path, KeptCorners(x, A, f))
=============================================================================

------------------------------ MODULE ExportMC ------------------------------
(* A model saved again and again, in any order of formats, into a directory   *)
(* that others write to as well; archives made in between.                    *)
EXTENDS Export
CONSTANTS MaxOps
Formats == {"csv", "web", "mat"}
\* what each format writes: one file of its own and one written by csv alone
Writes(f) == IF f = "csv" THEN {"a.csv", "b.csv"} ELSE IF f = "web" THEN {"c.csv"} ELSE {"model.mat"}
Content(model, f, name) == <<model, f, name>>
Strays == {"x.txt", ".gitignore", "out.zip"}
VARIABLES model, dir, zips, ops
vars == <<model, dir, zips, ops>>
Init == /\ model = 0 /\ ops = 0 /\ zips = {}
        /\ \E S \in SUBSET Strays : dir = [f \in S |-> <<"stray", f>>]
Save(f) == /\ dir' = Overlay(dir, [n \in Writes(f) |-> Content(model, f, n)])
           /\ UNCHANGED <<model, zips>>
\* the archive is a snapshot of all other files
Zip(name) == LET members == {f \in DOMAIN dir : f # name /\ f # ".gitignore"}
             IN /\ zips' = {z \in zips : z.name # name} \cup {[name |-> name, has |-> {<<f, dir[f]>> : f \in members}]}
                /\ dir' = Overlay(dir, [n \in {name} |-> <<"zip", ops>>])
                /\ UNCHANGED model
Stray == /\ dir' = Overlay(dir, [n \in {"a.csv"} |-> <<"stray", ops>>])
         /\ UNCHANGED <<model, zips>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ ((\E f \in Formats : Save(f)) \/ Zip("out.zip") \/ Zip("z2.zip") \/ Stray)
Spec == Init /\ [][Next]_vars
ModelUnchanged == [][model' = model]_vars
\* nothing but a format's own files changes in a save, and they always become the same
Contained == [][\A n \in DOMAIN dir : dir'[n] # dir[n] =>
    \/ \E f \in Formats : n \in Writes(f) /\ dir'[n] = Content(0, f, n)
    \/ n \in {"out.zip", "z2.zip"} \/ dir'[n][1] = "stray"]_vars
OwnFiles == \A f \in Formats : \A n \in Writes(f) : n \in DOMAIN dir => dir[n] = Content(model, f, n) \/ dir[n][1] = "stray"
NeverItself == \A z \in zips : \A e \in z.has : e[1] # z.name /\ e[1] # ".gitignore"
Once == \A z \in zips : \A e1, e2 \in z.has : e1[1] = e2[1] => e1 = e2
LastZip == \A z \in zips : z.name \in DOMAIN dir
\* scalings: floor and nearest integer are both order-preserving
ASSUME \A a, b, d \in -3..3 : LET v == <<<<a>>, <<b>>, <<d>>>>
           lo == CHOOSE x \in {a, b, d} : x <= a /\ x <= b /\ x <= d
           hi == CHOOSE x \in {a, b, d} : x >= a /\ x >= b /\ x >= d
           f(x) == IF hi = lo THEN 0 ELSE (255 * (x - lo)) \div (hi - lo)
           g(x) == IF hi = lo THEN 0 ELSE (510 * (x - lo) + (hi - lo)) \div (2 * (hi - lo))
       IN OverAll(v, <<<<f(a)>>, <<f(b)>>, <<f(d)>>>>) /\ OverAll(v, <<<<g(a)>>, <<g(b)>>, <<g(d)>>>>)
ASSUME Outlines(<<1, 2, 3, 1, 4, 5, 6>>, <<<<1, 2, 3, 1>>, <<4, 5, 6, 4>>>>)
ASSUME ~Outlines(<<1, 2, 3, 4, 6, 5>>, <<<<1, 2, 3, 1>>, <<4, 5, 6, 4>>>>)
=============================================================================

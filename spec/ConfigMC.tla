------------------------------ MODULE ConfigMC ------------------------------
(* Every way of writing a group down: the result is what a user expects.     *)
EXTENDS Config, TLC
CONSTANTS MaxEntries
Keys(g) == Names(g) \cup {Aliases[g][i][1] : i \in 1..Len(Aliases[g])} \cup {Comment, "nonsense"}
VARIABLES g, es, s
Init == g \in Groups /\ es = <<>> /\ s = StartGroup(g)
Next == /\ Len(es) < MaxEntries
        /\ \E low \in Keys(g) :
             /\ \A i \in 1..Len(es) : es[i].low # low   \* keys of a table differ
             /\ es' = Append(es, [low |-> low, val |-> "v" \o ToString(Len(es) + 1)])
        /\ s' = Entry(g, s, es'[Len(es')])
        /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, es, s>>
Ts == {Target(g, es[i].low) : i \in 1..Len(es)}
Verdict == (s.status = "ok") <=>
    /\ "?" \notin Ts
    /\ \A i, j \in 1..Len(es) : (i # j /\ Target(g, es[i].low) = Target(g, es[j].low)) => FALSE
Kept == s.status = "ok" =>
    /\ \A i \in 1..Len(es) : Target(g, es[i].low) # Comment => s.vals[Target(g, es[i].low)] = es[i].val
    /\ \A f \in Names(g) : f \notin Ts => s.vals[f] = Default(g, f)
\* Reversing the entries changes nothing
Rev == [i \in 1..Len(es) |-> es[Len(es) + 1 - i]]
OrderFree == LET r == LoadGroup(g, Rev) IN r.status = s.status /\ (s.status = "ok" => r.vals = s.vals)
AliasesSound == \A i \in 1..Len(Aliases[g]) : Aliases[g][i][2] \in Names(g) /\ Aliases[g][i][1] \notin Names(g)
=============================================================================

------------------------------ MODULE MCFilter ------------------------------
(* One pass over the components, remembering the first direction of each       *)
(* printed period, against the definition; every list is exported.             *)
EXTENDS Filter, TLC, TLCExt, Json
CONSTANTS Periods, Dirs, Most
VARIABLES C, at, first, kept, out
vars == <<C, at, first, kept, out>>
D == {<<>>} \union {<<d>> : d \in Dirs}
Init == C = <<>> /\ at = 0 /\ first = [p \in Periods |-> <<>>] /\ kept = <<>> /\ out = FALSE
Grow == at = 0 /\ ~out /\ Len(C) < Most /\ \E p \in Periods, d \in D : C' = Append(C, [period |-> p, dir |-> d]) /\ UNCHANGED <<at, first, kept, out>>
Start == at = 0 /\ ~out /\ out' = TRUE /\ at' = 1 /\ PrintT("SCEN " \o ToJson([list |-> C])) /\ UNCHANGED <<C, first, kept>>
\* first[p] is <<>> until a component with that period came, then <<its direction, if any>>
Pass == /\ at > 0 /\ at <= Len(C) /\ at' = at + 1
        /\ LET c == C[at] IN
           IF first[c.period] = <<>>
           THEN first' = [first EXCEPT ![c.period] = <<c.dir>>] /\ kept' = Append(kept, at)
           ELSE /\ UNCHANGED first
                /\ kept' = IF Opposite(first[c.period][1], c.dir) THEN kept ELSE Append(kept, at)
        /\ UNCHANGED <<C, out>>
Next == Grow \/ Start \/ Pass
Spec == Init /\ [][Next]_vars
Same == at = Len(C) + 1 /\ out => kept = Kept(C)
\* The first of every period stays
Lead == at = Len(C) + 1 /\ out => \A j \in 1..Len(C) : \E i \in 1..Len(kept) : C[kept[i]].period = C[j].period
Mirror == \A d, e \in D : Opposite(d, e) <=> Opposite(e, d)
=============================================================================

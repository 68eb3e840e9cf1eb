------------------------------- MODULE MCPeaks -------------------------------
(* Design model: every data up to MaxLen entries over 0..MaxV, fed one entry  *)
(* at a time; what has been reported so far always satisfies the contract.    *)
EXTENDS Peaks
CONSTANTS MaxLen, MaxV, MaxDelta
VARIABLES data, st, delta
Init == data = <<>> /\ st = Start /\ delta \in 0..MaxDelta
Next == /\ Len(data) < MaxLen /\ UNCHANGED delta
        /\ \E v \in 0..MaxV : data' = Append(data, v) /\ st' = Scan(st, Len(data), v, delta)
Spec == Init /\ [][Next]_<<data, st, delta>>
Holds == Contract(data, delta, st)
\* No swing is missed: after the last report the data never moves back by more than delta
Complete == LET t == Turns(st)
                from == IF t = <<>> THEN 1 ELSE t[Len(t)] + 1 IN
            \A i \in from..Len(data), j \in from..Len(data) :
               i < j => (IF st.up THEN data[j] >= data[i] - delta ELSE data[j] <= data[i] + delta)
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
NeverRetracts == [][IsPrefixOf(st.maxs, st'.maxs) /\ IsPrefixOf(st.mins, st'.mins)]_<<data, st, delta>>
=============================================================================

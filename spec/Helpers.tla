------------------------------- MODULE Helpers -------------------------------
(* Sorting by index, differences, extremes and binning: what each may return. *)
EXTENDS Integers, Sequences, FiniteSets

IsPermutation(p, n) == Len(p) = n /\ {p[i] : i \in 1..Len(p)} = 0..(n - 1)
StableSort(data, p) == /\ IsPermutation(p, Len(data))
                       /\ \A i \in 1..(Len(p) - 1) :
                            \/ data[p[i] + 1] < data[p[i + 1] + 1]
                            \/ data[p[i] + 1] = data[p[i + 1] + 1] /\ p[i] < p[i + 1]

\* One entry per element; the first repeats the second (there is none before it)
Diff(data) == [i \in 1..Len(data) |-> IF Len(data) = 1 THEN 0
                                      ELSE IF i = 1 THEN data[2] - data[1] ELSE data[i] - data[i - 1]]

Values(data, nan) == {data[i] : i \in {j \in 1..Len(data) : data[j] # nan}}
MinOf(S, none) == IF S = {} THEN none ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S, none) == IF S = {} THEN none ELSE CHOOSE x \in S : \A y \in S : x >= y
=============================================================================

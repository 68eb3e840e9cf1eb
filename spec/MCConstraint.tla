---------------------------- MODULE MCConstraint ----------------------------
(* Design model: a constraint is written, perhaps damaged, and read token by   *)
(* token; exported for the driver to spell out.                                *)
EXTENDS Address, Json
CONSTANTS Most, Damages
VARIABLES toks, done, at, state
vars == <<toks, done, at, state>>
Kinds == {"[", ":", "]", "n", "x", "b"}
RECURSIVE Text(_)
Text(n) == IF n = 0 THEN <<"v">> ELSE Text(n - 1) \o <<"[", "n", ":", "n", ":", "n", "]">>
Init == \E n \in 0..Most : toks = Text(n) /\ done = 0 /\ at = 0 /\ state = "writing"
\* Two numbers side by side would be one; the name is whatever stands before the first bracket
Sane(ts) == /\ (Len(ts) > 1 => ts[2] = "[")
            /\ \A j \in 1..(Len(ts) - 1) : ~(ts[j] \in {"n", "b"} /\ ts[j + 1] \in {"n", "b"})
Del(ts, j) == SubSeq(ts, 1, j - 1) \o SubSeq(ts, j + 1, Len(ts))
Ins(ts, j, k) == SubSeq(ts, 1, j - 1) \o <<k>> \o SubSeq(ts, j, Len(ts))
Rep(ts, j, k) == IF j <= Len(ts) THEN [ts EXCEPT ![j] = k] ELSE ts
Damage == /\ state = "writing" /\ done < Damages /\ Len(toks) > 1
          /\ \E j \in 2..(Len(toks) + 1) : \E k \in Kinds :
               \E ts \in {Rep(toks, j, k), Ins(toks, j, k)} \union (IF j <= Len(toks) THEN {Del(toks, j)} ELSE {}) : Sane(ts) /\ toks' = ts
          /\ done' = done + 1 /\ UNCHANGED <<at, state>>
Open == /\ state = "writing" /\ state' = "name" /\ at' = 2 /\ PrintT("SCEN " \o ToJson([toks |-> toks])) /\ UNCHANGED <<toks, done>>
After == [name |-> [x \in {"["} |-> "start"], start |-> [x \in {"n"} |-> "c1"], c1 |-> [x \in {":"} |-> "step"], step |-> [x \in {"n"} |-> "c2"],
          c2 |-> [x \in {":"} |-> "end"], end |-> [x \in {"n"} |-> "close"], close |-> [x \in {"]"} |-> "name"], refused |-> <<>>]
Reading == state \notin {"writing", "refused"} /\ at <= Len(toks)
Read == Reading /\ toks[at] \in DOMAIN After[state] /\ state' = After[state][toks[at]] /\ at' = at + 1 /\ UNCHANGED <<toks, done>>
Refuse == Reading /\ toks[at] \notin DOMAIN After[state] /\ state' = "refused" /\ UNCHANGED <<toks, done, at>>
Next == Damage \/ Open \/ Read \/ Refuse
Spec == Init /\ [][Next]_vars
Whole_ == state = "name" /\ at = Len(toks) + 1
\* The reader takes exactly the well-formed texts
Accepts == state # "writing" /\ (state = "refused" \/ at > Len(toks)) => (Whole_ <=> WellFormed(toks))
Intact == done = 0 => state # "refused"
=============================================================================

------------------------------- MODULE MCTable -------------------------------
(* Design model: a reader taking a table line by line, in any mixture of good, *)
(* damaged and other lines. Kinds are exported for the driver to spell out.    *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json
CONSTANTS Kinds, Most
VARIABLES lines, at, out, made
vars == <<lines, at, out, made>>
Init == lines = <<>> /\ at = 0 /\ out = <<>> /\ made = FALSE
Write == ~made /\ Len(lines) < Most /\ \E k \in Kinds : lines' = Append(lines, k) /\ UNCHANGED <<at, out, made>>
Open == ~made /\ made' = TRUE /\ at' = 1 /\ PrintT("SCEN " \o ToJson([lines |-> lines])) /\ UNCHANGED <<lines, out>>
More == made /\ at <= Len(lines)
\* Comments and empty lines are no rows; a row is parsed on its own
Skip == More /\ lines[at] \in {"comment", "blank"} /\ at' = at + 1 /\ UNCHANGED <<lines, out, made>>
Emit == More /\ lines[at] = "good" /\ out' = Append(out, at) /\ at' = at + 1 /\ UNCHANGED <<lines, made>>
Drop == More /\ lines[at] \notin {"good", "comment", "blank"} /\ at' = at + 1 /\ UNCHANGED <<lines, out, made>>
Next == Write \/ Open \/ Skip \/ Emit \/ Drop
Spec == Init /\ [][Next]_vars
Exact == (made /\ at > Len(lines)) => out = SelectSeq([j \in 1..Len(lines) |-> j], LAMBDA j : lines[j] = "good")
\* What a line yields does not depend on the lines before it
Local == made => \A j \in 1..(at - 1) : (lines[j] = "good") <=> (\E i \in 1..Len(out) : out[i] = j)
Ends == made /\ at > Len(lines) => ~ENABLED Next
=============================================================================

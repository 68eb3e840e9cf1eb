------------------------------ MODULE Stations ------------------------------
(* The directory of buoys: how a station's name is made out of what it is      *)
(* listed by, when it is active, and the map feature made of it. A listed name *)
(* is a sequence of [k, s]: words "w", whole numbers "n", words opening a      *)
(* bracket "b", and hyphens "-".                                               *)
EXTENDS Integers, Sequences, FiniteSets

Types == [none |-> "None", buoy |-> "Buoy", fixed |-> "Fixed", oilrig |-> "Oil Rig", dart |-> "Dart", tao |-> "Tao",
          usv |-> "USV", virtual |-> "Virtual", other |-> "Other"]
Flags == <<"met", "currents", "waterquality", "dart">>
\* A flag is "y", "n" or "" when the station is listed without it
Has(f) == f = "y"
Active(flags) == \E j \in 1..4 : Has(flags[j])

RECURSIVE Split(_, _)
\* The parts between hyphens
Split(ts, cur) == IF ts = <<>> THEN <<cur>>
                  ELSE IF ts[1].k = "-" THEN <<cur>> \o Split(Tail(ts), <<>>)
                  ELSE Split(Tail(ts), Append(cur, ts[1]))
RECURSIVE Glue(_)
Glue(ps) == IF ps = <<>> THEN <<>> ELSE ps[1] \o Glue(Tail(ps))
\* Its words, but for the numbers stations are also known by and notes in brackets
Words(ts) == SelectSeq(Glue(SelectSeq(Split(ts, <<>>), LAMBDA p : ~(Len(p) = 1 /\ p[1].k = "n"))), LAMBDA t : t.k # "b")
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1].s ELSE ws[1].s \o " " \o Join(Tail(ws))
Name(ts) == Join(Words(ts))

\* The first of that name, or none
Find(stations, id) == LET at == {j \in 1..Len(stations) : stations[j].id = id} IN
                      IF at = {} THEN 0 ELSE CHOOSE j \in at : \A k \in at : j <= k
=============================================================================

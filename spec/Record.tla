------------------------------- MODULE Record -------------------------------
(* A record holding quantities, each in its own unit, some of them missing.    *)
(* It is taken through unit systems as a whole, and may be published (written  *)
(* out and read back) in between.                                              *)
EXTENDS Units

\* What becomes of the units of a record
Converted(units, sys) == [i \in DOMAIN units |-> SystemUnit(units[i], sys)]
Published(units) == units
=============================================================================

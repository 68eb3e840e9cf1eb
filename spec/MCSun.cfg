SPECIFICATION Spec
CONSTANT Lats <- Places
CONSTANT Lngs <- Meridians
CONSTANT First = 8600
CONSTANT Days = 366
INVARIANT Tropics
INVARIANT Punctual
INVARIANT Daily
INVARIANT Equator
INVARIANT Mirror
INVARIANT Polar
INVARIANT East
PROPERTY Gradual
CHECK_DEADLOCK FALSE

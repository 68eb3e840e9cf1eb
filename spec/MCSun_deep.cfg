SPECIFICATION Spec
CONSTANT Lats <- Latitudes
CONSTANT Lngs <- Meridians
CONSTANT First = 8600
CONSTANT Days = 1462
INVARIANT Tropics
INVARIANT Punctual
INVARIANT Daily
INVARIANT Equator
INVARIANT Mirror
INVARIANT Polar
INVARIANT East
PROPERTY Gradual
CHECK_DEADLOCK FALSE

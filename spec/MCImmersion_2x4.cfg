SPECIFICATION Spec
CONSTANTS W = 2
          H = 4
          Tops = 3
          Share = 1
INVARIANTS Flooded Basins OnePerPeak AgreesWithFlood JoinsOn Export
PROPERTIES Keeps
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS W = 2
          H = 3
          Tops = 4
          Share = 1
INVARIANTS Flooded Basins OnePerPeak AgreesWithFlood JoinsOn Export
PROPERTIES Keeps
CHECK_DEADLOCK FALSE

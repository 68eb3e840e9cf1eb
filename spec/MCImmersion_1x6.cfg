SPECIFICATION Spec
CONSTANTS W = 1
          H = 6
          Tops = 3
          Share = 1
INVARIANTS Flooded Basins OnePerPeak AgreesWithFlood JoinsOn Export
PROPERTIES Keeps
CHECK_DEADLOCK FALSE

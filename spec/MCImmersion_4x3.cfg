SPECIFICATION Spec
CONSTANTS W = 4
          H = 3
          Tops = 2
          Share = 1
INVARIANTS Flooded Basins OnePerPeak AgreesWithFlood JoinsOn Export
PROPERTIES Keeps
CHECK_DEADLOCK FALSE

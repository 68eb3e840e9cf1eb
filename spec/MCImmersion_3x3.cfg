SPECIFICATION Spec
CONSTANTS W = 3
          H = 3
          Tops = 3
          Share = 4
INVARIANTS Flooded Basins OnePerPeak AgreesWithFlood JoinsOn Export
PROPERTIES Keeps
CHECK_DEADLOCK FALSE

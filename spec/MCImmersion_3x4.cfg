SPECIFICATION Spec
CONSTANTS W = 3
          H = 4
          Tops = 3
          Share = 40
INVARIANTS Flooded Basins OnePerPeak AgreesWithFlood JoinsOn Export
PROPERTIES Keeps
CHECK_DEADLOCK FALSE

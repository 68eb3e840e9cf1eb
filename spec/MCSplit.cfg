SPECIFICATION Spec
CONSTANTS Cells = 4
          Labels = 2
          Energies = 2
INVARIANTS Conserved Once Own
CHECK_DEADLOCK FALSE

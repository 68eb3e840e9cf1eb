SPECIFICATION Spec
CONSTANTS Years = {1999, 2000, 2023, 2024, 2100}
          Src = "hourly"
INVARIANTS Calendrical Chosen
PROPERTIES Monotone
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Fields = {"temperature", "dewpoint", "humidity", "direction", "texts", "rain"}
          Winds = {"single", "range", "bare", "words", "none"}
          Most = 2
          MostAbsent = 6
INVARIANTS Own AllOfThem
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Kinds = {"good", "comment", "blank", "cut", "date", "word", "place"}
 Most = 3
INVARIANTS Exact Local
CHECK_DEADLOCK FALSE

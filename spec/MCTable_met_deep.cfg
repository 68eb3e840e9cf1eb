SPECIFICATION Spec
CONSTANTS Kinds = {"good", "comment", "blank", "cut", "date", "word", "place"}
 Most = 5
INVARIANTS Exact Local
CHECK_DEADLOCK FALSE

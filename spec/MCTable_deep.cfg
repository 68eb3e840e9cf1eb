SPECIFICATION Spec
CONSTANTS Kinds = {"good", "comment", "blank", "cut", "date", "word", "quote"}
 Most = 5
INVARIANTS Exact Local
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Es = {0, 2, 5}
 Parts = 2
 Small = 1500
INVARIANTS Strongest Periods Bounded Calm
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Es = {0, 3}
 Parts = 2
 Small = 1500
INVARIANTS Strongest Periods Bounded Calm
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS MaxN = 4
          Depth = 4
INVARIANTS TypeOK OnceEach Export
PROPERTIES StaysExhausted Shrinks
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Damages = {"", "date", "format", "nodate", "value", "novalue", "event"}
          Most = 3
          Ids = {"a", "b", "c"}
INVARIANTS AllOrError Found
CHECK_DEADLOCK FALSE

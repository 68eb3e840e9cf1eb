SPECIFICATION Spec
CONSTANTS Damages = {"", "date", "format", "nodate", "value", "novalue", "event"}
          Most = 4
          Ids = {"a", "b", "c"}
INVARIANTS AllOrError Found
CHECK_DEADLOCK FALSE

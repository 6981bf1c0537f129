CONSTANTS Tasks = {t1, t2, t3}
          Outcomes = {"val", "exc"}
SPECIFICATION Spec
INVARIANTS TypeOK AtMostOnce DoneRan BrokenNeverRan QuietWhenDown
PROPERTIES Final Progress Shutdown
CHECK_DEADLOCK FALSE

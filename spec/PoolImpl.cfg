SPECIFICATION Spec
INVARIANTS AtMostOnce BrokenNeverRan QuietWhenDown MutexHeld NoStuck Complete
PROPERTIES Refines Finite
CHECK_DEADLOCK FALSE

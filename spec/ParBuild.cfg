SPECIFICATION Spec
INVARIANTS NoDangling Ordered OkComplete Reported Complete
PROPERTY Finite
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Whole AlignInv Within SameLen ArithInv
PROPERTY Untouched

INIT HInit
NEXT HNext
VIEW HView
ACTION_CONSTRAINT Edge
INVARIANT TypeOK
PROPERTY Independence
CHECK_DEADLOCK FALSE

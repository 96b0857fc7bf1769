SPECIFICATION Spec
INVARIANT AsAlone
INVARIANT Unchanged
INVARIANT Emit
PROPERTY EveryoneEnds
CHECK_DEADLOCK FALSE

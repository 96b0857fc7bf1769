SPECIFICATION Spec
INVARIANTS Partition Inits Fails AsJudged Emit
PROPERTIES Ended
CHECK_DEADLOCK FALSE

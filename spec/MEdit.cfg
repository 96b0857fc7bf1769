SPECIFICATION Spec
INVARIANTS NoFailure AsTree AsJudged Nothing InStep Emit
PROPERTIES Ended
CHECK_DEADLOCK FALSE

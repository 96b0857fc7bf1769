SPECIFICATION Spec
INVARIANT Headers
INVARIANT Nested
INVARIANT Kept
INVARIANT Tidy
INVARIANT StackTop
INVARIANT Emit
CHECK_DEADLOCK FALSE

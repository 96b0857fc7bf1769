SPECIFICATION Spec
INVARIANT Conserved
INVARIANT Faithful
INVARIANT InByte
INVARIANT Aligned
INVARIANT Splits
CHECK_DEADLOCK FALSE

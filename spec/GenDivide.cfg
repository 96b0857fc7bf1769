INIT Init
NEXT Next
INVARIANT EmitD
CHECK_DEADLOCK FALSE

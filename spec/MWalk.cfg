SPECIFICATION Spec
INVARIANTS Inside Paths Contexts Reported Emit
PROPERTIES Progress Terminates
CHECK_DEADLOCK FALSE

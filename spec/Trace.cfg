SPECIFICATION Spec
INVARIANT Done
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

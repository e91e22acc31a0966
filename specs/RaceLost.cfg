SPECIFICATION Spec
INVARIANT NoLostUpdate
CHECK_DEADLOCK FALSE

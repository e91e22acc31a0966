SPECIFICATION Spec
INVARIANTS TypeOK Printed
PROPERTY Grows
CHECK_DEADLOCK FALSE

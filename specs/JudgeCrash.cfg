SPECIFICATION CSpec
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE

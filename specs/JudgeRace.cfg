SPECIFICATION RSpec
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE

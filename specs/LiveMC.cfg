SPECIFICATION Spec
INVARIANTS NeverTorn ListedAreComplete Refines Completed
CHECK_DEADLOCK FALSE

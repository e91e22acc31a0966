SPECIFICATION Spec
INVARIANTS NeverTorn ListedAreComplete NeverFails LastIsListed
PROPERTY Remains
CHECK_DEADLOCK FALSE

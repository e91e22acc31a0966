SPECIFICATION Spec
INVARIANTS SameTreeSameType OneStandsForBoth SameTypeSameTree
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Soundness Tightness LimitIsTruncation OrderDoesNotMatter StyleIsOnlyStyle MergingIsMonotone
CHECK_DEADLOCK FALSE

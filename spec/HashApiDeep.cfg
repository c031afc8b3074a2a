SPECIFICATION Spec
CONSTANTS MaxOps = 6
 Lens = {0, 1, 2, 3, 4, 6, 7}
 Slots = 2
INVARIANT Refines
INVARIANT Tell
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS P = 3
 N = 2
INVARIANTS Leibniz Solvable
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS P = 2
 N = 3
INVARIANTS Leibniz Solvable
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3
 MaxT = 3
 MaxOps = 3
 Kids = 1
INVARIANTS Safe AllDone
PROPERTIES Refines Terminates

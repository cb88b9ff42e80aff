SPECIFICATION Spec
CONSTANTS N = 3
 MaxT = 4
 MaxOps = 4
 Kids = 1
INVARIANTS Safe AllDone
PROPERTIES Refines Terminates

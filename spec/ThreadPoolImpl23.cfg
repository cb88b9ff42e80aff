SPECIFICATION Spec
CONSTANTS N = 2
 MaxT = 3
 MaxOps = 4
 Kids = 1
INVARIANTS Safe AllDone
PROPERTIES Refines Terminates

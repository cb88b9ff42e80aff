CONSTANTS Q = 40  T = 6
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates

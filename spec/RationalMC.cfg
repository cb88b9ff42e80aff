SPECIFICATION Spec
CONSTANTS N = 75
 T0 = 3
INVARIANTS Step Sound Found Unique
PROPERTY Terminates
CHECK_DEADLOCK FALSE

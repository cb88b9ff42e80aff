SPECIFICATION Spec
CONSTANTS N = 90
 T0 = 7
INVARIANTS Step Sound Found Unique
PROPERTY Terminates
CHECK_DEADLOCK FALSE

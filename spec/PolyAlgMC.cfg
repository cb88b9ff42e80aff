SPECIFICATION Spec
INVARIANTS Ring Shifted Division Multiplies
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS F = {1, 2, 3}  Q = 2  MaxTerms = 2  MaxRules = 2  MaxRhs = 2
INVARIANTS SameValue NothingElse Refused
CHECK_DEADLOCK FALSE

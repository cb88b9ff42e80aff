SPECIFICATION Spec
CONSTANTS Items = {1, 2}  Orders = {1, 2}  Fields = 1  MaxNeed = 1  Spare = 0
INVARIANTS Once OnlyMissing
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Items = {1, 2}  Orders = {1}  Fields = 2  MaxNeed = 2  Spare = 0
INVARIANTS Once OnlyMissing
PROPERTY Ends
CHECK_DEADLOCK FALSE

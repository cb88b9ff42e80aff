SPECIFICATION Spec
INVARIANTS Faithful PreFaithful
CONSTANTS Fn = {1, 2, 3}
 MaxLen = 5
 Eq = FALSE

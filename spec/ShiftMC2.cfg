SPECIFICATION Spec
CONSTANTS N = 2
          Fns = 3
INVARIANTS OrderOk ListComplete Sparsest
PROPERTY Accepts
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3
          Fns = 2
INVARIANTS OrderOk ListComplete Sparsest
PROPERTY Accepts
CHECK_DEADLOCK FALSE

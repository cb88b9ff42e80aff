SPECIFICATION Spec
CONSTANTS
  Boxes <- MCBoxes
  Runs = 4
  Cleans = TRUE
INVARIANTS Complete Decision Fitting
PROPERTY Untouched
CHECK_DEADLOCK FALSE

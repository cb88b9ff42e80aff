SPECIFICATION Spec
CONSTANTS
  Items = {1, 2}
  Threads = {t1, t2}
  Points = {x, y}
  MaxField = 1
INVARIANTS NoEvaluationOutsideItsField NoEvaluationBeforeTold NoFinishedItemOpen OnlyEvaluatedPointsAreGiven ValuesBelong
PROPERTIES FieldsInOrder DeliveredToAll

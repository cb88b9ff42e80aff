CONSTANTS N = 2  Fields = 3  Crashes = 2
SPECIFICATION Spec
INVARIANTS Recoverable NothingFinishedIsLost RightProbes OneKind Behind
PROPERTY Ends

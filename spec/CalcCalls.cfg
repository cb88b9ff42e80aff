SPECIFICATION Spec
POSTCONDITION Complete

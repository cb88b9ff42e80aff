SPECIFICATION Spec
INVARIANT Axioms

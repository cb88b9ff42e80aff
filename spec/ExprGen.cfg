SPECIFICATION Spec
INVARIANT Show
CONSTANTS MaxTok = 5
 Operands = {"x", "2"}
 Exps = {"2", "(-1)"}

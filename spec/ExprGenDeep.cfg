SPECIFICATION Spec
INVARIANT Show
CONSTANTS MaxTok = 7
 Operands = {"x", "2"}
 Exps = {"2", "(-1)"}

CONSTANTS PrintHist = FALSE
SPECIFICATION Spec
INVARIANTS InvNegEq InvNegContains InvEqSym InvEqContains InvRefl InvOrder InvArith InvSet InvMatrix InvRound
CHECK_DEADLOCK FALSE

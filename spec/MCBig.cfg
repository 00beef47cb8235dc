SPECIFICATION Spec
INVARIANTS AddOK CmpOK MulOK NormOK Ring FixOK QOK
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS OrderFree ErrorsIffRefused EmptyAccepted
PROPERTY FaultsStay
CHECK_DEADLOCK FALSE

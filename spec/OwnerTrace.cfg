SPECIFICATION Spec
INVARIANT LineOKExplained
CHECK_DEADLOCK FALSE

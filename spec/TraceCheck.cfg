SPECIFICATION Spec
CONSTANT ThisVersion <- Version
INVARIANT LineOKExplained
CHECK_DEADLOCK FALSE

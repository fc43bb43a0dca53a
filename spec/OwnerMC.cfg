SPECIFICATION Spec
VIEW Hidden
CONSTRAINT Shallow
INVARIANT Numbered
INVARIANT Recorded
CHECK_DEADLOCK FALSE

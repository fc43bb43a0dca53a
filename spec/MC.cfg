SPECIFICATION Spec
CONSTANT ThisVersion <- Version
VIEW Hidden
CONSTRAINT Shallow
INVARIANTS Quiescent HasOneOwner OneOpen PendingExact IcaMatches Recovers Synced
CHECK_DEADLOCK FALSE

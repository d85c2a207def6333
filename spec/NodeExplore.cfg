SPECIFICATION Spec
INVARIANT Inv
INVARIANT NoDangling
VIEW View
CHECK_DEADLOCK FALSE

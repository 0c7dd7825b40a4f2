SPECIFICATION Spec
INVARIANT Agree
INVARIANT Laws
CHECK_DEADLOCK FALSE

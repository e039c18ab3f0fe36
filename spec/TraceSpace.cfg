SPECIFICATION Spec
INVARIANT Conforms
ACTION_CONSTRAINT Track
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE

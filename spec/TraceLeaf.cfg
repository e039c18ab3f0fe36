CONSTANTS Key = {1}
 Val = {1}
SPECIFICATION TSpec
INVARIANT Conforms
ACTION_CONSTRAINT Track
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE

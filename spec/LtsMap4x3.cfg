CONSTANTS Key = {1,2,3,4}
 Val = {1,2,3}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY PropsHold
INVARIANT TypeOK
CHECK_DEADLOCK FALSE

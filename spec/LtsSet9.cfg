CONSTANTS Key = {1,2,3,4,5,6,7,8,9}
 Val = {1}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY PropsHold
INVARIANT TypeOK
CHECK_DEADLOCK FALSE

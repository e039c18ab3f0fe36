CONSTANTS Hi = {1,2,3,4,5}
 Lo = {1}
 Val = {1,2}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY PropsHold
INVARIANT TypeOK
CHECK_DEADLOCK FALSE

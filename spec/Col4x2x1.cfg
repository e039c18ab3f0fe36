CONSTANTS Hi = {1,2,3,4}
 Lo = {1,2}
 Val = {1}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY PropsHold
INVARIANT TypeOK
CHECK_DEADLOCK FALSE

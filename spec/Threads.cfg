CONSTANTS Key = {1,2}
 Val = {1,2}
 Tree = {1,2}
 Thread = {1,2}
INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
INVARIANT Commute
PROPERTY PropsHold
CHECK_DEADLOCK FALSE

CONSTANTS MaxLen = 4
 V = {1,2}
 C = {1,2}
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY ListsHold
CHECK_DEADLOCK FALSE

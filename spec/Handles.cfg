CONSTANTS Val = {1, 2}
 MaxH = 3
INIT Init
NEXT Next
VIEW View
INVARIANTS KindIrrelevant TypeOK
PROPERTY MovesHold
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

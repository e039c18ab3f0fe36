CONSTANTS Hi = {1,2,3}
 Lo = {1,2}
 Val = {1,2}
INIT Init
NEXT Next
VIEW View
PROPERTY Steps
INVARIANTS TypeOK DesignInv
CHECK_DEADLOCK FALSE

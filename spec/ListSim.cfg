CONSTANTS MaxLen = 300
 V = {1}
 C = {1}
INIT SimInit
NEXT SimNext
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

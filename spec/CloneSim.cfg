CONSTANTS Key = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24}
 Val = {1}
 Handle = {1,2,3}
 Phase = 80
INIT SimInit
NEXT SimNext
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE

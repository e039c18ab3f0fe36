INIT Start
NEXT Stay
CONSTANTS W = 7
 Val = {1}

INIT Start
NEXT Stay
CONSTANTS W = 5
 Val = {1}

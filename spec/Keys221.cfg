CONSTANTS Base = 2
 N = 2
 H = 1
SPECIFICATION Spec
INVARIANTS TypeOK RoundTrip Ordered Onto RankOrder Numbers
CHECK_DEADLOCK FALSE

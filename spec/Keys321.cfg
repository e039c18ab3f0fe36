CONSTANTS Base = 3
 N = 3
 H = 1
SPECIFICATION Spec
INVARIANTS TypeOK RoundTrip Ordered Onto RankOrder Numbers
CHECK_DEADLOCK FALSE

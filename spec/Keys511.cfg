CONSTANTS Base = 5
 N = 1
 H = 1
SPECIFICATION Spec
INVARIANTS TypeOK RoundTrip Ordered Onto RankOrder Numbers
CHECK_DEADLOCK FALSE

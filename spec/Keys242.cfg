CONSTANTS Base = 2
 N = 6
 H = 3
SPECIFICATION Spec
INVARIANTS TypeOK RoundTrip Ordered Onto RankOrder Numbers
CHECK_DEADLOCK FALSE

CONSTANTS Base = 3
 N = 4
 H = 2
SPECIFICATION Spec
INVARIANTS TypeOK RoundTrip Ordered Onto RankOrder Numbers
CHECK_DEADLOCK FALSE

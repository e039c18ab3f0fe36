CONSTANTS N = 4
 Other = 9
SPECIFICATION Spec
INVARIANT Canonical
INVARIANT RunEnabled
PROPERTY SingleRefines
PROPERTY RunRefines
VIEW View
CHECK_DEADLOCK FALSE

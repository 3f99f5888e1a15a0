SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSteps = 2
 Indices = {0, 1, 2}
INVARIANT Exact
INVARIANT Count
INVARIANT Owners
INVARIANT Listed
PROPERTY Keeps

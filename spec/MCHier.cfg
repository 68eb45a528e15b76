SPECIFICATION Spec
CONSTANTS MaxLevel = 2 
Vals = {0, 1, 2}
INVARIANTS RoundTrip MassKept LinearHasNone
CHECK_DEADLOCK FALSE

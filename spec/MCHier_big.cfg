SPECIFICATION Spec
CONSTANTS MaxLevel = 3 
Vals = {0, 1}
INVARIANTS RoundTrip MassKept LinearHasNone
CHECK_DEADLOCK FALSE

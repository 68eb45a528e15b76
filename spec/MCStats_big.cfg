CONSTANTS NP = 2 Names = {a, b} MaxEvents = 3 MaxFiles = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AtMostOnce EndedOnly SameNumber Complete
SYMMETRY Sym

SPECIFICATION Spec
CONSTANTS RefLevel <- cR
Bnd <- cB
Procs <- cP
GridLevels <- cG
MaxOps = 7
INVARIANTS StoredInit Faithful
PROPERTIES Untouched
CHECK_DEADLOCK FALSE

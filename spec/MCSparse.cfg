SPECIFICATION Spec
CONSTANTS RefLevel <- cR
Bnd <- cB
Procs <- cP
GridLevels <- cG
MaxOps = 5
INVARIANTS StoredInit Faithful
PROPERTIES Untouched
CHECK_DEADLOCK FALSE

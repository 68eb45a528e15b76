SPECIFICATION Spec
CONSTANTS MaxWorld = 24
INVARIANTS LocalOk MasterOk ReduceOk GlobalOk OutputOk PartsOk
CHECK_DEADLOCK FALSE

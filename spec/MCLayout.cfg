SPECIFICATION Spec
CONSTANTS MaxWorld = 8
INVARIANTS LocalOk MasterOk ReduceOk GlobalOk OutputOk PartsOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Groups = 3
 Procs = 2
 Msgs = 7
INVARIANTS InOrder Alike OneOwner Final
PROPERTY Arrives
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Groups = 2
 Procs = 2
 Msgs = 5
INVARIANTS InOrder Alike OneOwner Final
PROPERTY Arrives
CHECK_DEADLOCK FALSE

CONSTANTS
 Lo <- Lo2b
 Hi <- Hi2b
 Rounds = 1
SPECIFICATION Spec
INVARIANTS LostUnused Once Cheap KeepsBase OneFine Back
CHECK_DEADLOCK FALSE

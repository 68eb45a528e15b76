CONSTANTS
 Lo <- Lo2
 Hi <- Hi2
 Rounds = 2
SPECIFICATION Spec
INVARIANTS LostUnused Once Cheap KeepsBase OneFine Back
CHECK_DEADLOCK FALSE

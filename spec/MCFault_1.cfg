CONSTANTS
 Lo <- Lo1
 Hi <- Hi1
 Rounds = 3
SPECIFICATION Spec
INVARIANTS LostUnused Once Cheap KeepsBase OneFine Back
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 3
 LMAX = 2
 MAXG = 3
INVARIANTS SizesOk ConjOk ExchangeOk
CHECK_DEADLOCK FALSE

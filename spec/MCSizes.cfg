SPECIFICATION Spec
CONSTANTS N = 2
 LMAX = 3
 MAXG = 2
INVARIANTS SizesOk ConjOk ExchangeOk
CHECK_DEADLOCK FALSE

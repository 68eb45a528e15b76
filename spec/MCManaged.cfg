SPECIFICATION Spec
CONSTANTS
  Groups = {1, 2}
  Tasks = {1, 2, 3}
  MaxOps = 4
INVARIANTS TaskOnce Settled CombineClean SameCombinations OneAnswer
PROPERTY Progress

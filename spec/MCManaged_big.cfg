SPECIFICATION Spec
CONSTANTS
  Groups = {1, 2, 3}
  Tasks = {1, 2, 3, 4}
  MaxOps = 5
INVARIANTS TaskOnce Settled CombineClean SameCombinations OneAnswer
PROPERTY Progress

CONSTANTS
  MaxLen = 5
  Bound = 22
  SudokuLen = 3
SPECIFICATION Spec
INVARIANTS RulesAgree SudokuAgrees Shape
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1}
  Sizes = {0, 2, 9}
  CInterface = FALSE
  MaxSize = 9
  Depth = 7
VIEW View
INVARIANT TypeOK
CONSTRAINT Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

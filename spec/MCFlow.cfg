INIT Init
NEXT Next
INVARIANTS Laws Empty
CHECK_DEADLOCK FALSE
CONSTANTS
  Types <- TNone
  Ops <- TNone
  Vals <- TNone
  D = 1

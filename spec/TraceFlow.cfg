INIT Init
NEXT Next
INVARIANT Done
CHECK_DEADLOCK FALSE
CONSTANTS
  Types <- TTypes
  Ops <- TOps
  Vals <- TVals

INIT Init
NEXT Next
CONSTANTS
  Types <- TTypes
  Ops <- TOps
  Vals <- TVals
  Defs <- TDefs
INVARIANT Done
CHECK_DEADLOCK FALSE

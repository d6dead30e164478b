INIT Init
NEXT Next
CONSTANTS
  Types <- TTypes
  Defs <- TDefs
INVARIANT Done
CHECK_DEADLOCK FALSE

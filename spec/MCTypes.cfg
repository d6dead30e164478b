INIT Init
NEXT Next
CONSTANTS
  Types <- MTypes
  Defs <- MDefs
INVARIANTS Universe Preserved Bounds Compose
CHECK_DEADLOCK FALSE

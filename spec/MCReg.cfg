INIT Init
NEXT Next
INVARIANTS TypeOK Policy Orderless
PROPERTIES Refusal Rising
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT WS <- TWS
CONSTANT LB <- TLB
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE

SPECIFICATION TraceSpec
CONSTANT Motion <- RealMotion
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

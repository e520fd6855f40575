SPECIFICATION IDTraceSpec
CONSTANT Motion <- RealMotion
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION IKTraceSpec
CONSTANT Motion <- RealMotion
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  B = 16
  BlockLimit = 1937
  Key <- TraceKey
VIEW View
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE

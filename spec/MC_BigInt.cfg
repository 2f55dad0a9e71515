SPECIFICATION Spec
CONSTANTS
  LimbBits = 2
  Span = 70
  KMax = 7
INVARIANTS RoundTrip AddOK SubOK MulOK CmpOK NegAbsOK OddOK ShiftOK
CHECK_DEADLOCK FALSE

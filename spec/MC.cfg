SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- XSetup
  CallsOf <- XCalls
  QsOf <- XQs
  Tag <- XTag
  G0 <- XG0
  Upd <- XUpd
  StepOk <- XStep
  StateOk <- XState
  MaxLen <- XLen

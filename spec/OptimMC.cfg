SPECIFICATION Spec
INVARIANTS Inv_Report Inv_Within EmitPrelude
PROPERTIES OwnLog
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE

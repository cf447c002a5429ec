SPECIFICATION Spec
INVARIANTS Inv_Qualified Inv_SelfContained Inv_Baked Inv_Affine Inv_Fresh Inv_Solution EmitPrelude
PROPERTIES Frame Idempotent
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE

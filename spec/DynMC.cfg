SPECIFICATION Spec
INVARIANTS Inv_Shaped Inv_TypeConf Inv_Known EmitPrelude
PROPERTIES Memoryless Frame Kept RoundTrip
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Inv_Shaped Inv_Totals Inv_Overall EmitPrelude
PROPERTIES Frame Kept Fluxes Samplings
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE

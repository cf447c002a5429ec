SPECIFICATION Spec
INVARIANTS Types Affine Constants Baked DimLaws EmitPrelude
PROPERTY Atomic
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE

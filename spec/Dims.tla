-------------------------------- MODULE Dims -------------------------------
(***************************************************************************)
(* Physical dimensions: functions from the seven base dimensions to        *)
(* rational exponents, with the algebra of property C01.                   *)
(***************************************************************************)
EXTENDS Rat

Base == {"m", "kg", "s", "A", "K", "mol", "cd"}

DimZero == [b \in Base |-> Zero]
DMul(x, y) == [b \in Base |-> RAdd(x[b], y[b])]
DDiv(x, y) == [b \in Base |-> RSub(x[b], y[b])]
DPow(x, p) == [b \in Base |-> RMul(x[b], p)]
IsDimless(x) == \A b \in Base : x[b] = Zero
DOk(x) == \A b \in Base : IsExact(x[b])

\* a dimension from a partial record of exponents
DOf(r) == [b \in Base |-> IF b \in DOMAIN r THEN r[b] ELSE Zero]

L(b) == [DimZero EXCEPT ![b] = One]

\* the predefined units of the library and the dimension each stands for
DVel == DDiv(L("m"), L("s"))
DAcc == DDiv(DVel, L("s"))
DForce == DMul(L("kg"), DAcc)
DPress == DDiv(DForce, DPow(L("m"), RInt(2)))
DEnergy == DMul(DForce, L("m"))
Template == [
  dimless |-> DimZero, m |-> L("m"), kg |-> L("kg"), s |-> L("s"), A |-> L("A"),
  K |-> L("K"), mol |-> L("mol"), cd |-> L("cd"),
  _s |-> DPow(L("s"), RInt(-1)), _m2 |-> DPow(L("m"), RInt(-2)), _m3 |-> DPow(L("m"), RInt(-3)),
  m_s |-> DVel, m_s2 |-> DAcc, kg_s |-> DDiv(L("kg"), L("s")), mol_s |-> DDiv(L("mol"), L("s")),
  Force |-> DForce, Pa |-> DPress, atm |-> DPress, J |-> DEnergy,
  UniversalIdealGasConstant |-> DDiv(DEnergy, DMul(L("K"), L("mol")))]
=============================================================================

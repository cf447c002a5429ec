-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers for TLC (32-bit integers), plus a small interval *)
(* domain for the values of transcendental functions.                      *)
(*                                                                         *)
(*   <<n, d>>, d > 0   the rational n/d, in lowest terms                   *)
(*   <<v, -e>>, e > 0  an approximation: the real lies within e units of   *)
(*                     v, in units of 10^-4                                *)
(*   <<k, 0>>          undefined / outside the range the model tracks      *)
(*                                                                         *)
(* Numbers whose numerator or denominator exceeds Cap become undefined:    *)
(* the model then makes no claim about them.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FunTab

Cap == 20000
Scale == 10000

Undef == <<0, 0>>
IsExact(a) == a[2] > 0
IsApprox(a) == a[2] < 0
IsDef(a) == a[2] # 0

IAbs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
IMin(x, y) == IF x < y THEN x ELSE y
IMax(x, y) == IF x < y THEN y ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* n, d any integers, d # 0
Norm(n, d) ==
    LET g == Gcd(IAbs(n), IAbs(d))
        m == Sgn(d) * (n \div g)
        q == IAbs(d) \div g
        \* \div rounds down; both divisions are exact here
    IN IF IAbs(m) > Cap \/ q > Cap THEN Undef ELSE <<m, q>>

RInt(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>

\* nearest fixed-point value of an exact rational
Fix(a) == LET t == a[1] * Scale IN (2 * t + a[2]) \div (2 * a[2])

ToApprox(a) == IF IsExact(a) THEN <<Fix(a), -1>> ELSE a

MkApprox(v, e) == IF IAbs(v) > 100000000 \/ e > 2000 THEN Undef ELSE <<v, -IMax(e, 1)>>

RNeg(a) == IF IsExact(a) THEN <<-a[1], a[2]>> ELSE IF IsApprox(a) THEN <<-a[1], a[2]>> ELSE Undef

RAdd(a, b) ==
    IF ~IsDef(a) \/ ~IsDef(b) THEN Undef
    ELSE IF IsExact(a) /\ IsExact(b) THEN Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
    ELSE LET x == ToApprox(a)  y == ToApprox(b) IN MkApprox(x[1] + y[1], (-x[2]) + (-y[2]))

RSub(a, b) == RAdd(a, RNeg(b))

\* approximation times an exact rational
ScaleApprox(x, q) ==
    IF q[1] = 0 THEN Zero
    ELSE IF IAbs(q[1]) > 200 \/ IAbs(x[1]) > 5000000 THEN Undef
    ELSE MkApprox((x[1] * q[1]) \div q[2], ((-x[2]) * IAbs(q[1])) \div q[2] + 2)

RMul(a, b) ==
    IF ~IsDef(a) \/ ~IsDef(b) THEN Undef
    ELSE IF IsExact(a) /\ IsExact(b) THEN Norm(a[1] * b[1], a[2] * b[2])
    ELSE IF IsExact(a) THEN ScaleApprox(b, a)
    ELSE IF IsExact(b) THEN ScaleApprox(a, b)
    ELSE IF IAbs(a[1]) > 40000 \/ IAbs(b[1]) > 40000 THEN Undef
    ELSE MkApprox((a[1] * b[1]) \div Scale,
                  (IAbs(a[1]) * (-b[2]) + IAbs(b[1]) * (-a[2])) \div Scale + 3)

RInv(a) ==
    IF IsExact(a) /\ a[1] # 0 THEN Norm(a[2], a[1])
    ELSE Undef

RDiv(a, b) == IF ~IsDef(a) THEN Undef ELSE RMul(a, RInv(b))

RECURSIVE PowN(_, _)
PowN(a, k) == IF k = 0 THEN One ELSE RMul(a, PowN(a, k - 1))

\* integer square root by search (arguments stay below Cap)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, k) == IF k * k >= n THEN k ELSE ISqrtFrom(n, k + 1)
ISqrt(n) == ISqrtFrom(n, 0)

RSqrt(a) ==
    IF ~IsExact(a) \/ a[1] < 0 THEN Undef
    ELSE LET p == ISqrt(a[1])  q == ISqrt(a[2])
         IN IF p * p = a[1] /\ q * q = a[2] THEN <<p, q>> ELSE Undef

\* a ^ p for an exact rational exponent: integers up to 6 and halves
RPow(a, p) ==
    IF ~IsExact(a) \/ ~IsExact(p) THEN
        IF IsApprox(a) /\ p = One THEN a ELSE Undef
    ELSE IF a[1] = 0 /\ p[1] <= 0 THEN Undef      \* no claim about 0^0
    ELSE IF p[2] = 1 /\ IAbs(p[1]) <= 6 THEN
        IF p[1] >= 0 THEN PowN(a, p[1]) ELSE RInv(PowN(a, -p[1]))
    ELSE IF p[2] = 2 /\ IAbs(p[1]) <= 6 /\ a[1] > 0 THEN
        LET r == RSqrt(a) IN
        IF ~IsDef(r) THEN Undef
        ELSE IF p[1] >= 0 THEN PowN(r, p[1]) ELSE RInv(PowN(r, -p[1]))
    ELSE Undef

RAbs(a) == IF IsDef(a) THEN <<IAbs(a[1]), a[2]>> ELSE Undef

\* comparison of exact rationals
RLeq(a, b) == a[1] * b[2] <= b[1] * a[2]
RLess(a, b) == a[1] * b[2] < b[1] * a[2]
RMin(a, b) == IF IsExact(a) /\ IsExact(b) THEN (IF RLeq(a, b) THEN a ELSE b) ELSE Undef
RMax(a, b) == IF IsExact(a) /\ IsExact(b) THEN (IF RLeq(a, b) THEN b ELSE a) ELSE Undef

\* elementary functions
RFun(f, a) ==
    IF ~IsExact(a) THEN (IF f = "Abs" THEN RAbs(a) ELSE Undef)
    ELSE IF f = "Abs" THEN RAbs(a)
    ELSE IF f = "Sqrt" /\ IsDef(RSqrt(a)) THEN RSqrt(a)
    ELSE LET hits == {i \in 1..Len(FunTab[f]) : FunTab[f][i][1] = a}
         IN IF hits = {} THEN Undef
            ELSE LET w == FunTab[f][CHOOSE i \in hits : TRUE][2]
                 IN <<w, -2>>

(***************************************************************************)
(* Observations of real floating point numbers are triples <<n, d, s>>:    *)
(* the exact rational when the float is (within 1e-10) one of range,       *)
(* else d = 0; s is the value in fixed point (or 2*10^9 when there is no   *)
(* real finite value).                                                     *)
(***************************************************************************)
Matches(a, o) ==
    IF ~IsDef(a) THEN TRUE
    ELSE IF IsExact(a) THEN o[1] = a[1] /\ o[2] = a[2]
    ELSE IAbs(o[3]) <= 1000000000 /\ IAbs(o[3] - a[1]) <= (-a[2]) + 2

\* an exact rational from an observation
OfObs(o) == <<o[1], o[2]>>
=============================================================================

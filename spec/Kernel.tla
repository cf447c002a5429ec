------------------------------- MODULE Kernel ------------------------------
(***************************************************************************)
(* The modelling kernel of sloth: units, quantities, expressions and       *)
(* equations (properties C01 - C06 and C19).                               *)
(*                                                                         *)
(* The state holds every object the user has created, under a handle:      *)
(*   u   units        handle -> dimension                                  *)
(*   q   quantities   handle -> [name, kind, dims, spec, val, pts, dom]    *)
(*   n   expressions  handle -> [dims, vs, vr, refs, unk, diff, aff, inv]  *)
(*   e   equations    handle -> [form, node, lhs, rhs]                     *)
(*                                                                         *)
(* An expression is represented by what is observable about it: its        *)
(* dimension, its value under each of K sample assignments (vs: with the   *)
(* quantities specified at writing time replaced by their values; vr: the  *)
(* fully symbolic form), the quantities it refers to, those of them that   *)
(* were unknown, and how it was formed (diff: a derivative occurs in it;   *)
(* aff: formed by sums, differences and scaling only).                     *)
(* Every operation is one action. Do(st, ev) is its effect; Fails(st, ev)  *)
(* tells whether the library must refuse it (and then nothing changes).    *)
(***************************************************************************)
EXTENDS Dims, TLC

K == 5    \* sample assignments: P0, P0+d, P0+2d, P0+e, P0+2e

EmptyFn == [x \in {} |-> 0]
Init0 == [u |-> EmptyFn, q |-> EmptyFn, n |-> EmptyFn, e |-> EmptyFn]

Put(f, h, v) == (h :> v) @@ f

KIdx == 1..K
ConstVs(v) == [k \in KIdx |-> v]
Map2(op(_, _), x, y) == [k \in KIdx |-> op(x[k], y[k])]

(*------------------------------- units ----------------------------------*)

UnitOps == {"u_tmpl", "u_new", "u_copy", "u_mul", "u_div", "u_pow", "u_powu", "u_add", "u_sub", "u_num"}

UnitFails(st, ev) ==
    IF ev.op \in {"u_add", "u_sub"} THEN st.u[ev.a] # st.u[ev.b]
    ELSE IF ev.op = "u_powu" THEN ~IsDimless(st.u[ev.b])
    ELSE FALSE

UnitRes(st, ev) ==
    CASE ev.op = "u_tmpl" -> Template[ev.name]
      [] ev.op = "u_new" -> DOf(ev.exps)
      [] ev.op = "u_copy" -> st.u[ev.a]
      [] ev.op = "u_mul" -> DMul(st.u[ev.a], st.u[ev.b])
      [] ev.op = "u_div" -> DDiv(st.u[ev.a], st.u[ev.b])
      [] ev.op = "u_pow" -> DPow(st.u[ev.a], ev.num)
      [] OTHER -> st.u[ev.a]   \* u_powu, u_add, u_sub

\* a unit times (over) a number is a quantity
UnitNum(st, ev) ==
    [name |-> "", kind |-> "Quantity", dims |-> st.u[ev.a], spec |-> FALSE,
     val |-> IF ev.how = "mul" THEN ev.num ELSE RDiv(One, ev.num),
     pts |-> ConstVs(Zero), dom |-> FALSE]

(*----------------------------- quantities --------------------------------*)

NewQ(st, ev) ==
    [name |-> ev.name, kind |-> ev.kind, dims |-> st.u[ev.u], spec |-> FALSE,
     val |-> ev.val, pts |-> ev.pts, dom |-> FALSE]

SetFails(st, ev) ==
    CASE ev.how = "num" -> FALSE
      [] ev.how = "numunit" -> st.u[ev.u] # st.q[ev.h].dims
      [] ev.how = "qty" -> st.q[ev.src].dims # st.q[ev.h].dims
      [] OTHER -> TRUE                       \* "bad": not a value at all

SetVal(st, ev) == IF ev.how = "qty" THEN st.q[ev.src].val ELSE ev.num

ArithFails(st, ev) ==
    LET a == st.q[ev.a]  b == st.q[ev.b] IN
    IF ev.f \in {"add", "sub"} THEN a.dims # b.dims
    ELSE FALSE   \* no claim about dimensional exponents of quantities (not generated)

ArithRes(st, ev) ==
    LET a == st.q[ev.a]  b == st.q[ev.b] IN
    [name |-> "", kind |-> a.kind,
     dims |-> CASE ev.f = "mul" -> DMul(a.dims, b.dims)
                [] ev.f = "div" -> DDiv(a.dims, b.dims)
                [] ev.f = "pow" -> DPow(a.dims, b.val)
                [] OTHER -> a.dims,
     spec |-> FALSE,
     val |-> CASE ev.f = "add" -> RAdd(a.val, b.val)
               [] ev.f = "sub" -> RSub(a.val, b.val)
               [] ev.f = "mul" -> RMul(a.val, b.val)
               [] ev.f = "div" -> RDiv(a.val, b.val)
               [] OTHER -> RPow(a.val, b.val),
     pts |-> ConstVs(Zero), dom |-> FALSE]

(*----------------------------- expressions -------------------------------*)

Call(q) ==
    [dims |-> q.dims, vs |-> IF q.spec THEN ConstVs(q.val) ELSE q.pts, vr |-> q.pts,
     refs |-> {q.name}, unk |-> IF q.spec THEN {} ELSE {q.name},
     diff |-> FALSE, aff |-> TRUE, inv |-> {}]

\* a plain number next to an expression takes over its unit
NumNode(num, dims) ==
    [dims |-> dims, vs |-> ConstVs(num), vr |-> ConstVs(num), refs |-> {}, unk |-> {},
     diff |-> FALSE, aff |-> TRUE, inv |-> {}]

Known(a) == a.unk = {}

BinVals(f, x, y) ==
    CASE f = "add" -> Map2(RAdd, x, y)
      [] f = "sub" -> Map2(RSub, x, y)
      [] f = "mul" -> Map2(RMul, x, y)
      [] f = "div" -> Map2(RDiv, x, y)
      [] f = "pow" -> Map2(RPow, x, y)

BinFails(f, a, b) ==
    CASE f \in {"add", "sub"} -> a.dims # b.dims
      [] f = "pow" -> ~IsDimless(b.dims)
      [] OTHER -> FALSE

\* the dimension of a dimensional base raised to an unknown exponent is not
\* defined; the model makes no claim about it (DOk is then false)
NoDim == [b \in Base |-> Undef]
BinDims(f, a, b) ==
    CASE f \in {"add", "sub"} -> a.dims
      [] f = "mul" -> DMul(a.dims, b.dims)
      [] f = "div" -> DDiv(a.dims, b.dims)
      [] f = "pow" -> IF IsDimless(a.dims) THEN a.dims
                      ELSE IF Known(b) /\ IsExact(b.vs[1]) THEN DPow(a.dims, b.vs[1])
                      ELSE NoDim

BinAff(f, a, b) ==
    CASE f \in {"add", "sub"} -> a.aff /\ b.aff
      [] f = "mul" -> a.aff /\ b.aff /\ (Known(a) \/ Known(b))
      [] f = "div" -> a.aff /\ b.aff /\ Known(b) /\ a.refs # {}
      [] OTHER -> FALSE

Bin(f, a, b) ==
    [dims |-> BinDims(f, a, b), vs |-> BinVals(f, a.vs, b.vs), vr |-> BinVals(f, a.vr, b.vr),
     refs |-> a.refs \cup b.refs, unk |-> a.unk \cup b.unk,
     diff |-> a.diff \/ b.diff, aff |-> BinAff(f, a, b), inv |-> a.inv \cup b.inv]

\* the other operand when it is a plain number
NumOperand(ev, a) ==
    NumNode(ev.num, IF ev.f \in {"add", "sub"} THEN a.dims ELSE DimZero)

Transcendental == {"Log", "Log10", "Sqrt", "Abs", "Exp", "Sin", "Cos", "Tan"}
FunFails(a) == ~IsDimless(a.dims)
Fun(f, a) ==
    [a EXCEPT !.dims = DimZero, !.vs = [k \in KIdx |-> RFun(f, a.vs[k])],
              !.vr = [k \in KIdx |-> RFun(f, a.vr[k])], !.aff = FALSE]

\* Min and Max: args is a sequence of [t |-> "n", a |-> handle] or [t |-> "num", num |-> r]
MMNodes(st, ev) == {i \in 1..Len(ev.args) : ev.args[i].t = "n"}
MMDims(st, ev) ==
    IF MMNodes(st, ev) = {} THEN DimZero
    ELSE st.n[ev.args[CHOOSE i \in MMNodes(st, ev) : \A j \in MMNodes(st, ev) : i <= j].a].dims
MMFails(st, ev) ==
    \E i, j \in MMNodes(st, ev) : st.n[ev.args[i].a].dims # st.n[ev.args[j].a].dims
RECURSIVE FoldMM(_, _, _, _)
FoldMM(f, acc, s, i) ==
    IF i > Len(s) THEN acc
    ELSE FoldMM(f, [k \in KIdx |-> IF f = "Min" THEN RMin(acc[k], s[i][k]) ELSE RMax(acc[k], s[i][k])], s, i + 1)
MMRes(st, ev) ==
    LET arg(i) == IF ev.args[i].t = "n" THEN st.n[ev.args[i].a] ELSE NumNode(ev.args[i].num, DimZero)
        as == [i \in 1..Len(ev.args) |-> arg(i)]
    IN [dims |-> MMDims(st, ev),
        vs |-> FoldMM(ev.f, as[1].vs, [i \in 1..Len(as) |-> as[i].vs], 2),
        vr |-> FoldMM(ev.f, as[1].vr, [i \in 1..Len(as) |-> as[i].vr], 2),
        refs |-> UNION {as[i].refs : i \in 1..Len(as)},
        unk |-> UNION {as[i].unk : i \in 1..Len(as)},
        diff |-> \E i \in 1..Len(as) : as[i].diff,
        aff |-> FALSE, inv |-> UNION {as[i].inv : i \in 1..Len(as)}]

\* derivative of a variable with respect to an independent variable: a new
\* atom (its sample values are part of the event)
DiffFails(st, ev) == ~st.q[ev.q].dom
DiffRes(st, ev) ==
    LET q == st.q[ev.q] IN
    [dims |-> DDiv(q.dims, st.q[ev.t].dims), vs |-> ev.pts, vr |-> ev.pts,
     refs |-> {q.name}, unk |-> {q.name},
     diff |-> TRUE, aff |-> FALSE, inv |-> {st.q[ev.t].name}]

NodeOps == {"call", "n_bin", "n_num", "n_fun", "n_fnum", "n_mm", "n_diff"}

NodeFails(st, ev) ==
    CASE ev.op = "n_bin" -> BinFails(ev.f, st.n[ev.a], st.n[ev.b])
      [] ev.op = "n_num" -> ev.f = "pow" /\ ev.side = "l"    \* number ** expression is not offered
      [] ev.op = "n_fun" -> FunFails(st.n[ev.a])
      [] ev.op = "n_mm" -> MMFails(st, ev)
      [] ev.op = "n_diff" -> DiffFails(st, ev)
      [] OTHER -> FALSE

NodeRes(st, ev) ==
    CASE ev.op = "call" -> Call(st.q[ev.q])
      [] ev.op = "n_bin" -> Bin(ev.f, st.n[ev.a], st.n[ev.b])
      [] ev.op = "n_num" ->
            IF ev.side = "r" THEN Bin(ev.f, st.n[ev.a], NumOperand(ev, st.n[ev.a]))
            ELSE Bin(ev.f, NumOperand(ev, st.n[ev.a]), st.n[ev.a])
      [] ev.op = "n_fun" -> Fun(ev.f, st.n[ev.a])
      [] ev.op = "n_fnum" -> Fun(ev.f, NumNode(ev.num, DimZero))
      [] ev.op = "n_mm" -> MMRes(st, ev)
      [] ev.op = "n_diff" -> DiffRes(st, ev)

\* Is this a computation whose result is not a real number everywhere? The
\* library may then refuse it (a division by a known zero, say).
Singular(nd) == \A k \in KIdx : ~IsDef(nd.vs[k])

(*--------------------------- classification ------------------------------*)

\* evidence that the residual is not affine along a sampled direction
Refuted(vs) ==
    \E i \in {2, 4} :
        LET x == vs[1]  y == vs[i]  z == vs[i + 1]
            dd == RAdd(RSub(x, y), RSub(z, y))
        IN IsDef(x) /\ IsDef(y) /\ IsDef(z) /\ IsDef(dd)
           /\ IF IsExact(dd) THEN dd # Zero ELSE IAbs(dd[1]) > 2 * (-dd[2]) + 8

ClassOk(nd, cls) ==
    /\ cls \in {"linear", "nonlinear", "differential"}
    /\ (cls = "differential") = nd.diff
    /\ (nd.aff /\ ~nd.diff) => cls = "linear"
    /\ cls = "linear" => ~Refuted(nd.vs)

(*------------------------------ equations --------------------------------*)

EqFails(st, ev) ==
    CASE ev.form = "elem" -> st.n[ev.a].dims # st.n[ev.b].dims
      [] OTHER -> FALSE
EqRes(st, ev) ==
    LET a == st.n[ev.a] IN
    CASE ev.form = "res" -> [form |-> "residual", node |-> a, lhs |-> a, rhs |-> a, two |-> FALSE]
      [] ev.form = "elem" ->
            [form |-> "elementary", node |-> Bin("sub", a, st.n[ev.b]), lhs |-> a, rhs |-> st.n[ev.b], two |-> TRUE]
      [] ev.form = "elemnum" ->
            [form |-> "elementary", node |-> Bin("sub", a, NumNode(ev.num, a.dims)),
             lhs |-> a, rhs |-> NumNode(ev.num, a.dims), two |-> TRUE]

\* conversion to the residual form concerns differential equations only
Conv(e) == IF e.node.diff THEN [e EXCEPT !.form = "residual", !.two = FALSE] ELSE e

(*------------------------------- actions ---------------------------------*)

Fails(st, ev) ==
    CASE ev.op \in UnitOps -> UnitFails(st, ev)
      [] ev.op = "q_set" -> SetFails(st, ev)
      [] ev.op = "q_arith" -> ArithFails(st, ev)
      [] ev.op \in NodeOps -> NodeFails(st, ev)
      [] ev.op = "e_new" -> EqFails(st, ev)
      [] OTHER -> FALSE

\* an object whose dimension the specification does not define is not
\* followed any further
PutD(f, h, x) == IF DOk(x.dims) THEN Put(f, h, x) ELSE f

Do(st, ev) ==
    IF Fails(st, ev) THEN st
    ELSE CASE ev.op = "u_num" -> [st EXCEPT !.q = PutD(@, ev.h, UnitNum(st, ev))]
           [] ev.op \in UnitOps -> IF DOk(UnitRes(st, ev)) THEN [st EXCEPT !.u = Put(@, ev.h, UnitRes(st, ev))] ELSE st
           [] ev.op = "q_new" -> [st EXCEPT !.q = Put(@, ev.h, NewQ(st, ev))]
           [] ev.op = "q_set" -> [st EXCEPT !.q[ev.h].val = SetVal(st, ev), !.q[ev.h].spec = TRUE]
           [] ev.op = "q_dom" -> [st EXCEPT !.q[ev.h].dom = TRUE]
           [] ev.op = "q_arith" -> [st EXCEPT !.q = PutD(@, ev.h, ArithRes(st, ev))]
           [] ev.op \in NodeOps -> [st EXCEPT !.n = PutD(@, ev.h, NodeRes(st, ev))]
           [] ev.op = "e_conv" -> [st EXCEPT !.e[ev.h] = Conv(@)]
           [] ev.op = "e_new" -> [st EXCEPT !.e = Put(@, ev.h, EqRes(st, ev))]
           [] OTHER -> st

(*------------------------------ invariants -------------------------------*)
\* (checked exhaustively by KernelMC)

TypeOk(st) ==
    /\ \A h \in DOMAIN st.n : st.n[h].unk \subseteq st.n[h].refs
    /\ \A h \in DOMAIN st.n : \A k \in KIdx : st.n[h].vs[k][2] \in Int

\* the affine-by-construction rule is sound: what C05 promises to call
\* linear is never refuted by its values
AffineSound(st) ==
    \A h \in DOMAIN st.n : (st.n[h].aff /\ ~st.n[h].diff) => ~Refuted(st.n[h].vs)

\* an expression without unknowns has the same value under every assignment
KnownConstant(st) ==
    \A h \in DOMAIN st.n : st.n[h].unk = {} => \A k \in KIdx : st.n[h].vs[k] = st.n[h].vs[1]

\* baked and symbolic values differ only through specified quantities
BakedAgrees(st) ==
    \A h \in DOMAIN st.n : st.n[h].unk = st.n[h].refs => st.n[h].vs = st.n[h].vr
=============================================================================

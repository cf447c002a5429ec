------------------------------ MODULE KernelMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Kernel with small constants. Every transition *)
(* explored is printed as a history (a program for the real library), so   *)
(* the conformance check replays all of the model's small behaviours.      *)
(***************************************************************************)
EXTENDS Kernel, Json, IOUtils, SequencesExt

Focus == IOEnv.MC_FOCUS          \* "units" | "quantities" | "nodes" | "eqs"
Depth == atoi(IOEnv.MC_DEPTH)

VARIABLES st, hist
vars == <<st, hist>>

RECURSIVE Apply(_, _, _)
Apply(s, evs, i) == IF i > Len(evs) THEN s ELSE Apply(Do(s, evs[i]), evs, i + 1)

Pts(a, d, e) == <<a, RAdd(a, d), RAdd(a, RAdd(d, d)), RAdd(a, e), RAdd(a, RAdd(e, e))>>
Half == <<1, 2>>
QNew(h, kind, name, u, val, pts) ==
    [op |-> "q_new", h |-> h, kind |-> kind, name |-> name, u |-> u, val |-> val, nk |-> "f", pts |-> pts]
UT(h, name) == [op |-> "u_tmpl", h |-> h, name |-> name]

Prelude ==
  CASE Focus = "units" -> <<UT("u1", "m"), UT("u2", "s"), UT("u3", "dimless")>>
    [] Focus = "quantities" ->
         <<UT("u1", "m"), UT("u2", "s"), UT("u3", "dimless"),
           QNew("qa", "Parameter", "pa", "u1", RInt(2), Pts(One, One, RInt(2))),
           QNew("qb", "Parameter", "pb", "u1", RInt(3), Pts(One, One, RInt(2))),
           QNew("qc", "Constant", "pc", "u2", RInt(4), Pts(One, One, RInt(2))),
           QNew("qd", "Quantity", "pd", "u3", RInt(2), Pts(One, One, RInt(2))),
           QNew("qe", "Variable", "pe", "u1", Half, Pts(One, One, RInt(2)))>>
    [] OTHER ->
         <<UT("u1", "m"), UT("u2", "s"), UT("u3", "dimless"),
           QNew("qx", "Variable", "x", "u3", Zero, Pts(One, Half, RInt(2))),
           QNew("qy", "Variable", "y", "u3", Zero, Pts(RInt(3), One, <<-1, 2>>)),
           QNew("qp", "Parameter", "p", "u3", RInt(2), Pts(RInt(2), One, One)),
           QNew("qz", "Variable", "z", "u1", Zero, Pts(Half, One, RInt(2))),
           QNew("qt", "Variable", "t", "u2", Zero, Pts(RInt(4), One, RInt(2))),
           [op |-> "q_set", h |-> "qp", how |-> "num", num |-> RInt(2), nk |-> "f"],
           [op |-> "q_dom", h |-> "qx", t |-> "qt"]>>

Nm(c) == ToString(Len(hist)) \o c

Dead(s) == FALSE

UnitEvents ==
    LET us == DOMAIN st.u  h == "uu" \o Nm("")
        num(r, k) == [op |-> "u_pow", h |-> h, a |-> "u1", num |-> r, nk |-> k]
    IN {[op |-> o, h |-> h, a |-> x, b |-> y] : o \in {"u_mul", "u_div", "u_add", "u_sub", "u_powu"}, x \in us, y \in us}
       \cup {[op |-> "u_pow", h |-> h, a |-> x, num |-> r, nk |-> k] : x \in us, r \in {RInt(2), RInt(-1), Half}, k \in {"i", "f"}}
       \cup {[op |-> "u_copy", h |-> h, a |-> x] : x \in us}
       \cup {[op |-> "u_num", h |-> "q" \o h, a |-> x, num |-> RInt(4), nk |-> k, how |-> w] : x \in us, k \in {"i", "f"}, w \in {"mul", "div"}}

QEvents ==
    LET qs == {x \in DOMAIN st.q : st.q[x].name # ""} \ (IF Len(hist) > Len(Prelude) + 1 THEN {"qe", "qc"} ELSE {})  h == "q" \o Nm("")
    IN {[op |-> "q_set", h |-> x, how |-> "num", num |-> RInt(5), nk |-> "i"] : x \in qs}
       \cup {[op |-> "q_set", h |-> x, how |-> "numunit", num |-> RInt(6), nk |-> "f", u |-> v] : x \in qs, v \in DOMAIN st.u}
       \cup {[op |-> "q_set", h |-> x, how |-> "qty", src |-> y] : x \in qs, y \in qs}
       \cup {[op |-> "q_set", h |-> x, how |-> "bad"] : x \in qs}
       \cup {[op |-> "q_arith", h |-> h, f |-> f, a |-> x, b |-> y] : f \in {"add", "sub", "mul", "div"}, x \in qs, y \in qs}
       \cup {[op |-> "q_arith", h |-> h, f |-> "pow", a |-> x, b |-> "qd"] : x \in qs}

NodeEvents ==
    LET ns == DOMAIN st.n  h == "n" \o Nm("")
    IN {[op |-> "call", h |-> h, q |-> x] : x \in {"qx", "qy", "qp", "qz"}}
       \cup {[op |-> "n_bin", h |-> h, f |-> f, a |-> x, b |-> y] : f \in {"add", "sub", "mul", "div"}, x \in ns, y \in ns}
       \cup {[op |-> "n_bin", h |-> h, f |-> "pow", a |-> x, b |-> y] :
                <<x, y>> \in {w \in ns \X ns : IsDimless(st.n[w[1]].dims) \/ Known(st.n[w[2]])}}
       \cup {[op |-> "n_num", h |-> h, f |-> f, a |-> x, num |-> RInt(3), nk |-> "i", side |-> sd] :
                f \in {"add", "sub", "mul", "div"}, x \in ns, sd \in {"l", "r"}}
       \cup {[op |-> "n_num", h |-> h, f |-> "pow", a |-> x, num |-> RInt(2), nk |-> "f", side |-> "r"] : x \in ns}
       \cup {[op |-> "n_fun", h |-> h, f |-> f, a |-> x] : f \in {"Exp", "Abs"}, x \in ns}
       \cup {[op |-> "n_mm", h |-> h, f |-> "Max", args |-> <<[t |-> "n", a |-> x], [t |-> "n", a |-> y]>>, nk |-> "f"] : x \in ns, y \in ns}
       \cup {[op |-> "n_diff", h |-> h, q |-> x, t |-> "qt", pts |-> Pts(RInt(2), One, RInt(3))] : x \in {y \in {"qx", "qy"} : ~st.q[y].spec}}
       \cup {[op |-> "q_set", h |-> x, how |-> "num", num |-> RInt(5), nk |-> "f"] : x \in {"qx", "qp"}}

EqEvents ==
    LET ns == DOMAIN st.n  h == "e" \o Nm("")
    IN {[op |-> "e_new", h |-> h, form |-> "res", a |-> x] : x \in ns}
       \cup {[op |-> "e_new", h |-> h, form |-> "elem", a |-> x, b |-> y] : x \in ns, y \in ns}
       \cup {[op |-> "e_new", h |-> h, form |-> "elemnum", a |-> x, num |-> RInt(4), nk |-> "f"] : x \in ns}

\* equations only as the last step of a history
Events ==
    CASE Focus = "units" -> UnitEvents
      [] Focus = "quantities" -> QEvents
      [] Focus = "nodes" -> NodeEvents
      [] Focus = "eqs" -> IF Len(hist) = Len(Prelude) + Depth - 1 THEN EqEvents ELSE NodeEvents

Init == hist = Prelude /\ st = Apply(Init0, Prelude, 1)

Next ==
    /\ Len(hist) < Len(Prelude) + Depth
    /\ \E ev \in Events :
          /\ st' = Do(st, ev)
          /\ hist' = Append(hist, ev)

Spec == Init /\ [][Next]_vars

\* print every explored transition as a program
Emit == PrintT("@@H" \o ToJson(SubSeq(hist', Len(Prelude) + 1, Len(hist'))))
EmitPrelude == (Len(hist) = Len(Prelude)) => PrintT("@@P" \o ToJson(Prelude))
View == <<st, Len(hist)>>

Types == TypeOk(st)
Affine == AffineSound(st)
Constants == KnownConstant(st)
Baked == BakedAgrees(st)

\* the unit algebra is a commutative group with a compatible scaling
DimLaws ==
    \A x, y \in {st.u[h] : h \in DOMAIN st.u} :
        (DOk(x) /\ DOk(y)) =>
        /\ DMul(x, y) = DMul(y, x)
        /\ (DOk(DMul(x, y)) => DDiv(DMul(x, y), y) = x)
        /\ (DOk(DPow(x, RInt(2))) => DMul(x, x) = DPow(x, RInt(2)))
        /\ DDiv(x, x) = DimZero

\* a refused operation changes nothing, a successful one only its target
Atomic ==
    [][ /\ \A h \in DOMAIN st.u : st'.u[h] = st.u[h]
        /\ \A h \in DOMAIN st.n : st'.n[h] = st.n[h]
        /\ \A h \in DOMAIN st.q :
             st'.q[h] # st.q[h] =>
               LET ev == hist'[Len(hist')] IN ev.h = h /\ ev.op \in {"q_set", "q_dom"}
                  /\ st'.q[h].dims = st.q[h].dims ]_vars
=============================================================================

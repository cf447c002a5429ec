-------------------------------- MODULE FlowMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Flow on small flowsheets; every explored      *)
(* transition is printed as a history for the real library.                *)
(***************************************************************************)
EXTENDS Flow, Json, IOUtils

Focus == IOEnv.MC_FOCUS          \* "models" | "conn" | "solve"
Depth == atoi(IOEnv.MC_DEPTH)

VARIABLES st, hist
vars == <<st, hist>>

RECURSIVE Apply(_, _, _)
Apply(s, evs, i) == IF i > Len(evs) THEN s ELSE Apply(Do(s, evs[i]), evs, i + 1)

(*------------------------------- flowsheets ------------------------------*)
V(base, exp) == [base |-> base, kind |-> "Variable", unit |-> "kg", exp |-> exp, val |-> Zero, set |-> <<>>, desc |-> "mass"]
VSet(base, v) == [V(base, "") EXCEPT !.set = v]
P(base, v) == [base |-> base, kind |-> "Parameter", unit |-> "dimless", exp |-> "", val |-> One, set |-> v, desc |-> ""]
C(base, v) == [P(base, v) EXCEPT !.kind = "Constant"]
X(m, base) == <<"q", m, Q(base, m)>>
N(i) == <<"num", RInt(i)>>
Eq2(base, l, r) == [base |-> base, desc |-> "balance", two |-> TRUE, l |-> l, r |-> r]
Eq1(base, l) == [base |-> base, desc |-> "", two |-> FALSE, l |-> l, r |-> <<>>]
Mo(m, style, objs, eqs) == [op |-> "model", m |-> m, style |-> style, objs |-> objs, eqs |-> eqs]

\* k x = 6 (or with a constant term)
ModA == Mo("A", "init", <<V("x", "output"), P("k", RInt(2)), V("z", "")>>,
           <<Eq2("bal", <<"mul", X("A", "k"), X("A", "x")>>, N(6)), Eq1("def", <<"sub", <<"sub", X("A", "z"), X("A", "x")>>, N(1)>>)>>)
ModB == Mo("B", "init", <<V("x", "input"), V("y", "output"), P("k", <<>>)>>,
           <<Eq2("bal", X("B", "y"), <<"mul", N(2), X("B", "x")>>)>>)
ModC == Mo("C", "declare", <<V("u", "input"), C("g", RInt(3)), V("w", "output")>>,
           <<Eq1("close", <<"sub", <<"mul", X("C", "g"), X("C", "u")>>, X("C", "w")>>)>>)
ModAB == Mo("A_B", "init", <<V("a", "input"), VSet("b", RInt(2)), P("q", RInt(2))>>,
            <<Eq2("mom", <<"mul", X("A_B", "q"), <<"add", X("A_B", "a"), X("A_B", "b")>>>>, N(8)),
              Eq1("bad", <<"sub", X("A_B", "a"), X("A", "z")>>)>>)

Names(ms) == UNION {{Q(ms[i].objs[j].base, ms[k].m) : j \in 1..Len(ms[i].objs)} : <<i, k>> \in (1..Len(ms)) \X (1..Len(ms))}
BaseOf(ms) == [n \in UNION {{Q(b, ms[k].m) : b \in UNION {{ms[i].objs[j].base : j \in 1..Len(ms[i].objs)} \cup {ms[i].eqs[j].base : j \in 1..Len(ms[i].eqs)} : i \in 1..Len(ms)}} : k \in 1..Len(ms)}
                |-> CHOOSE b \in UNION {{ms[i].objs[j].base : j \in 1..Len(ms[i].objs)} \cup {ms[i].eqs[j].base : j \in 1..Len(ms[i].eqs)} : i \in 1..Len(ms)} :
                      \E k \in 1..Len(ms) : n = Q(b, ms[k].m)]
\* distinct sample values
Env(ms) ==
    LET ns == SeqOf(Names(ms))
    IN [op |-> "env", bases |-> BaseOf(ms),
        pts |-> [n \in Names(ms) |-> LET i == CHOOSE j \in 1..Len(ns) : ns[j] = n IN <<RInt(i), <<2 * i + 1, 2>>, RInt(3 - i)>>]]

Models == CASE Focus = "models" -> <<ModA, ModAB, ModC>>
            [] OTHER -> <<ModA, ModB>>
Ex(m) == [op |-> "exec", m |-> m]
Prelude ==
    CASE Focus = "models" -> <<Env(Models)>> \o Models \o <<Ex("A")>>
      [] Focus = "conn" -> <<Env(Models)>> \o Models \o <<Ex("A"), Ex("B"), [op |-> "prob", p |-> "p", models |-> <<"A", "B">>, how |-> "list"]>>
      [] OTHER -> <<Env(Models)>> \o Models \o <<[op |-> "prob", p |-> "p", models |-> <<"B", "A">>, how |-> "each"]>>

(*--------------------------------- events --------------------------------*)
SetEv(m, n, v) == [op |-> "setv", m |-> m, n |-> n, num |-> v]
Bases(m) == {st.m[m].objs[n].base : n \in DOMAIN st.m[m].objs} \cup {st.m[m].decl.objs[i].base : i \in 1..Len(st.m[m].decl.objs)}
EBases(m) == {st.m[m].decl.eqs[i].base : i \in 1..Len(st.m[m].decl.eqs)}
CanInc(a, b) == a # b /\ ~st.m[a].kept /\ ~st.m[b].kept /\ st.m[b].conns = {}
                /\ (Bases(a) \cup EBases(a)) \cap (Bases(b) \cup EBases(b)) = {}
\* a kept copy has the very name of the object it copies: whether an equation
\* over the original is foreign is then a matter of taste, and not explored
RefersTo(a, b) == \E i \in 1..Len(st.m[a].decl.eqs) : \E x \in Leaves(st.m[a].decl.eqs[i].l) : x[1] = b
IncEv(a, b, v, p, c, e, rw) == [op |-> "inc", into |-> a, from |-> b, v |-> v, p |-> p, c |-> c, e |-> e, rw |-> rw]
Rep(w, m) == [op |-> "report", what |-> w, m |-> m, via |-> "sim"]

ModelEvents ==
    LET ms == DOMAIN st.m IN
    {Ex(m) : m \in ms}
    \cup {SetEv(m, n, IF st.m[m].objs[n].kind = "Variable" THEN RInt(5) ELSE Zero) : <<m, n>> \in {w \in ms \X UNION {DOMAIN st.m[x].objs : x \in ms} : w[2] \in DOMAIN st.m[w[1]].objs /\ st.m[w[1]].style = "init"}}
    \cup {IncEv(z[1][1], z[1][2], z[2][1], z[2][2], z[2][3], z[2][4], z[3]) :
            z \in {y \in (ms \X ms) \X {<<TRUE, TRUE, TRUE, TRUE>>, <<TRUE, FALSE, FALSE, FALSE>>, <<FALSE, TRUE, FALSE, FALSE>>, <<FALSE, FALSE, TRUE, FALSE>>, <<TRUE, TRUE, TRUE, FALSE>>} \X BOOLEAN :
                      CanInc(y[1][1], y[1][2]) /\ (y[3] \/ ~RefersTo(y[1][1], y[1][2]))}}
    \cup {Rep(w, m) : w \in {"model", "exposed", "dof"}, m \in ms}

ConnEv(m1, m2, outs, ins, ex, sg) == [op |-> "conn", p |-> "p", m1 |-> m1, m2 |-> m2, outs |-> outs, ins |-> ins, expr |-> ex, single |-> sg]
\* every pair of variables of the two models, in both directions
VarsOf(m) == {n \in DOMAIN st.m[m].objs : st.m[m].objs[n].kind = "Variable"}
ConnEvents ==
    {ConnEv(w[1], w[2], <<<<w[1], o>>>>, <<<<w[2], i>>>>, <<>>, sg) :
        <<w, o, i, sg>> \in {z \in {<<"A", "B">>, <<"B", "A">>} \X (VarsOf("A") \cup VarsOf("B")) \X (VarsOf("A") \cup VarsOf("B")) \X BOOLEAN :
                               z[2] \in VarsOf(z[1][1]) /\ z[3] \in VarsOf(z[1][2])}}
    \cup {[op |-> "inconn", p |-> "p", m1 |-> "A", src |-> "model", m2 |-> "B", l |-> X("A", "x"), r |-> <<"mul", N(2), X("B", "x")>>]}
    \cup {ConnEv("A", "B", <<<<"A", "x_A">>>>, <<<<"B", "x_B">>>>, <<"sub", <<"mul", N(3), X("B", "x")>>, X("A", "x")>>, FALSE)}
    \cup {SetEv("A", "k_A", RInt(3)), SetEv("B", "x_B", RInt(4)), SetEv("A", "x_A", RInt(1)), SetEv("B", "k_B", RInt(2))}
    \cup {Ex("A"), Ex("B"), [op |-> "resolve", p |-> "p"]}

RunEv(la, cm, sim) == [op |-> "run", p |-> "p", sim |-> sim, la |-> la, nla |-> "symbolicsys", compile |-> cm, guess |-> <<>>, gs |-> "", show |-> cm, limit |-> 20]
SolveEvents ==
    {RunEv(la, cm, sim) : <<la, cm, sim>> \in {<<"symbolicsys", TRUE, "s1">>, <<"sympy", FALSE, "s1">>, <<"scipy", TRUE, "s2">>}}
    \cup {[op |-> "resolve", p |-> "p"]}
    \cup {SetEv("A", "k_A", RInt(3)), SetEv("A", "k_A", RInt(6)), SetEv("B", "y_B", RInt(4)), SetEv("B", "x_B", RInt(1)), SetEv("A", "x_A", RInt(1))}
    \cup {ConnEv("A", "B", <<<<"A", "x_A">>>>, <<<<"B", "x_B">>>>, <<>>, TRUE)}
    \cup {[op |-> "inconn", p |-> "p", m1 |-> "A", src |-> "model", m2 |-> "B", l |-> X("A", "z"), r |-> X("B", "x")]}
    \cup {[op |-> "report", what |-> "problem", p |-> "p", via |-> "self"]}

\* a run or a report needs a problem which was resolved before
Sensible(ev) ==
    /\ ev.op \in {"run"} => st.p["p"].resolved
    /\ ev.op = "report" /\ ev.what = "problem" => \E i \in 1..Len(hist) : hist[i].op = "resolve"
    /\ ev.op = "conn" => ~\E i \in 1..Len(hist) : hist[i].op = "conn" /\ hist[i].outs = ev.outs /\ hist[i].ins = ev.ins /\ (hist[i].expr # <<>> \/ ev.expr # <<>>)
    /\ ev.op = "inconn" => ~\E i \in 1..Len(hist) : hist[i].op = "inconn"

Events == CASE Focus = "models" -> ModelEvents [] Focus = "conn" -> ConnEvents [] OTHER -> SolveEvents

Init == hist = Prelude /\ st = Apply(Init0, Prelude, 1)
Next ==
    /\ Len(hist) < Len(Prelude) + Depth
    /\ \E ev \in Events :
          /\ Sensible(ev)
          /\ st' = Do(st, ev)
          /\ hist' = Append(hist, ev)
Spec == Init /\ [][Next]_vars

Emit == PrintT("@@H" \o ToJson(SubSeq(hist', Len(Prelude) + 1, Len(hist'))))
EmitPrelude == (Len(hist) = Len(Prelude)) => PrintT("@@P" \o ToJson(Prelude))
View == <<st, Len(hist)>>

Inv_Qualified == Qualified(st)
Inv_SelfContained == SelfContained(st)
Inv_Baked == BakedSpecified(st)
Inv_Affine == AffineSound(st)

\* a resolved problem holds current values only, and solving it by Cramer's
\* rule gives a point at which every equation vanishes
Inv_Fresh ==
    \A p \in DOMAIN st.p : st.p[p].resolved =>
        \A x \in PEqs(st, Rng(st.p[p].models)) : x[3].baked = BakeOf(st, x[3])
Inv_Solution ==
    \A p \in DOMAIN st.p : st.p[p].resolved =>
        LET ms == Rng(st.p[p].models)
            s == LinSol(st, ms)
        IN (Closed(st, ms) /\ DOMAIN s # {}) =>
             \A x \in PEqs(st, ms) :
                EEval(x[3], [n \in ENames(x[3]) |-> IF n \in DOMAIN x[3].baked THEN x[3].baked[n] ELSE s[n]]) \in {Zero, Undef}

Last == hist'[Len(hist')]
\* operations change only what they are about
Frame ==
    [][ /\ \A m \in DOMAIN st.m :
              st'.m[m] # st.m[m] =>
                 CASE Last.op \in {"exec", "setv"} -> m = Last.m
                   [] Last.op = "inc" -> m = Last.into
                   [] Last.op \in {"conn", "inconn"} -> m = Last.m2 /\ st'.m[m].objs = st.m[m].objs /\ st'.m[m].eqs = st.m[m].eqs
                   [] Last.op = "resolve" -> m \in Rng(st.p[Last.p].models) /\ (st.m[m].style = "init" => st'.m[m].objs = st.m[m].objs)
                   [] OTHER -> FALSE
        /\ Fails(st, Last) => st' = st ]_vars
\* resolving again, with nothing changed in between, changes nothing
Idempotent == [][Last.op = "resolve" => Do(st', Last) = st']_vars
=============================================================================

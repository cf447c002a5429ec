------------------------------- MODULE PlantMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Plant on small plants; every explored         *)
(* transition is printed as a history for the real library.                *)
(***************************************************************************)
EXTENDS Plant, Json, IOUtils

Focus == IOEnv.MC_FOCUS          \* "stream" | "mix" | "unit" | "ports" | "flow"
Depth == atoi(IOEnv.MC_DEPTH)

VARIABLES st, hist, len
vars == <<st, hist, len>>

RECURSIVE Apply(_, _, _)
Apply(s, evs, i) == IF i > Len(evs) THEN s ELSE Apply(Do(s, evs[i]), evs, i + 1)

Pkg(k, names) == [op |-> "pkg", k |-> k, names |-> names, dflt |-> FALSE]
Mk(x, cls, k) == [op |-> "mk", x |-> x, cls |-> cls, k |-> k, show |-> TRUE]
Set(x, a, v) == [op |-> "set", x |-> x, a |-> a, v |-> RInt(v)]
SetQ(x, a, n, d) == [op |-> "set", x |-> x, a |-> a, v |-> <<n, d>>]
Call(x) == [op |-> "call", x |-> x]
Inl(x, port, ss) == [op |-> "inl", x |-> x, ss |-> ss, port |-> port, dport |-> port = "in", single |-> Len(ss) = 1]
Outl(u, ss) == [op |-> "outl", x |-> u, ss |-> ss, port |-> "out", dport |-> TRUE, single |-> TRUE]
Eqs(x, vals) == [op |-> "eqs", x |-> x, vals |-> vals]

(*-------------------------------- samples --------------------------------*)
Given == [ndot_in |-> RInt(2), mdot_in |-> RInt(3), H_in |-> RInt(5), P_in |-> RInt(100), T_in |-> RInt(200),
          ndot_out |-> One, mdot_out |-> RInt(2), H_out |-> RInt(4), P_In |-> RInt(100)]
SpFree(x) == IF x.cls = "SimplePump" THEN {InOf(k, q) : k \in Parts, q \in Rng(x.sp)}
             ELSE IF x.sp = <<>> THEN {} ELSE {InOf(k, q) : k \in Parts, q \in Rng(x.sp) \ {x.sp[Len(x.sp)]}}
FreeOf(cls) == IF cls = "Tank" THEN {"ndot_in", "ndot_out", "mdot_in", "mdot_out", "H_in", "H_out", "P_In"}
               ELSE {"ndot_in", "mdot_in", "H_in", "P_in", "T_in"}
\* on the solution set of the equations of x, or one unit away from it along
\* what one of them determines
RECURSIVE Along(_, _, _, _)
Along(x, f, i, w) ==
    IF i > Len(Pivots(x)) THEN f
    ELSE LET v == Pivots(x)[i] b == Balance(x, v, f @@ ParVals(x))
         IN Along(x, Put(f, v, IF v = w THEN RAdd(b, One) ELSE b), i + 1, w)
Sample(n, w) ==
    LET x == st.x[n]
        tv == TotalVars(st, x)
        f == [v \in tv |-> IF v = w THEN RAdd(Total(st, x, v), One) ELSE Total(st, x, v)]
             @@ [v \in FreeOf(x.cls) |-> Given[v]] @@ [v \in SpFree(x) |-> IF Head2(v) = "z_" THEN <<1, 3>> ELSE <<1, 4>>]
    IN Along(x, f, 1, w)
Samples(n) ==
    {s \in {Sample(n, w) : w \in {""} \cup Rng(Pivots(st.x[n])) \cup TotalVars(st, st.x[n])} : \A v \in DOMAIN s : IsDef(s[v])}

(*-------------------------------- preludes -------------------------------*)
Stream(x, cls, k, nd, p, t, h) == <<Mk(x, cls, k), Set(x, "ndot", nd), Set(x, "P", p), Set(x, "T", t), Set(x, "H", h), Call(x)>>
Units == <<"Mixer", "Splitter", "Valve", "SimplePump", "Heater", "Cooler">>
Pars(cls) == CASE cls = "Valve" -> [Delta_P |-> 20, perc_open |-> 1] [] cls = "SimplePump" -> [Delta_P |-> 30]
               [] cls \in {"Heater", "Cooler"} -> [Delta_P |-> 10, Q |-> 12] [] cls = "Tank" -> [Q |-> 6, area_sec |-> 2] [] OTHER -> EmptyFn
RECURSIVE SetAll(_, _, _)
SetAll(x, f, as) == IF as = {} THEN <<>> ELSE LET a == CHOOSE b \in as : TRUE IN <<Set(x, a, f[a])>> \o SetAll(x, f, as \ {a})
Unit(x, cls, k) == <<Mk(x, cls, k)>> \o SetAll(x, Pars(cls), DOMAIN Pars(cls))

Prelude ==
    CASE Focus = "stream" -> <<Pkg("k", <<"wa">>), Pkg("j", <<"to">>), Mk("s", "HomogeneousMaterialStream", "k"), Mk("q", "MaterialStream", "k"), Mk("r", "MaterialStream", "j")>>
      [] Focus = "mix" -> <<Pkg("k", <<"wa">>), Pkg("m", <<"to", "he">>), Mk("s", "MaterialStream", "m")>>
      [] Focus = "unit" -> <<Pkg("k", <<"wa">>)>> \o Unit("A", "Mixer", "k") \o Unit("B", "Splitter", "") \o Unit("V", "Valve", "k") \o Unit("L", "SimplePump", "k")
                           \o Unit("H", "Heater", "k") \o Unit("C", "Cooler", "k") \o Unit("K", "Tank", "k")
                           \o <<Pkg("j", <<"wa", "to">>)>> \o Unit("D", "Splitter", "j") \o Unit("E", "SimplePump", "j")
      [] Focus = "ports" -> <<Pkg("k", <<"wa">>), Pkg("j", <<"to">>)>> \o Stream("s", "MaterialStream", "k", 2, 100, 200, 5) \o Stream("q", "MaterialStream", "j", 4, 200, 150, 3)
                            \o <<Pkg("w", <<"wa", "to">>), Mk("o", "MaterialStream", "w"), Set("o", "ndot", 6), Set("o", "mdot", 2), Set("o", "P", 100), Set("o", "T", 150), Set("o", "H", 5),
                                 SetQ("o", "z_wa", 1, 3), SetQ("o", "z_to", 2, 3), SetQ("o", "w_wa", 1, 2), SetQ("o", "w_to", 1, 2)>>
                            \o Unit("A", "Bench", "k") \o Unit("M", "Mixer", "k") \o Unit("N", "Mixer", "j") \o Unit("H", "Heater", "k")
                            \o <<[op |-> "mkuop", u |-> "u", m |-> "M"], [op |-> "mkuop", u |-> "v", m |-> "N"]>>
      [] OTHER -> <<Pkg("k", <<"wa">>)>> \o Stream("s", "MaterialStream", "k", 2, 200, 200, 5) \o Stream("q", "HomogeneousMaterialStream", "k", 4, 300, 300, 3)

(*--------------------------------- blocks --------------------------------*)
One1(S) == {<<e>> : e \in S}
StreamBlocks ==
    One1({Set(x, a[1], a[2]) : x \in {"s", "q", "r"}, a \in {<<"mdot", 2>>, <<"mdot", 3>>, <<"ndot", 4>>, <<"T", 300>>, <<"P", 200>>}}
         \cup {Call(x) : x \in {"s", "q", "r"}}
         \cup {[op |-> "calc", k |-> "k", T |-> RInt(400), P |-> <<>>], [op |-> "calc", k |-> "j", T |-> <<>>, P |-> RInt(500)]}
         \cup {[op |-> "pkadd", k |-> "k", k2 |-> "j", how |-> "method"], [op |-> "pkadd", k |-> "j", k2 |-> "k", how |-> "op"]})

Mix(k, by, f, t, p) == [op |-> "mix", k |-> k, by |-> by, f |-> f, T |-> t, P |-> p]
Comps(n) == CASE n = 1 -> {<<One>>} [] n = 2 -> {<<<<1, 4>>, <<3, 4>>>>} [] OTHER -> {<<<<1, 2>>, <<1, 3>>, <<1, 6>>>>}
MixBlocks ==
    One1({Set("s", a, 3) : a \in {"mdot", "ndot"}} \cup {Call("s")}
         \cup {[op |-> "pset", k |-> k, a |-> a, v |-> RInt(400)] : k \in {"k", "m"}, a \in {"T", "P"}}
         \cup UNION {{Mix(k, by, f, <<>>, p) : by \in {"zs", "ws"}, f \in Comps(Len(st.k[k].names)), p \in {<<>>, RInt(200)}} : k \in {"k", "m"}}
         \cup {Mix(k, "", <<>>, RInt(300), <<>>) : k \in {y \in {"k", "m"} : st.k[y].zs # <<>>}}
         \cup {[op |-> "pkadd", k |-> "k", k2 |-> "m", how |-> "method"], [op |-> "pkadd", k |-> "m", k2 |-> "k", how |-> "op"]})
    \cup {<<SetQ("s", q \o "to", 2, 3), SetQ("s", q \o "he", 1, 3), Call("s")>> : q \in Parts}

Built(x) == st.x[x].built # ""
UnitBlocks ==
    One1({Call(x) : x \in DOMAIN st.x}
         \cup UNION {{Eqs(x, s) : s \in Samples(x)} : x \in {y \in DOMAIN st.x : Built(y)}}
         \cup {[op |-> "calc", k |-> "k", T |-> RInt(400), P |-> <<>>]})
    \* the equations use the values the parameters have when they are declared
    \cup {<<e, Call(e.x)>> : e \in {Set("V", "Delta_P", 5), Set("V", "perc_open", 2), Set("H", "Q", -12), Set("C", "Delta_P", 3), Set("K", "area_sec", 1), Set("L", "Delta_P", -10), Set("E", "Delta_P", 15)}}

Owner(x) == {u \in DOMAIN st.u : st.u[u].m = x}
PortBlocks ==
    One1({Inl(x, p, ss) : x \in {y \in {"A", "M", "H"} : ~Built(y) /\ \A u \in Owner(y) : st.u[u].inp = EmptyFn}, p \in {"in", "a"}, ss \in {<<"s">>, <<"s", "q", "s">>}}
         \cup {Inl(u, p, ss) : u \in {y \in {"u", "v"} : ~Built(st.u[y].m) /\ st.x[st.u[y].m].inp = EmptyFn}, p \in {"in", "a"}, ss \in {<<"s">>, <<"q">>, <<"q", "s">>}}
         \cup {Outl(u, ss) : u \in {y \in {"u", "v"} : ~Built(st.u[y].m)}, ss \in {<<"o">>}}
         \cup {Call(x) : x \in {y \in {"A", "M", "H"} : ~Built(y) /\ st.x[y].inp # EmptyFn}}
         \cup {[op |-> "ures", u |-> u] : u \in {y \in {"u", "v"} : ~Built(st.u[y].m) /\ st.u[y].inp # EmptyFn}}
         \cup UNION {{Eqs(x, s) : s \in Samples(x)} : x \in {y \in DOMAIN st.x : st.x[y].cls \notin Streams /\ Built(y)}})

\* a chain of units behind a first one fed by the streams
UName == <<"U1", "U2", "U3", "U4">>
Chain == SelectSeq(UName, LAMBDA u : u \in DOMAIN st.x)
Feed(p, u, a, how, ss) == [op |-> "feed", p |-> p, u |-> u, v |-> a \o "_in", a |-> a, how |-> how, ss |-> ss, c |-> One]
FeedsOf(p, i) ==
    IF i = 1 THEN <<Feed(p, "U1", "P", "min", <<"s", "q">>), Feed(p, "U1", "ndot", "sum", <<"s", "q">>), Feed(p, "U1", "mdot", "sum", <<"q", "s">>),
                    Feed(p, "U1", "T", "min", <<"s", "q">>), Feed(p, "U1", "H", "ent", <<"s", "q">>)>>
    ELSE [j \in 1..5 |-> Feed(p, UName[i], <<"ndot", "mdot", "H", "P", "T">>[j], "var", <<UName[i - 1]>>)]
RECURSIVE AllFeeds(_, _, _)
AllFeeds(p, i, n) == IF i > n THEN <<>> ELSE FeedsOf(p, i) \o AllFeeds(p, i + 1, n)
Solved(s, p) == [op |-> "psolve", p |-> p, guess |-> Steady(s, p), solver |-> "", sure |-> TRUE]
\* the problem lists its units in any order
Orders(l) == IF Len(l) < 2 THEN {l} ELSE {l, [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]}
Closed(l) ==
    LET evs == <<[op |-> "prob", p |-> "p", ms |-> l]>> \o AllFeeds("p", 1, Len(l))
    IN Append(evs, Solved(Apply(st, evs, 1), "p"))
Again(evs) == evs \o <<Solved(Apply(st, evs, 1), "p")>>
FlowBlocks ==
    IF "p" \notin DOMAIN st.p
    THEN {Unit(UName[Len(Chain) + 1], cls, "k") \o <<Call(UName[Len(Chain) + 1])>> : cls \in IF Len(Chain) < 4 THEN Rng(Units) ELSE {}}
         \cup (IF Chain = <<>> THEN {} ELSE {Closed(l) : l \in Orders(Chain)})
    ELSE {Again(<<Set(u, "Delta_P", 40)>>) : u \in {y \in Rng(Chain) : "Delta_P" \in DOMAIN st.x[y].par}}
         \cup {Again(<<Set(u, "Q", -24)>>) : u \in {y \in Rng(Chain) : "Q" \in DOMAIN st.x[y].par}}

Blocks == CASE Focus = "stream" -> StreamBlocks [] Focus = "mix" -> MixBlocks [] Focus = "unit" -> UnitBlocks [] Focus = "ports" -> PortBlocks [] OTHER -> FlowBlocks

Init == hist = Prelude /\ st = Apply(Init0, Prelude, 1) /\ len = 0
Next ==
    /\ len < Depth
    /\ \E b \in Blocks :
          /\ st' = Apply(st, b, 1)
          /\ hist' = hist \o b
          /\ len' = len + 1
Spec == Init /\ [][Next]_vars

Emit == PrintT("@@H" \o ToJson(SubSeq(hist', Len(Prelude) + 1, Len(hist'))))
EmitPrelude == (len = 0) => PrintT("@@P" \o ToJson(Prelude))
View == <<st, len>>

Block == SubSeq(hist', Len(hist) + 1, Len(hist'))
Last == hist'[Len(hist')]

Inv_Shaped == Shaped(st) /\ Compositions(st)

\* a mixture keeps its composition when only its T and P are stated
Kept == [][ (Last.op = "mix" /\ Last.by = "") => st'.k[Last.k].zs = st.k[Last.k].zs /\ st'.k[Last.k].at[1] = Last.T ]_vars

\* operations change only what they are about; the union of packages made for
\* a unit operation is its own
About(ev) ==
    CASE ev.op \in {"mk", "set", "call", "inl", "outl", "eqs"} -> {ev.x}
      [] ev.op = "ures" -> {st.u[ev.u].m} \cup All(st.u[ev.u].outp)
      [] ev.op = "psolve" -> Rng(st'.p[ev.p].ms)
      [] ev.op \in {"pkadd", "calc", "mix", "pset"} -> {ev.k}
      [] OTHER -> {}
Frame ==
    [][ LET touched == UNION {About(Block[i]) : i \in 1..Len(Block)} IN
        /\ \A n \in DOMAIN st.x : st'.x[n] # st.x[n] => n \in touched
        /\ \A u \in DOMAIN st.u : st'.u[u] # st.u[u] => u \in touched
        /\ \A k \in DOMAIN st.k : st'.k[k] # st.k[k] => k \in touched
        /\ Last.op \in {"inl", "eqs"} => \A n \in DOMAIN st.x : st'.x[n].par = st.x[n].par
        /\ Last.op \in {"set", "call", "eqs", "psolve"} => st'.k = st.k /\ st'.u = st.u
        /\ Last.op # "mk" => \A n \in DOMAIN st.x : DOMAIN st.x[n].par \subseteq DOMAIN st'.x[n].par
        /\ \A n \in DOMAIN st.x : \A a \in DOMAIN st.x[n].par : st.x[n].par[a].spec => st'.x[n].par[a].spec ]_vars

\* calling a stream gives the flux its molar mass gives, from whichever the
\* user stated, and calling it again changes nothing
Fluxes ==
    [][ (Last.op = "call" /\ st'.x[Last.x].cls \in Streams /\ st'.x[Last.x].k # "" /\ IsDef(KgOf(st', st'.x[Last.x]))) =>
            LET x == st'.x[Last.x] a == x.par["mdot"] b == x.par["ndot"] y == st.x[Last.x]
            IN /\ Do(st', Last) = st'
               /\ a.spec <=> b.spec
               /\ x.der # "" /\ a.spec => a.val = RMul(b.val, KgOf(st', x))
               /\ y.par["mdot"].spec /\ ~y.par["ndot"].spec => a = y.par["mdot"]
               /\ y.par["ndot"].spec /\ ~y.par["mdot"].spec => b = y.par["ndot"] ]_vars

\* what enters through all inlets leaves the mixing point, in total and by species
Inv_Totals ==
    \A n \in DOMAIN st.x : (st.x[n].built = "uop" /\ st.x[n].ins # {}) =>
        LET x == st.x[n]
            by(a) == [s \in x.ins |-> PV(st, s, a)]
            nd == Total(st, x, "ndot_in")
            names == Rng(st.k[x.k].names)
        IN /\ \A s \in x.ins : Rng(st.k[st.x[s].k].names) \subseteq names
           /\ nd = SumOver(x.ins, by("ndot")) /\ Total(st, x, "mdot_in") = SumOver(x.ins, by("mdot"))
           /\ SumOver(names, [q \in names |-> Total(st, x, "z_" \o q)]) = One
           /\ \A q \in names : RMul(nd, Total(st, x, "z_" \o q)) = SumOver(x.ins, [s \in x.ins |-> RMul(Frac(st, s, "z_", q), PV(st, s, "ndot"))])
           /\ \A s \in x.ins : RLeq(Total(st, x, "P_in"), PV(st, s, "P")) /\ RLeq(Total(st, x, "T_in"), PV(st, s, "T"))

\* the sample on the solution set has no residual, any other has exactly one
Samplings ==
    [][ (Last.op = "eqs" /\ Focus # "flow") =>
            LET r == Residuals(st, Last.x, Last.vals)
            IN Cardinality({id \in DOMAIN r : id[1] # "o" /\ r[id] # Zero}) <= 1 /\ \A id \in DOMAIN r : IsExact(r[id]) ]_vars

\* the balances over a whole chain follow from those of its units
Fold(n) == LET us == Rng(st.p["p"].ms)
               par(a) == [u \in us |-> IF a \in DOMAIN st.x[u].par THEN IF a = "Delta_P" /\ st.x[u].cls # "SimplePump" THEN RNeg(st.x[u].par[a].val) ELSE st.x[u].par[a].val ELSE Zero]
           IN SumOver(us, par(n))
Inv_Overall ==
    "p" \in DOMAIN st.p =>
        LET f == Steady(st, "p")
            u == UName[Len(st.p["p"].ms)]
            S == {"s", "q"}
            at(a) == [s \in S |-> PV(st, s, a)]
        IN /\ DOMAIN f = Unknowns(st, "p") /\ Determined(st, "p")
           /\ \A n \in DOMAIN f : IsExact(f[n])
           /\ f[Q("mdot_out", u)] = SumOver(S, at("mdot"))
           /\ f[Q("ndot_out", u)] = SumOver(S, at("ndot"))
           /\ f[Q("P_out", u)] = RAdd(MinOver(S, at("P")), Fold("Delta_P"))
           /\ RMul(f[Q("ndot_out", u)], f[Q("H_out", u)])
                = RAdd(SumOver(S, [s \in S |-> RMul(PV(st, s, "ndot"), PV(st, s, "H"))]), Fold("Q"))
           /\ Sweep(st, "p", f, 1) = f
=============================================================================

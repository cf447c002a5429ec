-------------------------------- MODULE Plant -------------------------------
(***************************************************************************)
(* The library of unit operations: property packages, streams, units with  *)
(* their balances, ports and inlets of models and of unit operation        *)
(* objects, and flowsheets made of them (properties C18 and C20).          *)
(*                                                                         *)
(*   c   chemicals: id -> [n, t, p]  (species, levels of T and P)          *)
(*   k   packages:  id -> [names, ch, zs, at, T, P]                        *)
(*       (zs, at: composition, T and P of the mixture when there is one)   *)
(*   x   instances: name -> [cls, k, par, der, dv, inp, built, outs]       *)
(*       (der: the flux which the last call calculated, dv: its value)     *)
(*   u   unit operation objects: name -> [m, inp, outp]                    *)
(*   p   problems:  name -> [ms, feeds]                                    *)
(*                                                                         *)
(* The documented balances of a unit are written once, as the variable     *)
(* each of them determines (its pivot) and the value it gives to it. They  *)
(* are read in three ways: as residuals at a sample of the variables, as   *)
(* the steady state of a flowsheet, and as the slopes of a holdup.         *)
(***************************************************************************)
EXTENDS Dims, TLC

EmptyFn == [x \in {} |-> 0]
Put(f, h, v) == (h :> v) @@ f
Rng(s) == {s[i] : i \in 1..Len(s)}
Q(base, m) == base \o "_" \o m
Init0 == [c |-> EmptyFn, k |-> EmptyFn, x |-> EmptyFn, u |-> EmptyFn, p |-> EmptyFn]
Head2(s) == IF Len(s) < 2 THEN s ELSE SubSeq(s, 1, 2)
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET q == Uniq(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Rng(q) THEN q ELSE Append(q, s[Len(s)])

(*--------------------- species and property packages ---------------------*)
\* the data bank (small numbers in place of the one of the thermo library)
Bank == [w |-> [kg |-> <<1, 8>>, rho |-> 7, cp |-> 3],
         wa |-> [kg |-> <<1, 2>>, rho |-> 2, cp |-> 1],
         to |-> [kg |-> <<1, 4>>, rho |-> 3, cp |-> 2],
         he |-> [kg |-> <<1, 1>>, rho |-> 5, cp |-> 4]]
Level(x) == IMin(9, x[1] \div (100 * x[2]))
T0 == 2
P0 == 9
Rho(c) == RInt(Bank[c.n].rho + c.t + c.p)
Cp(c) == RInt(Bank[c.n].cp + c.t + 2 * c.p)
Kg(c) == Bank[c.n].kg

\* the chemical which stands for a package with one phase
Single(st, k) == k # "" /\ Len(st.k[k].names) = 1
Lead(st, k) == st.c[st.k[k].ch[st.k[k].names[1]]]

Calc(st, k, t, p) ==
    LET ids == {st.k[k].ch[n] : n \in Rng(st.k[k].names)}
    IN [st EXCEPT !.c = [i \in DOMAIN @ |-> IF i \in ids THEN [@[i] EXCEPT !.t = IF t = <<>> THEN T0 ELSE Level(t),
                                                                          !.p = IF p = <<>> THEN P0 ELSE Level(p)]
                                                       ELSE @[i]]]
AddPkg(a, b) ==
    LET new == SelectSeq(b.names, LAMBDA n : n \notin Rng(a.names))
    IN IF new = <<>> THEN a
       \* a composition does not say how much there is of the new ones
       ELSE [a EXCEPT !.names = @ \o new, !.ch = @ @@ [n \in Rng(new) |-> b.ch[n]], !.zs = <<>>, !.at = <<>>]

\* compositions, by mole and by mass
RECURSIVE SumL(_, _)
SumL(l, i) == IF i > Len(l) THEN Zero ELSE RAdd(l[i], SumL(l, i + 1))
ToMass(names, zs) == LET q == [i \in 1..Len(names) |-> RMul(zs[i], Bank[names[i]].kg)] IN [i \in 1..Len(names) |-> RDiv(q[i], SumL(q, 1))]
ToMolar(names, ws) == LET q == [i \in 1..Len(names) |-> RDiv(ws[i], Bank[names[i]].kg)] IN [i \in 1..Len(names) |-> RDiv(q[i], SumL(q, 1))]
\* the mixture of a package: its own composition, T and P where none are given
MixPkg(pk, ev) ==
    LET z == CASE ev.by = "zs" -> ev.f [] ev.by = "ws" -> ToMolar(pk.names, ev.f) [] OTHER -> pk.zs
    IN [pk EXCEPT !.zs = IF \A i \in 1..Len(z) : IsExact(z[i]) THEN z ELSE <<>>,
                  !.at = <<IF ev.T = <<>> THEN pk.T ELSE ev.T, IF ev.P = <<>> THEN pk.P ELSE ev.P>>]

(*-------------------------------- classes --------------------------------*)
Streams == {"HomogeneousMaterialStream", "MaterialStream", "MultiphasicMaterialStream"}
FlowVars == <<"ndot_in", "ndot_out", "mdot_in", "mdot_out", "H_in", "H_out", "P_in", "P_out", "T_in", "T_out">>
Inputs(cls) == CASE cls = "Tank" -> {"ndot_in", "mdot_in", "H_in"} [] cls \in Streams \cup {"Bench", "Drum"} -> {}
                 [] OTHER -> {"ndot_in", "mdot_in", "H_in", "P_in", "T_in"}
Outputs(cls) == CASE cls = "Tank" -> {"ndot_out", "mdot_out", "H_out"} [] cls \in Streams \cup {"Bench", "Drum"} -> {}
                  [] cls = "Valve" -> {"ndot_out", "mdot_out", "H_out", "P_out", "T_out", "Qdot_out"}
                  [] OTHER -> {"ndot_out", "mdot_out", "H_out", "P_out", "T_out"}

DRate(x) == DDiv(x, L("s"))
DMolarH == DDiv(DEnergy, L("mol"))
Kind(n) ==
    CASE n \in {"ndot_in", "ndot_out", "ndot"} -> DRate(L("mol"))
      [] n \in {"mdot_in", "mdot_out", "mdot"} -> DRate(L("kg"))
      [] n \in {"H_in", "H_out", "H"} -> DMolarH
      [] n \in {"P_in", "P_out", "P", "Delta_P", "P_In", "P_Out"} -> DPress
      [] n \in {"T_in", "T_out", "T"} -> L("K")
      [] n = "Qdot_out" -> DRate(DPow(L("m"), RInt(3)))
      [] n = "Q" -> DRate(DEnergy)
      [] n = "cp_mix" -> DDiv(DEnergy, DMul(L("kg"), L("K")))
      [] n = "t" -> L("s")
      [] n = "N" -> L("mol")
      [] n = "M" -> L("kg")
      [] n = "E" -> DEnergy
      [] n = "level" -> L("m")
      [] n = "area_sec" -> DPow(L("m"), RInt(2))
      [] OTHER -> DimZero
\* the parameters an instance has from the beginning
ParNames(cls, names) ==
    CASE cls = "HomogeneousMaterialStream" -> {"mdot", "ndot", "P", "H", "T"}
      [] cls \in Streams -> {"mdot", "ndot", "P", "H", "T"} \cup {"z_" \o n : n \in Rng(names)} \cup {"w_" \o n : n \in Rng(names)}
      [] cls = "Valve" -> {"Delta_P", "perc_open"}
      [] cls = "SimplePump" -> {"Delta_P"}
      [] cls \in {"Heater", "Cooler"} -> {"Delta_P", "Q", "cp_mix"}
      [] cls = "Tank" -> {"Q", "area_sec"}
      [] OTHER -> {}
VarNames(cls) ==
    CASE cls \in Streams \cup {"Bench", "Drum"} -> {}
      [] cls = "Tank" -> {"t", "ndot_in", "ndot_out", "N", "mdot_in", "mdot_out", "M", "H_in", "H_out", "E", "level", "P_In", "P_Out"}
      [] cls = "Valve" -> Rng(FlowVars) \cup {"Qdot_out"}
      [] OTHER -> Rng(FlowVars)
NeedsPackage(cls) == cls \in {"Valve", "Heater", "Cooler", "Tank", "MultiphasicMaterialStream"}

(*-------------------------------- balances -------------------------------*)
G(f, n) == IF n \in DOMAIN f THEN f[n] ELSE Undef
ClassPivots(cls) ==
    CASE cls \in Streams -> <<>>
      [] cls = "Tank" -> <<"P_Out">>
      [] cls = "Bench" -> <<"y">>
      [] cls = "Drum" -> <<"T", "P">>
      [] cls = "Valve" -> <<"ndot_out", "mdot_out", "P_out", "T_out", "H_out", "Qdot_out">>
      [] OTHER -> <<"ndot_out", "mdot_out", "P_out", "T_out", "H_out">>
\* the fractions of the species in what enters and leaves a unit with several
Parts == {"z_", "w_"}
InOf(kind, q) == kind \o q \o "_in"
OutOf(kind, q) == kind \o q \o "_out"
SpVars(x) == {InOf(k, q) : k \in Parts, q \in Rng(x.sp)} \cup {OutOf(k, q) : k \in Parts, q \in Rng(x.sp)}
ByOut(k, l) == [i \in 1..Len(l) |-> OutOf(k, l[i])]
SpPivots(x) ==
    IF x.sp = <<>> THEN <<>>
    ELSE LET last == x.sp[Len(x.sp)]
         IN (IF x.cls = "SimplePump" THEN <<>> ELSE <<InOf("z_", last), InOf("w_", last)>>) \o ByOut("z_", x.sp) \o ByOut("w_", x.sp)
\* what each balance determines, in an order in which they can be evaluated
Pivots(x) == ClassPivots(x.cls) \o SpPivots(x)
ClassBalance(cls, v, f) ==
    CASE v = "ndot_out" -> G(f, "ndot_in")
      [] v = "mdot_out" -> G(f, "mdot_in")
      [] v = "P_out" -> (CASE cls = "SimplePump" -> RAdd(G(f, "P_in"), G(f, "Delta_P"))
                           [] cls \in {"Valve", "Heater", "Cooler"} -> RSub(G(f, "P_in"), G(f, "Delta_P"))
                           [] OTHER -> G(f, "P_in"))
      [] v = "T_out" -> (IF cls \in {"Heater", "Cooler"} THEN RAdd(G(f, "T_in"), RDiv(G(f, "Q"), RMul(G(f, "mdot_out"), G(f, "cp_mix"))))
                         ELSE G(f, "T_in"))
      [] v = "H_out" -> LET h == RMul(G(f, "ndot_in"), G(f, "H_in"))
                        IN RDiv(IF cls \in {"Heater", "Cooler"} THEN RAdd(h, G(f, "Q")) ELSE h, G(f, "ndot_out"))
      [] v = "Qdot_out" -> RMul(G(f, "perc_open"), RDiv(G(f, "mdot_out"), G(f, "mix_rho")))
      [] v = "P_Out" -> G(f, "P_In")
      [] v = "y" -> RMul(RInt(2), G(f, "P_in"))
      [] v = "T" -> RMul(RInt(2), G(f, "T_in"))
      [] v = "P" -> RMul(RInt(3), G(f, "P_in"))
RECURSIVE OthersSum(_, _, _, _, _)
OthersSum(l, i, f, a, b) == IF i > Len(l) - 1 THEN Zero ELSE RAdd(G(f, a \o l[i] \o b), OthersSum(l, i + 1, f, a, b))
SpBalance(x, v, f) ==
    LET kq == CHOOSE y \in Parts \X Rng(x.sp) \X {"_in", "_out"} : v = y[1] \o y[2] \o y[3]
    IN IF x.cls = "SimplePump" \/ kq[2] # x.sp[Len(x.sp)] THEN G(f, InOf(kq[1], kq[2]))
       ELSE RSub(One, OthersSum(x.sp, 1, f, kq[1], kq[3]))
Balance(x, v, f) == IF v \in SpVars(x) THEN SpBalance(x, v, f) ELSE ClassBalance(x.cls, v, f)
\* what a tank accumulates
Holdups == {"N", "M", "E", "level"}
Slope(v, f) ==
    CASE v = "N" -> RSub(G(f, "ndot_in"), G(f, "ndot_out"))
      [] v = "M" -> RSub(G(f, "mdot_in"), G(f, "mdot_out"))
      [] v = "E" -> RAdd(RSub(RMul(G(f, "ndot_in"), G(f, "H_in")), RMul(G(f, "ndot_out"), G(f, "H_out"))), G(f, "Q"))
      [] v = "level" -> RDiv(RSub(G(f, "mdot_in"), G(f, "mdot_out")), RMul(G(f, "mix_rho"), G(f, "area_sec")))

ParVals(x) == [a \in DOMAIN x.par |-> x.par[a].val]

(*----------------------------- ports and totals --------------------------*)
RECURSIVE CatPorts(_, _)
CatPorts(inp, ps) == IF ps = {} THEN {} ELSE LET a == CHOOSE y \in ps : TRUE IN Rng(inp[a]) \cup CatPorts(inp, ps \ {a})
\* the streams connected to any of the ports
All(inp) == CatPorts(inp, DOMAIN inp)

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN Zero ELSE LET s == CHOOSE y \in S : TRUE IN RAdd(f[s], SumOver(S \ {s}, f))
RECURSIVE MinOver(_, _)
MinOver(S, f) == LET s == CHOOSE y \in S : TRUE IN IF S = {s} THEN f[s] ELSE RMin(f[s], MinOver(S \ {s}, f))

PV(st, s, a) == IF a \in DOMAIN st.x[s].par THEN st.x[s].par[a].val ELSE Undef
\* the fraction of a species in a stream: none where it does not occur
Frac(st, s, kind, n) == IF (kind \o n) \in DOMAIN st.x[s].par THEN PV(st, s, kind \o n)
                        ELSE IF st.x[s].k # "" /\ n \notin Rng(st.k[st.x[s].k].names) THEN Zero ELSE Undef
SpecAll(st, S, as) == \A s \in S : \A a \in as : a \in DOMAIN st.x[s].par /\ st.x[s].par[a].spec

\* the totals over the inlets: what they determine
TotalVars(st, x) ==
    CASE x.built = "call" /\ All(x.inp) # {} -> {"P_in", "T_in"}
      [] x.built = "uop" /\ x.ins # {} -> {"P_in", "T_in", "mdot_in", "ndot_in"} \cup {"z_" \o n : n \in Rng(st.k[x.k].names)} \cup {"w_" \o n : n \in Rng(st.k[x.k].names)}
      [] OTHER -> {}
Inlets(x) == IF x.built = "uop" THEN x.ins ELSE All(x.inp)
Total(st, x, v) ==
    LET S == Inlets(x)
        by(a) == [s \in S |-> PV(st, s, a)]
        part(kind, n, a) == RDiv(SumOver(S, [s \in S |-> RMul(Frac(st, s, kind, n), PV(st, s, a))]), SumOver(S, by(a)))
    IN CASE v = "P_in" -> MinOver(S, by("P"))
         [] v = "T_in" -> MinOver(S, by("T"))
         [] v = "mdot_in" -> SumOver(S, by("mdot"))
         [] v = "ndot_in" -> SumOver(S, by("ndot"))
         [] Head2(v) = "z_" -> part("z_", SubSeq(v, 3, Len(v)), "ndot")
         [] OTHER -> part("w_", SubSeq(v, 3, Len(v)), "mdot")
\* the totals over the outlets: the parameters of the only outlet
OutletVars(st, x) ==
    IF x.built = "uop" /\ Cardinality(x.outs) = 1
    THEN {"P", "T", "H", "ndot", "mdot"} \cup {"z_" \o n : n \in Rng(st.k[x.k].names)} \cup {"w_" \o n : n \in Rng(st.k[x.k].names)} ELSE {}
OutletIn(v) == IF v \in {"P", "T", "H", "ndot", "mdot"} THEN v \o "_in" ELSE v

\* every equation of an instance, by what it is about, and its residual at
\* the sample vals (variables of the instance by base name)
EqIds(st, n) ==
    LET x == st.x[n] IN
    {<<"b", v>> : v \in Rng(Pivots(x))} \cup {<<"t", v>> : v \in TotalVars(st, x)} \cup {<<"o", v>> : v \in OutletVars(st, x)}
Residual(st, n, vals, id) ==
    LET x == st.x[n]
        f == vals @@ ParVals(x)
    IN CASE id[1] = "b" -> RSub(G(f, id[2]), Balance(x, id[2], f))
         [] id[1] = "t" -> RSub(G(f, id[2]), Total(st, x, id[2]))
         [] OTHER -> RSub(PV(st, CHOOSE o \in x.outs : TRUE, id[2]), G(f, OutletIn(id[2])))
Residuals(st, n, vals) == [id \in EqIds(st, n) |-> Residual(st, n, vals, id)]
\* the names an equation of the instance may speak about
Names(st, n) ==
    LET x == st.x[n]
        others == Inlets(x) \cup (IF x.built = "uop" THEN x.outs ELSE {})
    IN {Q(v, n) : v \in VarNames(x.cls) \cup SpVars(x) \cup DOMAIN x.par \cup Rng(Pivots(x)) \cup TotalVars(st, x) \cup {"H_in", "P_in", "T_in"}}
       \cup {Q(a, s) : <<a, s>> \in UNION {(DOMAIN st.x[y].par) \X {y} : y \in others}}

(*------------------------------- flowsheets ------------------------------*)
TermOf(st, f, s, a) ==
    IF st.x[s].cls \in Streams THEN (IF a \in DOMAIN st.x[s].par /\ st.x[s].par[a].spec THEN st.x[s].par[a].val ELSE Undef)
    ELSE G(f, Q(a \o "_out", s))
RECURSIVE SumSeq(_, _)
SumSeq(l, i) == IF i > Len(l) THEN Zero ELSE RAdd(l[i], SumSeq(l, i + 1))
RECURSIVE MinSeq(_, _)
MinSeq(l, i) == IF i = Len(l) THEN l[i] ELSE RMin(l[i], MinSeq(l, i + 1))
FeedVal(st, f, fd) ==
    LET t == [i \in 1..Len(fd.ss) |-> TermOf(st, f, fd.ss[i], fd.a)]
        w == IF Head2(fd.a) = "w_" THEN "mdot" ELSE "ndot"
        n == [i \in 1..Len(fd.ss) |-> TermOf(st, f, fd.ss[i], w)]
    IN CASE fd.how = "var" -> t[1]
         [] fd.how = "num" -> RMul(fd.c, t[1])
         [] fd.how = "min" -> MinSeq(t, 1)
         [] fd.how = "sum" -> SumSeq(t, 1)
         [] OTHER -> RDiv(SumSeq([i \in 1..Len(t) |-> RMul(n[i], t[i])], 1), G(f, Q(w \o "_in", fd.u)))

Unknown(st, n) == IF st.x[n].cls = "Tank" THEN VarNames("Tank") \ {"t"}
                  ELSE VarNames(st.x[n].cls) \cup SpVars(st.x[n]) \cup Rng(Pivots(st.x[n])) \cup TotalVars(st, st.x[n]) \cup (IF st.x[n].built = "uop" /\ st.x[n].outs # {} THEN {"H_in"} ELSE {})
Unknowns(st, p) == UNION {{Q(v, n) : v \in Unknown(st, n)} : n \in Rng(st.p[p].ms)}
Targets(st, p) == [i \in 1..Len(st.p[p].feeds) |-> Q(st.p[p].feeds[i].v, st.p[p].feeds[i].u)]
\* as many equations as unknowns, each determining one of them
Determined(st, p) ==
    LET units == Rng(st.p[p].ms)
        fed == Targets(st, p)
        own(n) == {Q(v, n) : v \in Rng(Pivots(st.x[n])) \cup TotalVars(st, st.x[n]) \cup (IF st.x[n].cls = "Tank" THEN Holdups ELSE {})}
        all == UNION {own(n) : n \in units}
    IN /\ \A i, j \in 1..Len(fed) : i # j => fed[i] # fed[j]
       /\ \A i \in 1..Len(fed) : fed[i] \notin all
       /\ all \cup Rng(fed) = Unknowns(st, p)
       /\ \A n \in units : OutletVars(st, st.x[n]) = {}
\* fewer equations than unknowns
Short(st, p) == Cardinality(UNION {EqIds(st, n) \X {n} : n \in Rng(st.p[p].ms)}) + Len(st.p[p].feeds)
                + 4 * Cardinality({n \in Rng(st.p[p].ms) : st.x[n].cls = "Tank"}) < Cardinality(Unknowns(st, p))

\* (a value is evaluated before it is handed on)
Now(g) == DOMAIN g # {"?"}
RECURSIVE PutPivots(_, _, _, _)
PutPivots(st, n, f, i) ==
    IF ~Now(f) \/ i > Len(Pivots(st.x[n])) THEN f
    ELSE LET v == Pivots(st.x[n])[i]
             own == {w \in Unknown(st, n) : Q(w, n) \in DOMAIN f}
             g == [w \in own |-> f[Q(w, n)]] @@ ParVals(st.x[n])
             r == Balance(st.x[n], v, g)
         IN PutPivots(st, n, IF IsDef(r) THEN Put(f, Q(v, n), r) ELSE f, i + 1)
RECURSIVE PutFeeds(_, _, _, _)
PutFeeds(st, p, f, i) ==
    IF ~Now(f) \/ i > Len(st.p[p].feeds) THEN f
    ELSE LET fd == st.p[p].feeds[i]
             r == FeedVal(st, f, fd)
         IN PutFeeds(st, p, IF IsDef(r) THEN Put(f, Q(fd.v, fd.u), r) ELSE f, i + 1)
RECURSIVE PutUnits(_, _, _, _)
PutUnits(st, p, f, i) ==
    IF ~Now(f) \/ i > Len(st.p[p].ms) THEN f
    ELSE LET n == st.p[p].ms[i]
             tv == {v \in TotalVars(st, st.x[n]) : IsDef(Total(st, st.x[n], v))}
             g == [y \in {Q(v, n) : v \in tv} |-> Total(st, st.x[n], CHOOSE v \in tv : Q(v, n) = y)] @@ f
         IN PutUnits(st, p, PutPivots(st, n, g, 1), i + 1)
RECURSIVE Sweep(_, _, _, _)
Sweep(st, p, f, k) ==
    IF ~Now(f) \/ k = 0 THEN f
    ELSE LET g == PutFeeds(st, p, f, 1)
             h == PutFeeds(st, p, g, 1)
         IN Sweep(st, p, PutUnits(st, p, h, 1), k - 1)
Steady(st, p) == Sweep(st, p, EmptyFn, Len(st.p[p].ms) + 2)

(*------------------------------- operations ------------------------------*)
NewInst(st, ev) ==
    LET names == IF ev.k = "" THEN <<>> ELSE st.k[ev.k].names
        one == Len(names) = 1
    IN [cls |-> ev.cls, k |-> ev.k, sp |-> IF ev.cls \in {"Mixer", "Splitter", "SimplePump"} /\ Len(names) > 1 THEN names ELSE <<>>, der |-> "", dv |-> Zero, inp |-> EmptyFn, built |-> "", ins |-> {}, outs |-> {},
        par |-> [a \in ParNames(ev.cls, names) |->
                   IF a = "cp_mix" THEN [spec |-> TRUE, val |-> IF one THEN Cp(Lead(st, ev.k)) ELSE Undef]
                   ELSE IF ev.cls = "MaterialStream" /\ one /\ Head2(a) \in {"z_", "w_"} THEN [spec |-> TRUE, val |-> One]
                   ELSE [spec |-> FALSE, val |-> Zero]]]

\* the molar mass of a stream of several species, from its composition
MixKg(st, x) ==
    LET names == st.k[x.k].names
        of(kind) == [i \in 1..Len(names) |-> IF (kind \o names[i]) \in DOMAIN x.par /\ x.par[kind \o names[i]].spec THEN x.par[kind \o names[i]].val ELSE Undef]
        all(l) == \A i \in 1..Len(l) : IsDef(l[i])
        z == of("z_")
        w == of("w_")
        byz == SumL([i \in 1..Len(names) |-> RMul(z[i], Bank[names[i]].kg)], 1)
        byw == RDiv(One, SumL([i \in 1..Len(names) |-> RDiv(w[i], Bank[names[i]].kg)], 1))
    IN CASE all(z) /\ SumL(z, 1) # One -> Undef
         [] all(w) /\ SumL(w, 1) # One -> Undef
         \* (stated twice, differently: nothing is claimed)
         [] all(z) /\ all(w) -> IF byz = byw THEN byz ELSE Undef
         [] all(z) -> byz
         [] all(w) -> byw
         [] OTHER -> Undef
KgOf(st, x) == IF Single(st, x.k) THEN Kg(Lead(st, x.k)) ELSE MixKg(st, x)
\* one flux of a stream from the other one, through the molar mass
Flux(st, n) ==
    LET x == st.x[n]
        kg == KgOf(st, x)
        md == x.par["mdot"]
        nd == x.par["ndot"]
        \* whether the value is still the calculated one is not known here
        unsure == x.der # "" /\ md.spec /\ nd.spec /\ ~(IsDef(x.dv) /\ IsDef(x.par[x.der].val))
    IN IF x.k = "" THEN x
       ELSE IF unsure THEN [x EXCEPT !.par = Put(Put(@, "mdot", [spec |-> TRUE, val |-> Undef]), "ndot", [spec |-> TRUE, val |-> Undef]), !.dv = Undef]
       ELSE IF md.spec /\ (~nd.spec \/ (x.der = "ndot" /\ nd.val = x.dv))
            THEN [x EXCEPT !.par = Put(@, "ndot", [spec |-> TRUE, val |-> RDiv(md.val, kg)]), !.der = "ndot", !.dv = RDiv(md.val, kg)]
       ELSE IF nd.spec /\ (~md.spec \/ (x.der = "mdot" /\ md.val = x.dv))
            THEN [x EXCEPT !.par = Put(@, "mdot", [spec |-> TRUE, val |-> RMul(nd.val, kg)]), !.der = "mdot", !.dv = RMul(nd.val, kg)]
       ELSE [x EXCEPT !.der = ""]
CallStream(st, n) ==
    LET s1 == [st EXCEPT !.x = Put(@, n, [Flux(st, n) EXCEPT !.built = "call"])]
        t == st.x[n].par["T"]
        p == st.x[n].par["P"]
    IN IF st.x[n].k = "" \/ ~(t.spec \/ p.spec) THEN s1
       ELSE Calc(s1, st.x[n].k, IF t.spec THEN t.val ELSE <<>>, IF p.spec THEN p.val ELSE <<>>)
\* the equations of a unit use the density the package has then
WithRho(st, x) ==
    IF x.cls \in {"Valve", "Tank"}
    THEN [x EXCEPT !.par = Put(@, "mix_rho", [spec |-> TRUE, val |-> IF Single(st, x.k) THEN Rho(Lead(st, x.k)) ELSE Undef])]
    ELSE x
Build(st, n, how, ins, outs) == [st EXCEPT !.x = Put(@, n, [WithRho(st, st.x[n]) EXCEPT !.built = how, !.ins = ins, !.outs = outs])]

\* the union of the packages of the inlets is a package of the unit itself
RECURSIVE AddAll(_, _, _, _)
AddAll(st, pk, l, i) == IF i > Len(l) THEN pk ELSE AddAll(st, AddPkg(pk, st.k[st.x[l[i]].k]), l, i + 1)
RECURSIVE CatSeq(_, _)
CatSeq(order, inp) == IF order = <<>> THEN <<>> ELSE inp[order[1]] \o CatSeq(SubSeq(order, 2, Len(order)), inp)
Mixed(st, n, l) ==
    LET pk == AddAll(st, st.k[st.x[n].k], l, 1)
        S == Rng(l)
        by == [s \in S |-> PV(st, s, "ndot")]
        z(q) == RDiv(SumOver(S, [s \in S |-> RMul(Frac(st, s, "z_", q), by[s])]), SumOver(S, by))
        zs == [i \in 1..Len(pk.names) |-> z(pk.names[i])]
        low(a) == MinOver(S, [s \in S |-> PV(st, s, a)])
    IN [pk EXCEPT !.at = <<low("T"), low("P")>>,
                  !.zs = IF (\A i \in 1..Len(zs) : IsExact(zs[i])) /\ SumSeq(zs, 1) = One THEN zs ELSE <<>>]

SetPort(inp, order, port, ss, add) == Put(inp, port, Uniq((IF add /\ port \in DOMAIN inp THEN inp[port] ELSE <<>>) \o ss))
SetOrder(order, port) == IF port \in Rng(order) THEN order ELSE Append(order, port)

Do(st, ev) ==
    CASE ev.op = "pkg" ->
           [st EXCEPT !.c = [i \in {Q(ev.k, n) : n \in Rng(ev.names)} |-> [n |-> CHOOSE n \in Rng(ev.names) : Q(ev.k, n) = i, t |-> T0, p |-> P0]] @@ @,
                      !.k = Put(@, ev.k, [names |-> ev.names, ch |-> [n \in Rng(ev.names) |-> Q(ev.k, n)], zs |-> <<>>, at |-> <<>>, T |-> <<5963, 20>>, P |-> Undef])]
      [] ev.op = "pkadd" -> [st EXCEPT !.k = Put(@, ev.k, AddPkg(@[ev.k], @[ev.k2]))]
      [] ev.op = "calc" -> Calc(st, ev.k, ev.T, ev.P)
      [] ev.op = "mix" -> [st EXCEPT !.k = Put(@, ev.k, MixPkg(@[ev.k], ev))]
      [] ev.op = "pset" -> [st EXCEPT !.k = Put(@, ev.k, IF ev.a = "T" THEN [@[ev.k] EXCEPT !.T = ev.v] ELSE [@[ev.k] EXCEPT !.P = ev.v])]
      [] ev.op = "mk" -> [st EXCEPT !.x = Put(@, ev.x, NewInst(st, ev))]
      [] ev.op = "set" ->
           [st EXCEPT !.x = Put(@, ev.x, [@[ev.x] EXCEPT !.par = Put(@, ev.a, [spec |-> TRUE, val |-> ev.v])])]
      [] ev.op = "call" -> IF st.x[ev.x].cls \in Streams THEN CallStream(st, ev.x) ELSE Build(st, ev.x, "call", {}, {})
      [] ev.op = "mkuop" -> [st EXCEPT !.u = Put(@, ev.u, [m |-> ev.m, inp |-> EmptyFn, outp |-> EmptyFn, iord |-> <<>>])]
      [] ev.op = "inl" ->
           IF ev.x \in DOMAIN st.x THEN [st EXCEPT !.x = Put(@, ev.x, [@[ev.x] EXCEPT !.inp = SetPort(@, <<>>, ev.port, ev.ss, TRUE)])]
           ELSE [st EXCEPT !.u = Put(@, ev.x, [@[ev.x] EXCEPT !.inp = SetPort(@, <<>>, ev.port, ev.ss, FALSE), !.iord = SetOrder(@, ev.port)])]
      [] ev.op = "outl" -> [st EXCEPT !.u = Put(@, ev.x, [@[ev.x] EXCEPT !.outp = SetPort(@, <<>>, ev.port, ev.ss, FALSE)])]
      [] ev.op = "ures" ->
           LET u == st.u[ev.u]
               l == Uniq(CatSeq(u.iord, u.inp))
               s1 == IF l = <<>> THEN st
                     ELSE LET id == "of " \o u.m IN [st EXCEPT !.k = Put(@, id, Mixed(st, u.m, l)), !.x = Put(@, u.m, [@[u.m] EXCEPT !.k = id])]
               s2 == Build(s1, u.m, "uop", Rng(l), All(u.outp))
           \* the only outlet carries what the unit has
           IN [s2 EXCEPT !.x = [n \in DOMAIN @ |-> IF Cardinality(All(u.outp)) = 1 /\ n \in All(u.outp) THEN [@[n] EXCEPT !.k = s2.x[u.m].k] ELSE @[n]]]
      [] ev.op = "prob" -> [st EXCEPT !.p = Put(@, ev.p, [ms |-> ev.ms, feeds |-> <<>>])]
      \* resolving a problem declares the equations of its units again
      [] ev.op \in {"psolve", "tsolve"} -> [st EXCEPT !.x = [n \in DOMAIN @ |-> IF n \in Rng(st.p[ev.p].ms) THEN WithRho(st, @[n]) ELSE @[n]]]
      [] ev.op = "feed" -> [st EXCEPT !.p = Put(@, ev.p, [@[ev.p] EXCEPT !.feeds = Append(@, ev)])]
      [] OTHER -> st

(*------------------------------- invariants ------------------------------*)
Shaped(st) ==
    /\ \A k \in DOMAIN st.k : /\ DOMAIN st.k[k].ch = Rng(st.k[k].names)
                              /\ \A n \in DOMAIN st.k[k].ch : st.k[k].ch[n] \in DOMAIN st.c /\ st.c[st.k[k].ch[n]].n = n
                              /\ st.k[k].names = Uniq(st.k[k].names)
    /\ \A n \in DOMAIN st.x : st.x[n].k = "" \/ st.x[n].k \in DOMAIN st.k
    /\ \A u \in DOMAIN st.u : st.u[u].m \in DOMAIN st.x /\ Rng(st.u[u].iord) = DOMAIN st.u[u].inp
\* a flux which was calculated is the one the molar mass gives
FluxLaw(st) ==
    \A n \in DOMAIN st.x :
        (st.x[n].cls \in Streams /\ st.x[n].der # "" /\ st.x[n].par[st.x[n].der].val = st.x[n].dv /\ st.x[n].built = "call" /\ Single(st, st.x[n].k)) =>
            LET a == st.x[n].par["mdot"].val  b == st.x[n].par["ndot"].val
            IN IsDef(a) /\ IsDef(b) => a = RMul(b, Kg(Lead(st, st.x[n].k)))
\* compositions are fractions of a whole, and the masses of a mixture give
\* back its moles
Compositions(st) ==
    \A k \in DOMAIN st.k : st.k[k].zs # <<>> =>
        LET zs == st.k[k].zs
            ws == ToMass(st.k[k].names, zs)
        IN /\ Len(zs) = Len(st.k[k].names) /\ SumL(zs, 1) = One
           /\ (\A i \in 1..Len(ws) : IsExact(ws[i])) => SumL(ws, 1) = One /\ ToMolar(st.k[k].names, ws) = zs
=============================================================================

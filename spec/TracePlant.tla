------------------------------ MODULE TracePlant ----------------------------
(***************************************************************************)
(* Validation of recorded executions of the real library against Plant.    *)
(* After every event the driver dumps the ports and inlets of every        *)
(* instance, the parameters of every instance, and every package.          *)
(***************************************************************************)
EXTENDS Plant, TraceBase

VARIABLES ti, ei, st, dirty, bad
vars == <<ti, ei, st, dirty, bad>>

Near(a, s) ==
    IF ~IsDef(a) THEN TRUE
    ELSE IF IAbs(s) > 1500000000 THEN FALSE
    ELSE IAbs(Fix(a) - s) <= 3 + IAbs(s) \div 300000
Obs(a, o) == ~IsDef(a) \/ (o[1] = a[1] /\ o[2] = a[2]) \/ (o[2] = 0 /\ Near(a, o[3]))
DimsOk(x, o) == \A b \in Base : o[b][1] = x[b][1] /\ o[b][2] = x[b][2]

(*-------------------------------- the dump -------------------------------*)
\* ports as seen: each with its streams, each once
PortDev(inp, o) ==
    \/ {o[i][1] : i \in 1..Len(o)} # DOMAIN inp
    \/ \E i \in 1..Len(o) : o[i][1] \in DOMAIN inp /\ Rng(o[i][2]) # Rng(inp[o[i][1]])
ListDev(inp, l) == l # <<"-">> /\ (Rng(l) # All(inp) \/ Len(l) # Cardinality(All(inp)))

PkgDev(st0, pk, o0) ==
    LET o == o0[1]  at == o0[2] IN
    {c \in {"names", "rho", "cp", "mass", "composition", "mixture"} :
        CASE c = "names" -> {o[i][1] : i \in 1..Len(o)} # Rng(pk.names) \/ Len(o) # Len(pk.names)
          [] c = "rho" -> \E i \in 1..Len(o) : o[i][1] \in Rng(pk.names) /\ ~Obs(Rho(st0.c[pk.ch[o[i][1]]]), o[i][2])
          [] c = "cp" -> \E i \in 1..Len(o) : o[i][1] \in Rng(pk.names) /\ ~Obs(Cp(st0.c[pk.ch[o[i][1]]]), o[i][3])
          [] c = "mass" -> \E i \in 1..Len(o) : o[i][1] \in Rng(pk.names) /\ ~Obs(Kg(st0.c[pk.ch[o[i][1]]]), o[i][4])
          \* the mixture of the inlets is at their totals
          [] c = "mixture" -> pk.at # <<>> /\ (at = <<>> \/ ~Obs(pk.at[1], at[1]) \/ ~Obs(pk.at[2], at[2]))
          [] c = "composition" -> /\ pk.zs # <<>>
                                  /\ \E i \in 1..Len(o) : \/ o[i][5] = <<>>
                                                          \/ \E j \in 1..Len(pk.names) : /\ pk.names[j] = o[i][1]
                                                                                          /\ \/ ~Obs(pk.zs[j], o[i][5])
                                                                                             \/ o[i][6] # <<>> /\ ~Obs(ToMass(pk.names, pk.zs)[j], o[i][6])}

InstDev(s, n, o) ==
    LET x == s.x[n] IN
    {<<"i", n, c>> : c \in {d \in {"ports", "inlets", "outlets"} :
        CASE d = "ports" -> PortDev(x.inp, o.inp)
          [] d = "inlets" -> ListDev(x.inp, o.inl)
          [] d = "outlets" -> o.outp # <<>>}}
    \cup {<<"v", n, a>> : a \in {b \in DOMAIN x.par : b \notin DOMAIN o.pars \/ ~Obs(x.par[b].val, SubSeq(o.pars[b], 2, 4))}}
    \cup {<<"s", n, a>> : a \in {b \in DOMAIN x.par \cap DOMAIN o.pars : (o.pars[b][1] = 1) # x.par[b].spec}}
    \cup (IF x.k = "" \/ o.pk = <<>> THEN {} ELSE {<<"k", n, c>> : c \in PkgDev(s, s.k[x.k], o.pk)})
UopDev(s, u, o) ==
    {<<"u", u, c>> : c \in {d \in {"ports", "inlets", "outports", "outlets"} :
        CASE d = "ports" -> PortDev(s.u[u].inp, o.inp)
          [] d = "inlets" -> ListDev(s.u[u].inp, o.inl)
          [] d = "outports" -> PortDev(s.u[u].outp, o.outp)
          [] d = "outlets" -> ListDev(s.u[u].outp, o.outl)}}
Deviations(s, o) ==
    UNION {InstDev(s, n, o.insts[n]) : n \in DOMAIN s.x \cap DOMAIN o.insts}
    \cup UNION {UopDev(s, u, o.uops[u]) : u \in DOMAIN s.u \cap DOMAIN o.uops}
    \cup UNION {{<<"p", k, c>> : c \in PkgDev(s, s.k[k], o.pks[k])} : k \in DOMAIN s.k \cap DOMAIN o.pks}

\* what an event is about
About(s, ev) ==
    CASE ev.op \in {"mk", "set", "call", "inl", "outl", "eqs"} -> {ev.x}
      [] ev.op \in {"mkuop", "ures"} -> {ev.u} \cup (IF ev.u \in DOMAIN s.u THEN {s.u[ev.u].m} ELSE {})
      [] ev.op \in {"pkg", "pkadd", "calc", "mix", "pset"} -> {ev.k}
      [] ev.op \in {"psolve", "tsolve"} -> Rng(s.p[ev.p].ms)
      [] OTHER -> {}
Blame(s, ev, x) ==
    LET mine == x[2] \in About(s, ev) IN
    CASE x[1] \in {"i", "u"} -> "C20." \o (IF mine THEN x[3] ELSE "other_" \o x[3])
      [] x[1] \in {"k", "p"} /\ ev.op \in {"mix", "pset"} -> IF mine THEN "C18.package_" \o x[3] ELSE "C18+C20.other_package_" \o x[3]
      [] x[1] \in {"k", "p"} /\ x[3] \in {"composition", "mixture"} -> "C18+C20." \o (IF mine THEN "package_" ELSE "other_package_") \o x[3]
      [] x[1] \in {"k", "p"} /\ x[3] = "names" -> "C20." \o (IF mine THEN "package_" ELSE "other_package_") \o x[3]
      [] x[1] \in {"k", "p"} -> "C18.package_" \o x[3]
      [] OTHER -> IF mine THEN "C18.parameter_" \o x[3] ELSE "C18+C20.other_" \o x[3]

(*-------------------------------- events ---------------------------------*)
MkClauses(s, ev) ==
    LET o == ev.o
        names == IF ev.k = "" THEN <<>> ELSE s.k[ev.k].names
        x == NewInst(s, ev)
        vs == VarNames(ev.cls) \cup SpVars(x)
        ins == Inputs(ev.cls) \cup {InOf(k, q) : k \in Parts, q \in Rng(x.sp)}
        outs == Outputs(ev.cls) \cup {OutOf(k, q) : k \in Parts, q \in Rng(x.sp)}
        known == vs \cup ParNames(ev.cls, names)
        decl == {o.decl[i][1] : i \in 1..Len(o.decl)}
    IN IF ~ev.show \/ (Len(names) > 1 /\ x.sp = <<>> /\ ev.cls \notin Streams) THEN {}
       ELSE (IF known \ decl # {} THEN {"C18.declared"} ELSE {})
            \cup (IF \E i \in 1..Len(o.decl) : o.decl[i][1] \in known /\ ~DimsOk(Kind(o.decl[i][1]), o.decl[i][2]) THEN {"C18.units"} ELSE {})
            \cup (IF /\ Rng(o.exp[1]) \cap vs = ins
                     /\ Rng(o.exp[2]) \cap vs = outs THEN {} ELSE {"C18.exposed"})

EqClauses(s, ev) ==
    LET o == ev.o
        x == s.x[ev.x]
        r == Residuals(s, ev.x, ev.vals)
        T == DOMAIN r
        tot == {id \in T : id[1] # "b"}
        P == IF tot = {} THEN "C18." ELSE "C18+C20."
        off == {id \in T : r[id] # Zero}
    IN (IF Len(o.zero) # Cardinality(T) \/ o.ndiff # (IF x.cls = "Tank" THEN 4 ELSE 0) THEN {P \o "count"} ELSE {})
       \cup (IF Rng(o.refs) \subseteq Names(s, ev.x) \/ ~SpecAll(s, Inlets(x), {"P", "T"}) THEN {} ELSE {P \o "refers"})
       \cup (IF \E id \in T : ~IsExact(r[id]) THEN {}
             ELSE IF off = {} THEN (IF \E i \in 1..Len(o.zero) : o.zero[i] # 0 THEN {P \o "balance"} ELSE {})
             ELSE IF \A i \in 1..Len(o.zero) : o.zero[i] = 0
                  THEN {(IF off \subseteq tot THEN "C18+C20.total_" ELSE IF off \cap tot = {} THEN "C18.missing_" ELSE "C18+C20.missing_")
                        \o (CHOOSE id \in off : TRUE)[2]} ELSE {})

SolveClauses(s, ev) ==
    LET o == ev.o
        det == Determined(s, ev.p)
        f == Steady(s, ev.p)
        P == IF \E n \in Rng(s.p[ev.p].ms) : TotalVars(s, s.x[n]) # {} THEN "C18+C20." ELSE "C18."
        known == det /\ DOMAIN f = Unknowns(s, ev.p) /\ \A n \in DOMAIN f : IsExact(f[n])
    IN IF o.ok THEN (IF Short(s, ev.p) THEN {"C18.accepted"} ELSE {})
                    \cup (IF known /\ \/ {o.sol[i][1] : i \in 1..Len(o.sol)} # DOMAIN f
                                      \/ \E i \in 1..Len(o.sol) : o.sol[i][1] \in DOMAIN f /\ ~Near(f[o.sol[i][1]], o.sol[i][2][3])
                          THEN {P \o "solution"} ELSE {})
       ELSE IF known /\ ev.sure /\ o.exc # "Timeout" THEN {P \o "unsolved"} ELSE {}

TankClauses(s, ev) ==
    LET o == ev.o
        u == ev.u
        x == s.x[u]
        det == Determined(s, ev.p) /\ s.p[ev.p].ms = <<u>>
        f == Steady(s, ev.p)
        vals == [v \in {w \in VarNames("Tank") : Q(w, u) \in DOMAIN f} |-> f[Q(v, u)]] @@ ParVals(x)
        sl == [v \in VarNames("Tank") |-> IF v \in Holdups THEN Slope(v, vals) ELSE Zero]
        at0(v) == IF v \in Holdups THEN ev.ic[v] ELSE G(vals, v)
        col(i) == o.rows[i][1]
        base == [y \in {Q(v, u) : v \in VarNames("Tank")} |-> CHOOSE v \in VarNames("Tank") : Q(v, u) = y]
        known == \A v \in VarNames("Tank") \ {"t"} : IsExact(at0(v)) /\ IsExact(sl[v])
    IN IF ~det \/ ~known THEN {}
       ELSE IF ~o.ok THEN (IF o.exc = "Timeout" THEN {} ELSE {"C18.tank_failed"})
       ELSE (IF Len(o.t) < 2 \/ o.t[1] # Zero \/ o.t[Len(o.t)] # ev.end THEN {"C18.tank_grid"} ELSE {})
            \cup {"C18.tank_" \o base[col(i)] :
                    i \in {j \in 1..Len(o.rows) : /\ col(j) \in DOMAIN base /\ base[col(j)] # "t"
                                                  /\ \E k \in 1..Len(o.t) : o.t[k][2] > 0 /\ ~Near(RAdd(at0(base[col(j)]), RMul(sl[base[col(j)]], o.t[k])), o.rows[j][2][k])}}
            \cup (IF {Q(v, u) : v \in Holdups} \subseteq {col(i) : i \in 1..Len(o.rows)} THEN {} ELSE {"C18.tank_columns"})

OpClauses(s, ev) ==
    LET o == ev.o IN
    CASE ev.op = "mk" -> IF o.ok THEN MkClauses(s, ev) ELSE {"C18.failed_mk"}
      [] ev.op = "eqs" -> IF o.ok THEN EqClauses(s, ev) ELSE {"C18.failed_eqs"}
      [] ev.op = "psolve" -> SolveClauses(Do(s, ev), ev)
      [] ev.op = "tsolve" -> TankClauses(Do(s, ev), ev)
      [] ev.op \in {"inl", "outl", "mkuop", "pkadd"} -> IF o.ok THEN {} ELSE {"C20.failed_" \o ev.op}
      [] ev.op = "ures" -> IF o.ok THEN {} ELSE {"C18+C20.failed_ures"}
      [] OTHER -> IF o.ok THEN {} ELSE {"C18.failed_" \o ev.op}

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ st = Init0 /\ dirty = {} /\ bad = {}
Next ==
    /\ ei <= Len(Traces[ti])
    /\ LET ev == Traces[ti][ei]
           s2 == Do(st, ev)
           dv == Deviations(s2, ev.o)
           b2 == bad \cup {<<ei, c>> : c \in OpClauses(st, ev) \cup {Blame(s2, ev, x) : x \in dv \ dirty}}
       IN /\ st' = s2
          /\ dirty' = dv
          /\ bad' = b2
          /\ ei' = ei + 1
          /\ ti' = ti
          /\ (ei = Len(Traces[ti])) => Verdict(ti, b2)
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE TraceKernel ----------------------------
(***************************************************************************)
(* Validation of recorded executions of the real library against Kernel.   *)
(* A trace is a sequence of events; each event carries its arguments and   *)
(* under "o" what the real code did. The specification takes the same      *)
(* step and every observation is compared; what differs is collected in    *)
(* bad as <<event number, clause>>, the clause naming the properties it    *)
(* decides. The specification state never depends on the observation       *)
(* (except that a singular computation may be refused).                    *)
(***************************************************************************)
EXTENDS Kernel, TraceBase

VARIABLES ti, ei, st, bad
vars == <<ti, ei, st, bad>>

ToSetS(s) == {s[i] : i \in 1..Len(s)}

\* observed exponents: record base -> <<n, d>>
DimsMatch(d, o) == DOk(d) => \A b \in Base : d[b] = <<o[b][1], o[b][2]>>

(*-------------- comparison of one re-observed object ---------------------*)
UClauses(d, o) ==
    {c \in {"C01.dims", "C01.text"} :
        CASE c = "C01.dims" -> ~DimsMatch(d, o.dims)
          [] c = "C01.text" -> ~DimsMatch(d, o.str)}

QClauses(q, o) ==
    {c \in {"C06.unit", "C06.value", "C06.specified", "C06.name"} :
        CASE c = "C06.unit" -> ~DimsMatch(q.dims, o.dims)
          [] c = "C06.value" -> ~Matches(q.val, o.val)
          [] c = "C06.specified" -> q.spec # o.spec
          [] c = "C06.name" -> q.name # "" /\ q.name # o.name}

ValsMatch(vs, os) == \A k \in 1..Len(os) : Matches(vs[k], os[k])

NClauses(n, o) ==
    {c \in {"C02.unit", "C03.value", "C03.symbolic", "C04.references", "C04.unknowns", "C04.symbols", "C05.class"} :
        CASE c = "C02.unit" -> ~DimsMatch(n.dims, o.dims)
          [] c = "C03.value" -> ~ValsMatch(n.vs, o.vals)
          [] c = "C03.symbolic" -> ~ValsMatch(n.vr, o.rvals)
          [] c = "C04.references" -> ToSetS(o.refs) # n.refs
          [] c = "C04.unknowns" -> ToSetS(o.unk) # n.unk
          [] c = "C04.symbols" -> ~(ToSetS(o.fs) \subseteq n.unk \cup n.inv)
                                   \/ ~(ToSetS(o.rfs) \subseteq n.refs \cup n.inv)
          [] c = "C05.class" -> ~ClassOk(n, o.cls)}

EClauses(e, o) ==
    {c \in {"C19.residual", "C19.function", "C19.sides", "C19.form", "C19.objects", "C05.class", "C19.current"} :
        CASE c = "C19.residual" -> ~ValsMatch(e.node.vs, o.vals)
          [] c = "C19.function" -> ~ValsMatch(e.node.vs, o.fvals)
          [] c = "C19.current" -> \E i \in 1..Len(o.cur) : ~Matches(e.node.vs[3], o.cur[i])
          [] c = "C19.sides" -> e.two /\ ~(ValsMatch(e.lhs.vs, o.lhs) /\ ValsMatch(e.rhs.vs, o.rhs)
                                            /\ ValsMatch(e.lhs.vs, o.flhs) /\ ValsMatch(e.rhs.vs, o.frhs)
                                            /\ ValsMatch(e.rhs.vs, o.call))
          [] c = "C19.form" -> e.form # o.form
          [] c = "C19.objects" -> ToSetS(o.objs) # e.node.refs
          [] c = "C05.class" -> ~ClassOk(e.node, o.cls)}

\* the re-observed operands (post state): nothing but the target may change
RestClauses(s, rest) ==
    UNION {
      LET o == rest[i] IN
      CASE o.k = "u" -> IF o.h \in DOMAIN s.u THEN {Pre("purity", c) : c \in UClauses(s.u[o.h], o)} ELSE {}
        [] o.k = "t" -> {Pre("predefined", c) : c \in UClauses(Template[o.h], o)}
        [] o.k = "q" -> IF o.h \in DOMAIN s.q THEN {Pre("purity", c) : c \in QClauses(s.q[o.h], o)} ELSE {}
        [] o.k = "n" -> IF o.h \in DOMAIN s.n THEN {"C04.purity." \o c : c \in NClauses(s.n[o.h], o)} ELSE {}
        [] o.k = "e" -> IF o.h \in DOMAIN s.e THEN {Pre("purity", c) : c \in EClauses(s.e[o.h], o)} ELSE {}
        [] OTHER -> {"HARNESS.rest"}
      : i \in 1..Len(rest)}

OpTag(op) ==
    CASE op \in UnitOps -> "C01"
      [] op \in {"q_new", "q_set", "q_arith", "q_dom"} -> "C06"
      [] op \in NodeOps -> "C02+C03"
      [] OTHER -> "C19"

\* are all objects the event refers to there in the specification state?
Ready(s, ev) ==
    /\ \A f \in {"a", "b"} : f \in DOMAIN ev =>
          IF ev.op \in UnitOps THEN ev[f] \in DOMAIN s.u
          ELSE IF ev.op = "q_arith" THEN ev[f] \in DOMAIN s.q
          ELSE ev[f] \in DOMAIN s.n
    /\ "u" \in DOMAIN ev => ev.u \in DOMAIN s.u
    /\ "src" \in DOMAIN ev => ev.src \in DOMAIN s.q
    /\ "q" \in DOMAIN ev => ev.q \in DOMAIN s.q
    /\ "t" \in DOMAIN ev => ev.t \in DOMAIN s.q
    /\ ev.op = "e_conv" => ev.h \in DOMAIN s.e
    /\ ev.op \in {"q_set", "q_dom"} => ev.h \in DOMAIN s.q
    /\ "args" \in DOMAIN ev => \A i \in MMNodes(s, ev) : ev.args[i].a \in DOMAIN s.n

\* an operation the model cannot predict: no real result anywhere
MayFail(s, ev) ==
    CASE ev.op \in NodeOps -> Singular(NodeRes(s, ev))
      [] ev.op = "q_arith" -> ~IsDef(ArithRes(s, ev).val)
      [] ev.op = "e_new" -> Singular(EqRes(s, ev).node)
      [] OTHER -> FALSE

NewClauses(s2, ev) ==
    CASE ev.op \notin {"e_new", "e_conv", "obs_all"} /\ ev.h \notin DOMAIN s2.u \cup DOMAIN s2.q \cup DOMAIN s2.n -> {}
      [] ev.op = "u_num" -> QClauses(s2.q[ev.h], ev.o.res) \cup {"C01.numeric." \o c : c \in QClauses(s2.q[ev.h], ev.o.res)}
      [] ev.op \in UnitOps -> UClauses(s2.u[ev.h], ev.o.res)
      [] ev.op \in {"q_new", "q_set", "q_dom", "q_arith"} -> QClauses(s2.q[ev.h], ev.o.res)
      [] ev.op \in NodeOps -> NClauses(s2.n[ev.h], ev.o.res)
      [] ev.op \in {"e_new", "e_conv"} -> EClauses(s2.e[ev.h], ev.o.res)
      [] OTHER -> {}

Clauses(s, ev) ==
    IF ev.o.skip \/ ~Ready(s, ev) THEN {}
    ELSE IF Fails(s, ev) THEN
        (IF ev.o.ok THEN {OpTag(ev.op) \o ".accepted." \o ev.op}
         ELSE IF (ev.op \in {"u_add", "u_sub"} \/ (ev.op = "n_bin" /\ ev.f \in {"add", "sub"}))
                 /\ ev.o.exc # "DimensionalCoherenceError"
         THEN {OpTag(ev.op) \o ".wrongerror." \o ev.op}
         ELSE IF ~ev.o.said THEN {OpTag(ev.op) \o ".silenterror." \o ev.op} ELSE {})
        \cup RestClauses(s, ev.o.rest)
    ELSE IF ~ev.o.ok THEN
        (IF MayFail(s, ev) THEN {} ELSE {OpTag(ev.op) \o ".refused." \o ev.op}) \cup RestClauses(s, ev.o.rest)
    ELSE LET s2 == Do(s, ev) IN NewClauses(s2, ev) \cup RestClauses(s2, ev.o.rest)

\* an assignment from an object the specification does not follow leaves a
\* target it can no longer follow
Drop(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]

Step(s, ev) ==
    IF ev.o.skip THEN s
    ELSE IF ~Ready(s, ev) THEN
        (IF ev.op = "q_set" /\ ev.h \in DOMAIN s.q THEN [s EXCEPT !.q = Drop(@, ev.h)] ELSE s)
    ELSE IF ~Fails(s, ev) /\ ~ev.o.ok /\ MayFail(s, ev) THEN s
    ELSE Do(s, ev)

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ st = Init0 /\ bad = {}
Next ==
    /\ ei <= Len(Traces[ti])
    /\ LET ev == Traces[ti][ei]
           b2 == bad \cup {<<ei, c>> : c \in Clauses(st, ev)}
       IN /\ st' = Step(st, ev)
          /\ bad' = b2
          /\ ei' = ei + 1
          /\ ti' = ti
          /\ (ei = Len(Traces[ti])) => Verdict(ti, b2)
Spec == Init /\ [][Next]_vars
=============================================================================

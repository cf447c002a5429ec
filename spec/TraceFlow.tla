------------------------------ MODULE TraceFlow -----------------------------
(***************************************************************************)
(* Validation of recorded executions of the real library against Flow.     *)
(* After every event the driver dumps all models and all resolved          *)
(* problems; the specification takes the same step and compares. A         *)
(* deviation is attributed to the property of the operation which first    *)
(* showed it (dirty remembers what was reported).                          *)
(***************************************************************************)
EXTENDS Flow, TraceBase

VARIABLES ti, ei, st, dirty, bad
vars == <<ti, ei, st, dirty, bad>>

DimsMatch(d, o) == DOk(d) => \A b \in Base : d[b] = <<o[b][1], o[b][2]>>
ValsMatch(st1, e, o, sym) == \A k \in 1..Len(o) : Matches(IF sym THEN EValR(st1, e, k) ELSE EVal(st1, e, k), o[k])
NegMatch(st1, e, o) == \A k \in 1..Len(o) : Matches(RNeg(EVal(st1, e, k)), o[k])

\* the two sides at the samples, and all forms with the current values
SidesOk(s, e, o) ==
    IF ~e.two THEN o = <<>>
    ELSE Len(o) = 2 /\ \A i \in 1..2 : ValsMatch(s, [e EXCEPT !.two = FALSE, !.l = IF i = 1 THEN e.l ELSE e.r], o[i], FALSE)
CurOk(s, m, e, o) ==
    LET f == [n \in ENames(e) |-> IF n \in DOMAIN e.baked THEN e.baked[n] ELSE s.m[m].objs[n].val]
    IN (\A x \in ELeaves(e) : x[1] = m /\ Owned(s, x)) /\ ~EDiff(e) =>
       IF e.two THEN Len(o) = 3 /\ Matches(EEval(e, f), o[1]) /\ Matches(Ev(e.l, f), o[2]) /\ Matches(Ev(e.r, f), o[3])
       ELSE Len(o) = 1 /\ Matches(EEval(e, f), o[1])

\* where the objects an equation refers to must live; no claim about the
\* (replaced) objects of a model which declares them anew
RefsOk(s, m, e, refs) ==
    /\ {refs[i][1] : i \in 1..Len(refs)} = ENames(e)
    /\ \A i \in 1..Len(refs) : \E x \in ELeaves(e) :
          x[2] = refs[i][1] /\ (refs[i][2] = x[1] \/ (x[1] # m /\ s.m[x[1]].style = "declare"))

(*---------------------------- one model ----------------------------------*)
\* kinds of deviation of the dump o from the model m of state s
ModelDev(s, m, o) ==
    LET mm == s.m[m]
        onames == {o.objs[i].name : i \in 1..Len(o.objs)}
        eqn == {i \in 1..Len(o.eqs) : o.eqs[i].name \in DOMAIN mm.eqs}
        cnn == (1..Len(o.eqs)) \ eqn
        obj(i) == o.objs[i]
        good == {i \in 1..Len(o.objs) : obj(i).name \in DOMAIN mm.objs}
    IN {c \in {"objects", "kind", "unit", "value", "specified", "attribute", "owner", "description",
               "equations", "meaning", "symbolic", "references", "class", "sides", "current", "eqattribute", "form", "eqdescription",
               "connections", "conn_meaning", "conn_references", "exposed"} :
        CASE c = "objects" -> onames # DOMAIN mm.objs \/ Cardinality(onames) # Len(o.objs)
          [] c = "kind" -> \E i \in good : obj(i).kind # mm.objs[obj(i).name].kind
          [] c = "unit" -> \E i \in good : ~DimsMatch(Template[mm.objs[obj(i).name].unit], obj(i).dims)
          [] c = "value" -> \E i \in good : ~Matches(mm.objs[obj(i).name].val, obj(i).val)
          [] c = "specified" -> \E i \in good : mm.objs[obj(i).name].spec # obj(i).spec
          [] c = "attribute" -> \E i \in good : ~obj(i).attr
          [] c = "owner" -> \E i \in good : obj(i).owner # m
          [] c = "description" -> \E i \in good : obj(i).desc # mm.objs[obj(i).name].desc
          [] c = "equations" -> {o.eqs[i].name : i \in eqn} # DOMAIN mm.eqs \/ Cardinality(eqn) # Cardinality(DOMAIN mm.eqs)
          [] c = "meaning" -> \E i \in eqn : ~ValsMatch(s, mm.eqs[o.eqs[i].name], o.eqs[i].vals, FALSE)
          [] c = "symbolic" -> \E i \in eqn : ~ValsMatch(s, mm.eqs[o.eqs[i].name], o.eqs[i].rvals, TRUE)
          [] c = "sides" -> \E i \in eqn : ~SidesOk(s, mm.eqs[o.eqs[i].name], o.eqs[i].sides)
          [] c = "current" -> \E i \in eqn : ~CurOk(s, m, mm.eqs[o.eqs[i].name], o.eqs[i].cur)
          [] c = "references" -> \E i \in eqn : ~RefsOk(s, m, mm.eqs[o.eqs[i].name], o.eqs[i].refs)
          [] c = "class" -> \E i \in eqn : ~ClassOk(s, mm.eqs[o.eqs[i].name], o.eqs[i].cls)
          [] c = "eqattribute" -> \E i \in eqn : ~o.eqs[i].attr
          [] c = "form" -> \E i \in eqn : mm.eqs[o.eqs[i].name].two # (o.eqs[i].form = "elementary")
          [] c = "eqdescription" -> \E i \in eqn : mm.eqs[o.eqs[i].name].desc # o.eqs[i].desc
          [] c = "connections" -> Cardinality(cnn) # Cardinality(mm.conns)
          [] c = "conn_meaning" ->
                \/ \E i \in cnn : ~\E e \in mm.conns : ValsMatch(s, e, o.eqs[i].vals, FALSE) \/ NegMatch(s, e, o.eqs[i].vals)
                \/ \E e \in mm.conns : ~\E i \in cnn : ValsMatch(s, e, o.eqs[i].vals, FALSE) \/ NegMatch(s, e, o.eqs[i].vals)
          [] c = "conn_references" ->
                \E e \in mm.conns : ~\E i \in cnn : RefsOk(s, "", e, o.eqs[i].refs)
          [] c = "exposed" ->
                \E d \in {"input", "output"} :
                   LET l == o.exp[d]
                       want == {n \in DOMAIN mm.objs : mm.objs[n].kind = "Variable" /\ mm.objs[n].exp = d}
                   IN {l[i] : i \in 1..Len(l)} # want \/ Len(l) # Cardinality(want)}

\* the property a deviation of model m belongs to, given the event
Blame(ev, m, c) ==
    CASE ev.op = "exec" -> (IF m = ev.m THEN (CASE c \in {"meaning", "symbolic", "sides", "current"} -> "C07+C19."
                                                [] c = "class" -> "C05+C07."
                                                [] c = "form" -> "C07+C19."
                                                [] c \in {"connections", "conn_meaning", "conn_references"} -> "C09."
                                                [] OTHER -> "C07.") ELSE "C07+C20.other_")
      [] ev.op \in {"model", "edit"} -> (IF m = ev.m THEN "C07." ELSE "C07+C20.other_")
      [] ev.op = "setv" -> (IF c = "current" THEN "C19." ELSE "C06.other_")
      [] ev.op = "inc" -> (IF m = ev.into THEN "C08." ELSE "C08.source_")
      [] ev.op \in {"conn", "inconn"} -> (IF m = ev.m2 /\ c \in {"connections", "conn_meaning", "conn_references"} THEN "C09." ELSE "C09.other_")
      [] ev.op \in {"prob", "resolve"} -> "C10.model_"
      [] ev.op = "run" -> "C16.model_"
      [] OTHER -> "C21.changed_"

(*--------------------------- one problem ---------------------------------*)
ClassesOf(o) == {o.classes[i] : i \in 1..Len(o.classes)}

ProbDev(s, p, o) ==
    LET ms == Rng(s.p[p].models)
        pe == PEqs(s, ms)
        named == {x \in pe : x[2] # ""}
        conns == pe \ named
        names == {x[2] : x \in named}
        idx == {i \in 1..Len(o.names) : o.names[i] \in names}
        cix == (1..Len(o.names)) \ idx
        eqof(i) == (CHOOSE x \in named : x[2] = o.names[i])[3]
    IN IF ~Closed(s, ms) THEN {}
       ELSE {c \in {"equations", "connections", "meaning", "conn_meaning", "unknowns", "parameters", "type", "order"} :
        CASE c = "equations" -> {o.names[i] : i \in idx} # names \/ Cardinality(idx) # Cardinality(named)
          [] c = "connections" -> Cardinality(cix) # Cardinality(conns)
          [] c = "meaning" -> \E i \in idx : ~ValsMatch(s, eqof(i), o.vals[i], FALSE)
          [] c = "conn_meaning" ->
                \/ \E i \in cix : ~\E x \in conns : ValsMatch(s, x[3], o.vals[i], FALSE) \/ NegMatch(s, x[3], o.vals[i])
                \/ \E x \in conns : ~\E i \in cix : ValsMatch(s, x[3], o.vals[i], FALSE) \/ NegMatch(s, x[3], o.vals[i])
          [] c = "unknowns" -> {o.unknowns[i] : i \in 1..Len(o.unknowns)} # Unknowns(s, ms)
                               \/ Len(o.unknowns) # Cardinality(Unknowns(s, ms))
          [] c = "parameters" -> {o.params[i] : i \in 1..Len(o.params)} # NamesOf(s, ms, "Parameter")
          [] c = "type" -> o.type # ProblemType(ClassesOf(o))
          [] c = "order" -> Len(o.names) # Len(o.vals) \/ Len(o.names) # Len(o.classes)}

(*------------------------------- solving ---------------------------------*)
\* a reported value: exact when it is a small rational, else fixed point
RepExact(o) == IF o[2] > 0 THEN <<o[1], o[2]>> ELSE Undef
RepApprox(o) == IF IAbs(o[3]) <= 1000000 THEN <<o[3], -2>> ELSE Undef

ZeroIn(v, tol) == IF ~IsDef(v) THEN TRUE ELSE IF IsExact(v) THEN v = Zero ELSE IAbs(v[1]) <= (-v[2]) + tol

ResidualOk(e, vals) ==
    LET f(w(_)) == [n \in ENames(e) |-> IF n \in DOMAIN e.baked THEN e.baked[n]
                                        ELSE IF n \in DOMAIN vals THEN w(vals[n]) ELSE Undef]
        ex == EEval(e, f(RepExact))
    IN IF IsDef(ex) /\ ZeroIn(ex, 3) THEN TRUE ELSE ZeroIn(EEval(e, f(RepApprox)), 8)

\* the printed results: every unknown once, with its unit and its value
TableOk(s, ms, o, sol) ==
    /\ Len(o.tab) = Cardinality(DOMAIN sol)
    /\ {o.tab[i][1] : i \in 1..Len(o.tab)} = DOMAIN sol
    /\ \A i \in 1..Len(o.tab) :
          LET x == CHOOSE y \in PLeaves(s, ms) : y[2] = o.tab[i][1]
          IN /\ o.tab[i][3] = sol[o.tab[i][1]]
             /\ DimsMatch(Template[ObjOf(s, x).unit], o.tab[i][2])

\* the initial guess is a solution already (guess is empty: ones)
GuessSolves(s, ms, g) ==
    LET U == Unknowns(s, ms)
        at == [n \in U |-> IF \E i \in 1..Len(g) : g[i][1] = n THEN g[CHOOSE i \in 1..Len(g) : g[i][1] = n][2] ELSE One]
    IN /\ \E x \in PEqs(s, ms) : ~EAff(x[3], DOMAIN x[3].baked)
       /\ Len(g) = 0 \/ \A n \in U : \E i \in 1..Len(g) : g[i][1] = n
       /\ \A x \in PEqs(s, ms) :
             EEval(x[3], [n \in ENames(x[3]) |-> IF n \in DOMAIN x[3].baked THEN x[3].baked[n]
                                                  ELSE IF n \in U THEN at[n] ELSE Undef]) = Zero

Symbolic(s, ms, ev) == (IF \A x \in PEqs(s, ms) : EAff(x[3], DOMAIN x[3].baked) THEN ev.la ELSE ev.nla) = "sympy"

RunClauses(s, ev) ==
    LET ms == Rng(s.p[ev.p].models)
        o == ev.o
        sol == [n \in {o.sol[i][1] : i \in 1..Len(o.sol)} |-> o.sol[CHOOSE i \in 1..Len(o.sol) : o.sol[i][1] = n][2]]
        lin == LinSol(s, ms)
        fixedpc == Unspec(s, ms, {"Parameter", "Constant"}) = {}
        diff == \E x \in PEqs(s, ms) : EDiff(x[3])
    IN IF ~Closed(s, ms) \/ ~s.p[ev.p].resolved \/ diff \/ PEqs(s, ms) = {} THEN {}
       ELSE IF ~Square(s, ms) THEN
            (IF o.ok \/ o.started THEN {"C11.accepted"} ELSE {})
            \cup (IF ~o.ok /\ ~o.dof /\ ~o.started THEN {"C11.wrongerror"} ELSE {})
            \cup (IF o.dof /\ o.nums # <<NUnk(s, ms) - NEqs(s, ms), Cardinality(Unknowns(s, ms)),
                                         Cardinality(Unspec(s, ms, {"Parameter", "Constant"})), NEqs(s, ms)>>
                  THEN {"C11.counts"} ELSE {})
            \cup (IF o.dof /\ o.verdict # (IF NUnk(s, ms) > NEqs(s, ms) THEN "UNDER" ELSE "OVER") THEN {"C11.verdict"} ELSE {})
       ELSE IF ~o.ok THEN
            (IF o.dof \/ ~o.started THEN {"C11.refused"} ELSE {})
            \cup (IF o.started /\ fixedpc /\ DOMAIN lin # {} /\ ~o.timeout THEN {"C12+C16.unsolved"} ELSE {})
            \cup (IF o.started /\ fixedpc /\ ~o.timeout /\ ev.nla \in {"*", "symbolicsys"} /\ GuessSolves(s, ms, ev.guess)
                  THEN {"C12+C16.unsolved_at"} ELSE {})
       ELSE \* a result was reported
            \* (what is not determined at all may be left out by the symbolic solver)
            (IF \/ ~(DOMAIN sol \subseteq Unknowns(s, ms))
                \/ DOMAIN sol # Unknowns(s, ms) /\ ~(Symbolic(s, ms, ev) /\ DOMAIN lin = {})
                \/ Cardinality(DOMAIN sol) # Len(o.sol) THEN {"C12.names"} ELSE {})
            \cup (IF fixedpc /\ DOMAIN sol = Unknowns(s, ms) /\ \E x \in PEqs(s, ms) : ~ResidualOk(x[3], sol) THEN {"C12+C16.residual"} ELSE {})
            \cup (IF fixedpc /\ DOMAIN sol = Unknowns(s, ms) /\ \E n \in DOMAIN lin : ~(Matches(lin[n], <<sol[n][1], sol[n][2], sol[n][3]>>)
                                                     \/ (IsExact(lin[n]) /\ IAbs(Fix(lin[n]) - sol[n][3]) <= 3))
                  THEN {"C12+C16.unique"} ELSE {})
            \cup (IF o.views THEN {} ELSE {"C12+C21.views"})
            \cup (IF ~o.table \/ (DOMAIN sol = Unknowns(s, ms) /\ ~TableOk(s, ms, o, sol)) THEN {"C21.table"} ELSE {})
            \* every equation once, with its residual at the solution
            \cup (IF ev.show /\ fixedpc /\ DOMAIN sol = Unknowns(s, ms)
                      /\ \/ [i \in 1..Len(o.res) |-> o.res[i][1]] # o.probs[ev.p].names
                         \/ \E i \in 1..Len(o.res) : IAbs(o.res[i][2][3]) > 10
                  THEN {"C21.residuals"} ELSE {})
            \cup (IF o.earlier THEN {} ELSE {"C16.earlier"})
            \cup (IF o.status THEN {} ELSE {"C12.status"})

(*------------------------------- reports ---------------------------------*)
KindNames(s, e, kinds) == {x[2] : x \in {y \in ELeaves(e) : Owned(s, y) /\ ObjOf(s, y).kind \in kinds}}
Starred(s, e, kinds) == {x[2] : x \in {y \in ELeaves(e) : Owned(s, y) /\ ObjOf(s, y).kind \in kinds /\ ObjOf(s, y).spec}}
RowsOf(rep) == 1..Len(rep)
ReportDev(s, m, rep) ==
    LET mm == s.m[m]
        nm == {i \in RowsOf(rep) : rep[i].name \in DOMAIN mm.eqs}
    IN {c \in {"rows", "variables", "parameters", "constants", "type", "description", "representation"} :
        CASE c = "rows" -> Cardinality(nm) # Cardinality(DOMAIN mm.eqs) \/ {rep[i].name : i \in nm} # DOMAIN mm.eqs
                           \/ Len(rep) # Cardinality(MEqs(mm)) + Cardinality(DOMAIN mm.eqs) - Cardinality({mm.eqs[n] : n \in DOMAIN mm.eqs})
          [] c = "variables" -> \E i \in nm : Rng(rep[i].vars) # KindNames(s, mm.eqs[rep[i].name], {"Variable"}) \/ Len(rep[i].vars) # Cardinality(Rng(rep[i].vars))
          [] c = "parameters" -> \E i \in nm : Rng(rep[i].params) # KindNames(s, mm.eqs[rep[i].name], {"Parameter"})
                                             \/ Rng(rep[i].pstar) # Starred(s, mm.eqs[rep[i].name], {"Parameter"})
          [] c = "constants" -> \E i \in nm : Rng(rep[i].consts) # KindNames(s, mm.eqs[rep[i].name], {"Constant"})
                                             \/ Rng(rep[i].cstar) # Starred(s, mm.eqs[rep[i].name], {"Constant"})
          [] c = "type" -> \E i \in nm : ~ClassOk(s, mm.eqs[rep[i].name], rep[i].type)
          [] c = "description" -> \E i \in nm : rep[i].desc # mm.eqs[rep[i].name].desc
          [] c = "representation" -> \E i \in nm : ~(ENames(mm.eqs[rep[i].name]) \subseteq Rng(rep[i].repr))}

ReportClauses(s, ev) ==
    LET o == ev.o IN
    IF ~o.ok THEN {"C21.failed"}
    ELSE CASE ev.what = "model" -> {"C21." \o c : c \in ReportDev(s, ev.m, o.rep)}
           [] ev.what = "problem" ->
                (IF {o.pmodels[i].name : i \in 1..Len(o.pmodels)} # Rng(s.p[ev.p].models) \/ Len(o.pmodels) # Len(s.p[ev.p].models)
                 THEN {"C21.models"} ELSE {})
                \cup (IF o.title # ev.p THEN {"C21.title"} ELSE {})
                \cup UNION {{"C21." \o c : c \in ReportDev(s, o.pmodels[i].name, o.pmodels[i].rep)} :
                              i \in {j \in 1..Len(o.pmodels) : o.pmodels[j].name \in Rng(s.p[ev.p].models)}}
           [] ev.what = "exposed" ->
                LET want(d) == {n \in DOMAIN s.m[ev.m].objs : s.m[ev.m].objs[n].kind = "Variable" /\ s.m[ev.m].objs[n].exp = d}
                IN IF Rng(o.inputs) # want("input") \/ Rng(o.outputs) # want("output")
                      \/ Len(o.inputs) # Cardinality(want("input")) \/ Len(o.outputs) # Cardinality(want("output"))
                   THEN {"C21.exposed"} ELSE {}
           [] ev.what = "dof" ->
                LET mm == s.m[ev.m]
                    n(k) == Cardinality({x \in DOMAIN mm.objs : mm.objs[x].kind = k})
                    ne == Cardinality(DOMAIN mm.eqs) + Cardinality(mm.conns)
                IN IF o.counts # <<ne, n("Variable"), n("Parameter")>> \/ o.ret # ne - n("Variable") - n("Parameter") THEN {"C21.dof"} ELSE {}
           [] OTHER -> {"HARNESS.report"}

(*--------------------------- the whole event -----------------------------*)
Deviations(s, ev) == UNION {{<<m, c>> : c \in ModelDev(s, m, ev.o.models[m])} : m \in DOMAIN s.m \cap DOMAIN ev.o.models}
PDeviations(s, ev) == UNION {{<<p, c>> : c \in ProbDev(s, p, ev.o.probs[p])} : p \in {x \in DOMAIN s.p : s.p[x].resolved /\ x \in DOMAIN ev.o.probs}}

OpClauses(s, s2, ev) ==
    CASE ev.op = "conn" ->
            (IF ConnFails(s, ev) THEN (IF ev.o.ok THEN {"C09.accepted"} ELSE IF ev.o.exc # "ExposedVariableError" \/ ~ev.o.said THEN {"C09.wrongerror"} ELSE {})
             ELSE IF ~ev.o.ok THEN {"C09.refused"}
             ELSE IF ev.o.ends # <<"">> /\ ev.expr = <<>> /\
                     ev.o.ends # <<[i \in 1..Len(ev.outs) |-> ev.outs[i][2]], [i \in 1..Len(ev.ins) |-> ev.ins[i][2]]>> THEN {"C09.ends"} ELSE {})
      [] ev.op = "inconn" -> IF ev.o.ok THEN {} ELSE {"C09.refused"}
      [] ev.op = "exec" ->
            \* what the model said about each declared equation, in order
            {c \in {"C07.exec", "C07.foreign_accepted", "C07.foreign_silent", "C07.own_refused"} :
               CASE c = "C07.exec" -> ~ev.o.ok
                 [] c = "C07.foreign_accepted" -> \E i \in 1..Len(ev.o.decl) : Foreign(s2, ev.m, s2.m[ev.m].decl.eqs[i]) /\ ev.o.decl[i].ok
                 [] c = "C07.foreign_silent" -> \E i \in 1..Len(ev.o.decl) : Foreign(s2, ev.m, s2.m[ev.m].decl.eqs[i]) /\ ~ev.o.decl[i].ok
                                                   /\ (ev.o.decl[i].exc # "UnexpectedObjectDeclarationError" \/ ~ev.o.decl[i].named)
                 [] c = "C07.own_refused" -> \E i \in 1..Len(ev.o.decl) : ~Foreign(s2, ev.m, s2.m[ev.m].decl.eqs[i]) /\ ~ev.o.decl[i].ok}
      [] ev.op = "inc" -> IF ev.o.ok THEN {} ELSE {"C08.failed"}
      [] ev.op = "resolve" -> IF ev.o.ok THEN {} ELSE {"C10.failed"}
      [] ev.op = "prob" -> IF ev.o.ok THEN {} ELSE {"C10.failed"}
      [] ev.op = "setv" -> IF ev.o.ok THEN {} ELSE {"C06.failed"}
      [] ev.op = "model" -> IF ev.o.ok THEN {} ELSE {"C07.failed"}
      [] ev.op = "run" -> RunClauses(s, ev)
      [] ev.op = "report" -> ReportClauses(s, ev)
      [] OTHER -> {}

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ st = Init0 /\ dirty = {} /\ bad = {}
Next ==
    /\ ei <= Len(Traces[ti])
    /\ LET ev == Traces[ti][ei]
           s2 == Do(st, ev)
           dv == Deviations(s2, ev)
           pv == PDeviations(s2, ev)
           new == {Blame(ev, x[1], x[2]) \o x[2] : x \in dv \ dirty}
                  \cup {(IF ev.op = "run" THEN "C16." ELSE "C10.") \o x[2] : x \in pv \ dirty}
           b2 == bad \cup {<<ei, c>> : c \in OpClauses(st, s2, ev) \cup new}
       IN /\ st' = s2
          /\ dirty' = dirty \cup dv \cup pv
          /\ bad' = b2
          /\ ei' = ei + 1
          /\ ti' = ti
          /\ (ei = Len(Traces[ti])) => Verdict(ti, b2)
Spec == Init /\ [][Next]_vars
=============================================================================

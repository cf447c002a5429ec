-------------------------------- MODULE Flow -------------------------------
(***************************************************************************)
(* Models, connections, incorporation, problems and algebraic simulations  *)
(* (properties C07 - C12, C16, C20 and C21).                               *)
(*                                                                         *)
(*   m    models: name -> [style, objs, eqs, conns, decl, execd, clean]    *)
(*   p    problems: name -> [models, resolved, seen]                       *)
(*   pts  qualified name -> sample values                                  *)
(*                                                                         *)
(* An object is [base, kind, unit, exp, val, spec, desc]; objects live     *)
(* under their qualified name. An equation is [two, l, r, baked, aff,      *)
(* desc] where l and r are expression trees over leaves <<"q", model,      *)
(* name>> and baked maps the names which were specified when the equation  *)
(* was written (or last refreshed by resolving a problem) to their values. *)
(* conns are the equations which connections added to the receiving model. *)
(* As in Kernel every operation is an action Do(st, ev), guarded by        *)
(* Fails(st, ev): then the library must refuse and nothing changes.        *)
(***************************************************************************)
EXTENDS Dims, TLC

K == 3
KIdx == 1..K
EmptyFn == [x \in {} |-> 0]
Put(f, h, v) == (h :> v) @@ f
Init0 == [m |-> EmptyFn, p |-> EmptyFn, pts |-> EmptyFn]
Rng(s) == {s[i] : i \in 1..Len(s)}

(*------------------------------ expressions ------------------------------*)
RECURSIVE Leaves(_)
Leaves(t) ==
    CASE t[1] = "q" -> {<<t[2], t[3]>>}
      [] t[1] = "d" -> {<<t[2], t[3]>>}
      [] t[1] = "num" -> {}
      [] t[1] \in {"neg"} -> Leaves(t[2])
      [] t[1] = "fun" -> Leaves(t[3])
      [] t[1] = "pow" -> Leaves(t[2])
      [] OTHER -> Leaves(t[2]) \cup Leaves(t[3])

RECURSIVE HasDiff(_)
HasDiff(t) ==
    CASE t[1] \in {"q", "num"} -> FALSE
      [] t[1] = "d" -> TRUE
      [] t[1] \in {"neg", "pow"} -> HasDiff(t[2])
      [] t[1] = "fun" -> HasDiff(t[3])
      [] OTHER -> HasDiff(t[2]) \/ HasDiff(t[3])

\* value of a tree under f: name -> value
RECURSIVE Ev(_, _)
Ev(t, f) ==
    CASE t[1] = "q" -> IF t[3] \in DOMAIN f THEN f[t[3]] ELSE Undef
      [] t[1] = "d" -> Undef
      [] t[1] = "num" -> t[2]
      [] t[1] = "neg" -> RNeg(Ev(t[2], f))
      [] t[1] = "pow" -> RPow(Ev(t[2], f), t[3])
      [] t[1] = "fun" -> RFun(t[2], Ev(t[3], f))
      [] t[1] = "add" -> RAdd(Ev(t[2], f), Ev(t[3], f))
      [] t[1] = "sub" -> RSub(Ev(t[2], f), Ev(t[3], f))
      [] t[1] = "mul" -> RMul(Ev(t[2], f), Ev(t[3], f))
      [] t[1] = "div" -> RDiv(Ev(t[2], f), Ev(t[3], f))
      [] t[1] = "min" -> RMin(Ev(t[2], f), Ev(t[3], f))
      [] t[1] = "max" -> RMax(Ev(t[2], f), Ev(t[3], f))

\* formed by sums, differences and scaling by known factors only
Known(t, bk) == \A x \in Leaves(t) : x[2] \in bk
RECURSIVE Aff(_, _)
Aff(t, bk) ==
    CASE t[1] \in {"q", "num"} -> TRUE
      [] t[1] = "neg" -> Aff(t[2], bk)
      [] t[1] \in {"add", "sub"} -> Aff(t[2], bk) /\ Aff(t[3], bk)
      [] t[1] = "mul" -> Aff(t[2], bk) /\ Aff(t[3], bk) /\ (Known(t[2], bk) \/ Known(t[3], bk))
      [] t[1] = "div" -> Aff(t[2], bk) /\ Aff(t[3], bk) /\ Known(t[3], bk) /\ Leaves(t[2]) # {}
      [] OTHER -> FALSE

\* replace the leaves of model a by those of model b, names by the map nm
RECURSIVE Redirect(_, _, _, _)
Redirect(t, a, b, nm) ==
    CASE t[1] \in {"q", "d"} -> IF t[2] = a /\ t[3] \in DOMAIN nm THEN [t EXCEPT ![2] = b, ![3] = nm[t[3]]] ELSE t
      [] t[1] = "num" -> t
      [] t[1] \in {"neg", "pow"} -> [t EXCEPT ![2] = Redirect(t[2], a, b, nm)]
      [] t[1] = "fun" -> [t EXCEPT ![3] = Redirect(t[3], a, b, nm)]
      [] OTHER -> [t EXCEPT ![2] = Redirect(t[2], a, b, nm), ![3] = Redirect(t[3], a, b, nm)]

(*------------------------------- equations -------------------------------*)
ELeaves(e) == Leaves(e.l) \cup (IF e.two THEN Leaves(e.r) ELSE {})
EDiff(e) == HasDiff(e.l) \/ (e.two /\ HasDiff(e.r))
EEval(e, f) == IF e.two THEN RSub(Ev(e.l, f), Ev(e.r, f)) ELSE Ev(e.l, f)
EAff(e, bk) == Aff(e.l, bk) /\ (e.two => Aff(e.r, bk))
ENames(e) == {x[2] : x \in ELeaves(e)}

Owned(st, x) == x[1] \in DOMAIN st.m /\ x[2] \in DOMAIN st.m[x[1]].objs
ObjOf(st, x) == st.m[x[1]].objs[x[2]]
\* what is specified now among the objects an equation uses
BakeOf(st, e) ==
    LET sp == {x \in ELeaves(e) : Owned(st, x) /\ ObjOf(st, x).spec}
    IN [n \in {x[2] : x \in sp} |-> ObjOf(st, CHOOSE x \in sp : x[2] = n).val]
Bake(st, e) == [e EXCEPT !.baked = BakeOf(st, e)]
Write(st, two, l, r, desc) ==
    LET e == [two |-> two, l |-> l, r |-> r, baked |-> EmptyFn, aff |-> FALSE, desc |-> desc]
        b == Bake(st, e)
    IN [b EXCEPT !.aff = EAff(e, DOMAIN b.baked)]

\* residual at sample k
EVal(st, e, k) ==
    EEval(e, [n \in ENames(e) |-> IF n \in DOMAIN e.baked THEN e.baked[n]
                                  ELSE IF n \in DOMAIN st.pts THEN st.pts[n][k] ELSE Undef])
\* the fully symbolic form
EValR(st, e, k) ==
    EEval(e, [n \in ENames(e) |-> IF n \in DOMAIN st.pts THEN st.pts[n][k] ELSE Undef])

\* evidence that a residual is not affine in its unknowns: along coordinate
\* directions and along the diagonal, from the first sample
Refuted(st, e) ==
    LET U == ENames(e) \ DOMAIN e.baked
        At(S, c) == EEval(e, [n \in ENames(e) |-> IF n \in DOMAIN e.baked THEN e.baked[n]
                                  ELSE IF n \notin DOMAIN st.pts THEN Undef
                                  ELSE IF n \in S THEN RAdd(st.pts[n][1], RInt(c)) ELSE st.pts[n][1]])
    IN \E S \in {{n} : n \in U} \cup {U} :
         LET d == RAdd(RSub(At({}, 0), At(S, 1)), RSub(At(S, 2), At(S, 1)))
         IN IsDef(d) /\ IF IsExact(d) THEN d # Zero ELSE IAbs(d[1]) > 2 * (-d[2]) + 8

ClassOk(st, e, cls) ==
    /\ cls \in {"linear", "nonlinear", "differential"}
    /\ (cls = "differential") = EDiff(e)
    /\ (e.aff /\ ~EDiff(e)) => cls = "linear"
    /\ cls = "linear" => ~Refuted(st, e)

(*-------------------------------- models ---------------------------------*)
Q(base, m) == base \o "_" \o m

DeclObj(d) == [base |-> d.base, kind |-> d.kind, unit |-> d.unit, exp |-> d.exp,
               val |-> IF d.set # <<>> THEN d.set ELSE d.val, spec |-> d.set # <<>>, desc |-> d.desc]
DeclObjs(m, ds) == [n \in {Q(ds[i].base, m) : i \in 1..Len(ds)} |->
                      DeclObj(ds[CHOOSE i \in 1..Len(ds) : Q(ds[i].base, m) = n])]

\* an equation over anything the model does not own is refused
Foreign(st, m, d) == \E x \in Leaves(d.l) \cup (IF d.two THEN Leaves(d.r) ELSE {}) : x[1] # m \/ ~Owned(st, x)

NewModel(st, ev) ==
    LET objs == IF ev.style = "init" THEN DeclObjs(ev.m, ev.objs) ELSE EmptyFn
    IN [st EXCEPT !.m = Put(@, ev.m, [style |-> ev.style, objs |-> objs, eqs |-> EmptyFn, conns |-> {},
                                      decl |-> [objs |-> ev.objs, eqs |-> ev.eqs], execd |-> FALSE, kept |-> FALSE])]

\* executing a model: (re)declare its objects and write its equations
Exec(st, m) ==
    LET mm == st.m[m]
        s1 == IF mm.style = "init" THEN st
              ELSE [st EXCEPT !.m[m].objs = DeclObjs(m, mm.decl.objs) @@ @]
        ok == {i \in 1..Len(mm.decl.eqs) : ~Foreign(s1, m, mm.decl.eqs[i])}
        es == [n \in {Q(mm.decl.eqs[i].base, m) : i \in ok} |->
                 LET d == mm.decl.eqs[CHOOSE i \in ok : Q(mm.decl.eqs[i].base, m) = n]
                 IN Write(s1, d.two, d.l, d.r, d.desc)]
    IN [s1 EXCEPT !.m[m].eqs = es @@ @, !.m[m].execd = TRUE]

SetV(st, ev) == [st EXCEPT !.m[ev.m].objs[ev.n].val = ev.num, !.m[ev.m].objs[ev.n].spec = TRUE]

Inc(st, ev) ==
    LET src == st.m[ev.from]
        ren(n, base) == IF ev.rw THEN Q(base, ev.into) ELSE n
        take == {n \in DOMAIN src.objs : \/ ev.v /\ src.objs[n].kind = "Variable"
                                         \/ ev.p /\ src.objs[n].kind = "Parameter"
                                         \/ ev.c /\ src.objs[n].kind = "Constant"}
        nm == [n \in take |-> ren(n, src.objs[n].base)]
        newobjs == [x \in {nm[n] : n \in take} |-> src.objs[CHOOSE n \in take : nm[n] = x]]
        ebase(n) == SubSeq(n, 1, Len(n) - Len(ev.from) - 1)
        ents == IF ev.e THEN DOMAIN src.eqs ELSE {}
        enm == [n \in ents |-> ren(n, ebase(n))]
        newe == [x \in {enm[n] : n \in ents} |->
                   LET e == src.eqs[CHOOSE n \in ents : enm[n] = x]
                   IN [e EXCEPT !.l = Redirect(@, ev.from, ev.into, nm), !.r = IF e.two THEN Redirect(@, ev.from, ev.into, nm) ELSE @,
                                !.baked = [y \in {IF n \in DOMAIN nm THEN nm[n] ELSE n : n \in DOMAIN e.baked} |->
                                             e.baked[CHOOSE n \in DOMAIN e.baked : (IF n \in DOMAIN nm THEN nm[n] ELSE n) = y]]]]
    IN [st EXCEPT !.m[ev.into].objs = newobjs @@ @, !.m[ev.into].eqs = newe @@ @, !.m[ev.into].kept = @ \/ ~ev.rw]

(*------------------------------ connections ------------------------------*)
IsExposed(st, x, dir) == Owned(st, x) /\ ObjOf(st, x).kind = "Variable" /\ ObjOf(st, x).exp = dir
ConnFails(st, ev) ==
    \/ \E i \in 1..Len(ev.outs) : ev.outs[i][1] # ev.m1 \/ ~IsExposed(st, ev.outs[i], "output")
    \/ \E i \in 1..Len(ev.ins) : ev.ins[i][1] # ev.m2 \/ ~IsExposed(st, ev.ins[i], "input")

RECURSIVE SumTree(_, _)
SumTree(s, i) == IF i = Len(s) THEN <<"q", s[i][1], s[i][2]>>
                 ELSE <<"add", <<"q", s[i][1], s[i][2]>>, SumTree(s, i + 1)>>

ConnEq(st, ev) ==
    IF ev.op = "inconn" THEN Write(st, FALSE, <<"sub", ev.r, ev.l>>, <<>>, "")
    ELSE IF ev.expr # <<>> THEN Write(st, FALSE, ev.expr, <<>>, "")
    ELSE Write(st, FALSE, <<"sub", SumTree(ev.ins, 1), SumTree(ev.outs, 1)>>, <<>>, "")
\* the same connection again is still the same equation
SameEq(a, b) == a.two = b.two /\ a.l = b.l /\ a.r = b.r
AddConn(st, ev) ==
    LET e == ConnEq(st, ev)
    IN [st EXCEPT !.m[ev.m2].conns = {c \in @ : ~SameEq(c, e)} \cup {e}]

(*-------------------------------- problems -------------------------------*)
MEqs(mm) == {mm.eqs[n] : n \in DOMAIN mm.eqs} \cup mm.conns
EqSet(st, ms) == {<<m, n>> : m \in ms, n \in UNION {DOMAIN st.m[x].eqs : x \in ms}}
                   \cap UNION {{<<m, n>> : n \in DOMAIN st.m[m].eqs} : m \in ms}

\* the equations of a problem with an identity each
PEqs(st, ms) == {<<x[1], x[2], st.m[x[1]].eqs[x[2]]>> : x \in EqSet(st, ms)}
                \cup UNION {{<<m, "", c>> : c \in st.m[m].conns} : m \in ms}

PLeaves(st, ms) == UNION {ELeaves(x[3]) : x \in PEqs(st, ms)}
\* does every equation use objects of the problem's models only, under
\* different names?
Closed(st, ms) ==
    /\ \A x \in PLeaves(st, ms) : x[1] \in ms /\ Owned(st, x)
    /\ \A x, y \in PLeaves(st, ms) : x[2] = y[2] => x = y
Unspec(st, ms, kinds) == {x[2] : x \in {y \in PLeaves(st, ms) : ObjOf(st, y).kind \in kinds /\ ~ObjOf(st, y).spec}}
Unknowns(st, ms) == Unspec(st, ms, {"Variable"})
NamesOf(st, ms, kind) == {x[2] : x \in {y \in PLeaves(st, ms) : ObjOf(st, y).kind = kind}}

Refresh(st, m) == [st EXCEPT !.m[m].eqs = [n \in DOMAIN @ |-> Bake(st, @[n])],
                             !.m[m].conns = {Bake(st, c) : c \in @}]
RECURSIVE FoldM(_, _, _, _)
FoldM(op(_, _), st, ms, i) == IF i > Len(ms) THEN st ELSE FoldM(op, op(st, ms[i]), ms, i + 1)

Resolve(st, p) ==
    LET ms == st.p[p].models
        s1 == FoldM(Exec, st, ms, 1)
        s2 == FoldM(Refresh, s1, ms, 1)
    IN [s2 EXCEPT !.p = [x \in DOMAIN @ |-> [@[x] EXCEPT !.resolved = IF x = p THEN TRUE
                                              ELSE @ /\ Rng(st.p[x].models) \cap Rng(ms) = {}]]]

ProblemType(classes) ==
    LET d == "differential" \in classes  a == {"linear", "nonlinear"} \cap classes # {} IN
    IF d THEN (IF a THEN "differential-algebraic" ELSE "differential")
    ELSE IF "nonlinear" \in classes THEN "nonlinear"
    ELSE IF "linear" \in classes THEN "linear" ELSE "none"

NEqs(st, ms) == Cardinality(EqSet(st, ms)) + Cardinality(UNION {{<<m, c>> : c \in st.m[m].conns} : m \in ms})
NUnk(st, ms) == Cardinality(Unknowns(st, ms)) + Cardinality(Unspec(st, ms, {"Parameter", "Constant"}))
Square(st, ms) == NEqs(st, ms) = NUnk(st, ms)

(*-------------------- linear systems and their solution ------------------*)
\* rows [c: unknown -> coefficient, b: constant term] from values alone
LinRow(e, U) ==
    LET at(S) == EEval(e, [n \in ENames(e) |-> IF n \in DOMAIN e.baked THEN e.baked[n]
                                               ELSE IF n \in S THEN One ELSE Zero])
    IN [c |-> [u \in U |-> RSub(at({u}), at({}))], b |-> at({})]

RECURSIVE Det(_, _, _)
\* rows: sequence of functions column -> value, cols: sequence of columns
Det(rows, cols, col) ==
    IF Len(rows) = 0 THEN One
    ELSE LET r == rows[1]
             RECURSIVE S(_)
             S(j) == IF j > Len(cols) THEN Zero
                     ELSE LET rest == SubSeq(cols, 1, j - 1) \o SubSeq(cols, j + 1, Len(cols))
                              a == col[1][cols[j]]
                              t == IF a = Zero THEN Zero ELSE RMul(a, Det(Tail(rows), rest, Tail(col)))
                          IN RAdd(IF j % 2 = 1 THEN t ELSE RNeg(t), S(j + 1))
         IN S(1)
DetOf(A, cols) == Det(A, cols, A)

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

\* the unique solution of a linear square problem (or no claim): a function
\* unknown -> value, with domain {} when there is no claim
LinSol(st, ms) ==
    LET U == Unknowns(st, ms)
        es == SeqOf(PEqs(st, ms))
        cs == SeqOf(U)
        rows == [i \in 1..Len(es) |-> LinRow(es[i][3], U)]
        A == [i \in 1..Len(es) |-> rows[i].c]
        d == DetOf(A, cs)
        sub(u) == [i \in 1..Len(es) |-> [A[i] EXCEPT ![u] = RNeg(rows[i].b)]]
    IN IF \/ Len(cs) # Len(es) \/ Len(cs) > 4 \/ Len(cs) = 0
          \/ \E i \in 1..Len(es) : ~EAff(es[i][3], DOMAIN es[i][3].baked)
          \/ ~IsExact(d) \/ d = Zero
       THEN EmptyFn
       ELSE [u \in U |-> RDiv(DetOf(sub(u), cs), d)]

(*-------------------------------- actions --------------------------------*)
Fails(st, ev) ==
    CASE ev.op = "conn" -> ConnFails(st, ev)
      [] ev.op = "run" -> ~Square(st, Rng(st.p[ev.p].models))
      [] OTHER -> FALSE

\* an assembled problem is up to date until one of its models changes
Stale(st, m) == [st EXCEPT !.p = [x \in DOMAIN @ |-> [@[x] EXCEPT !.resolved = @ /\ m \notin Rng(st.p[x].models)]]]

Do(st, ev) ==
    IF Fails(st, ev) THEN st
    ELSE CASE ev.op = "env" -> [st EXCEPT !.pts = ev.pts]
           [] ev.op = "model" -> NewModel(st, ev)
           [] ev.op = "exec" -> Stale(Exec(st, ev.m), ev.m)
           [] ev.op = "setv" -> Stale(SetV(st, ev), ev.m)
           \* the model will write other equations the next time it is executed
           [] ev.op = "edit" -> [st EXCEPT !.m[ev.m].decl.eqs = ev.eqs]
           [] ev.op = "inc" -> Stale(Inc(st, ev), ev.into)
           [] ev.op \in {"conn", "inconn"} -> Stale(AddConn(st, ev), ev.m2)
           [] ev.op = "prob" -> [st EXCEPT !.p = Put(@, ev.p, [models |-> ev.models, resolved |-> FALSE])]
           [] ev.op = "resolve" -> Resolve(st, ev.p)
           [] OTHER -> st

(*------------------------------ invariants -------------------------------*)
\* every object a model holds is named for it, unless renaming was off
Qualified(st) == \A m \in DOMAIN st.m : ~st.m[m].kept => \A n \in DOMAIN st.m[m].objs : n = Q(st.m[m].objs[n].base, m)
\* equations a model wrote itself or incorporated refer to its own objects
SelfContained(st) ==
    \A m \in DOMAIN st.m : \A n \in DOMAIN st.m[m].eqs : \A x \in ELeaves(st.m[m].eqs[n]) : x[1] = m /\ Owned(st, x)
\* baked values belong to specified objects
BakedSpecified(st) ==
    \A m \in DOMAIN st.m : \A e \in MEqs(st.m[m]) : DOMAIN e.baked \subseteq ENames(e)
\* what was formed as affine is never refuted by its values
AffineSound(st) ==
    \A m \in DOMAIN st.m : \A e \in MEqs(st.m[m]) : (e.aff /\ ~EDiff(e)) => ~Refuted(st, e)
=============================================================================

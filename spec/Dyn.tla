--------------------------------- MODULE Dyn --------------------------------
(***************************************************************************)
(* Domains, the options of a simulation, and dynamic (and algebraic)       *)
(* simulations over time (properties C13 - C16).                           *)
(*                                                                         *)
(*   o    objects: qualified name -> [kind, val, spec]                     *)
(*   d    domains: id -> [inds, deps, tabs, unk]                           *)
(*   m    models:  name -> equations (a sequence) it holds                 *)
(*   p    problems: name -> [ms, tv, ic, resolved, baked, eqs]             *)
(*   s    simulations: name -> [p, conf, res, out, rdom]                   *)
(*   f    configuration files: name -> option -> token                     *)
(*   tok  tokens of option values -> what they denote                      *)
(*                                                                         *)
(* The trajectory of a problem is a function unknown -> polynomial in t    *)
(* with rational coefficients. It is found by Picard iteration (or offered *)
(* as a witness by the program) and accepted only after it has been        *)
(* checked, as a polynomial identity, to satisfy every equation as it was  *)
(* written, and the initial conditions. Where no such solution is known    *)
(* the specification still fixes the grid, the labels and the first row.   *)
(***************************************************************************)
EXTENDS Dims, TLC

EmptyFn == [x \in {} |-> 0]
Put(f, h, v) == (h :> v) @@ f
Rng(s) == {s[i] : i \in 1..Len(s)}
Q(base, m) == base \o "_" \o m
Init0 == [o |-> EmptyFn, d |-> EmptyFn, m |-> EmptyFn, p |-> EmptyFn, s |-> EmptyFn, f |-> EmptyFn, tok |-> EmptyFn]

(*------------------------------ polynomials ------------------------------*)
\* <<c0, c1, ...>>, no trailing zero; <<Undef>> when unknown
MaxDeg == 6
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = Zero THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
PUndef == <<Undef>>
PCheck(a) == IF Len(a) > MaxDeg + 1 \/ \E i \in 1..Len(a) : ~IsExact(a[i]) THEN PUndef ELSE Trim(a)
PDef(a) == a # PUndef
PCoef(a, i) == IF i <= Len(a) THEN a[i] ELSE Zero
PConst(c) == PCheck(<<c>>)
PT == <<Zero, One>>
PAdd(a, b) == IF ~PDef(a) \/ ~PDef(b) THEN PUndef ELSE PCheck([i \in 1..IMax(Len(a), Len(b)) |-> RAdd(PCoef(a, i), PCoef(b, i))])
PNeg(a) == IF ~PDef(a) THEN a ELSE [i \in 1..Len(a) |-> RNeg(a[i])]
PSub(a, b) == PAdd(a, PNeg(b))
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > k THEN Zero ELSE RAdd(RMul(PCoef(a, i), PCoef(b, k + 1 - i)), Conv(a, b, k, i + 1))
PMul(a, b) == IF ~PDef(a) \/ ~PDef(b) THEN PUndef
              ELSE IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE IF Len(a) + Len(b) - 1 > MaxDeg + 1 THEN PUndef
              ELSE PCheck([k \in 1..(Len(a) + Len(b) - 1) |-> Conv(a, b, k, 1)])
RECURSIVE PPow(_, _)
PPow(a, k) == IF k = 0 THEN PConst(One) ELSE PMul(a, PPow(a, k - 1))
PDiff(a) == IF ~PDef(a) THEN a ELSE PCheck([i \in 1..IMax(Len(a) - 1, 0) |-> RMul(RInt(i), a[i + 1])])
RECURSIVE Horner(_, _, _)
Horner(a, x, i) == IF i > Len(a) THEN Zero ELSE RAdd(a[i], RMul(x, Horner(a, x, i + 1)))
PAt(a, x) == IF ~PDef(a) THEN Undef
             ELSE LET e == Horner(a, x, 1)
                  IN IF IsDef(e) THEN e ELSE Horner([i \in 1..Len(a) |-> ToApprox(a[i])], x, 1)
\* the antiderivative which is c at t0
PInt(a, c, t0) ==
    IF ~PDef(a) THEN a
    ELSE LET q == PCheck([i \in 1..(Len(a) + 1) |-> IF i = 1 THEN Zero ELSE RDiv(a[i - 1], RInt(i - 1))])
         IN IF ~PDef(q) THEN q ELSE PAdd(q, PConst(RSub(c, Horner(q, t0, 1))))

(*------------------------------ expressions ------------------------------*)
RECURSIVE Leaves(_)
Leaves(t) ==
    CASE t[1] = "q" -> {t[3]}
      [] t[1] = "d" -> {t[3]}
      [] t[1] = "num" -> {}
      [] t[1] \in {"neg", "pow"} -> Leaves(t[2])
      [] t[1] = "fun" -> Leaves(t[3])
      [] OTHER -> Leaves(t[2]) \cup Leaves(t[3])
RECURSIVE Derived(_)
Derived(t) ==
    CASE t[1] = "d" -> {t[3]}
      [] t[1] \in {"q", "num"} -> {}
      [] t[1] \in {"neg", "pow"} -> Derived(t[2])
      [] t[1] = "fun" -> Derived(t[3])
      [] OTHER -> Derived(t[2]) \cup Derived(t[3])

\* along the trajectory f: name -> polynomial
RECURSIVE Along(_, _)
Along(t, f) ==
    CASE t[1] = "q" -> IF t[3] \in DOMAIN f THEN f[t[3]] ELSE PUndef
      [] t[1] = "d" -> IF t[3] \in DOMAIN f THEN PDiff(f[t[3]]) ELSE PUndef
      [] t[1] = "num" -> PConst(t[2])
      [] t[1] = "neg" -> PNeg(Along(t[2], f))
      [] t[1] = "pow" -> IF t[3][2] = 1 /\ t[3][1] \in 0..4 THEN PPow(Along(t[2], f), t[3][1]) ELSE PUndef
      [] t[1] = "add" -> PAdd(Along(t[2], f), Along(t[3], f))
      [] t[1] = "sub" -> PSub(Along(t[2], f), Along(t[3], f))
      [] t[1] = "mul" -> PMul(Along(t[2], f), Along(t[3], f))
      [] t[1] = "div" -> LET b == Along(t[3], f) IN
                         IF PDef(b) /\ Len(b) = 1 THEN PMul(Along(t[2], f), PConst(RInv(b[1]))) ELSE PUndef
      [] OTHER -> PUndef

\* an equation is [base, two, l, r, x, rhs, dif]: as written (l, two, r), and
\* the unknown x it determines as (the derivative of) rhs
EqLeaves(e) == Leaves(e.l) \cup (IF e.two THEN Leaves(e.r) ELSE {})
EqDerived(e) == Derived(e.l) \cup (IF e.two THEN Derived(e.r) ELSE {})
Residual(e, f) == IF e.two THEN PSub(Along(e.l, f), Along(e.r, f)) ELSE Along(e.l, f)

(*------------------------------- problems --------------------------------*)
RECURSIVE CatEqs(_, _, _)
CatEqs(st, ms, i) == IF i > Len(ms) THEN <<>> ELSE st.m[ms[i]] \o CatEqs(st, ms, i + 1)

AllLeaves(es) == UNION {EqLeaves(es[i]) : i \in 1..Len(es)}
AllDerived(es) == UNION {EqDerived(es[i]) : i \in 1..Len(es)}
SpecIn(st, ns) == {n \in ns : n \in DOMAIN st.o /\ st.o[n].spec}

Resolve(st, p) ==
    LET es == CatEqs(st, st.p[p].ms, 1)
        ks == SpecIn(st, AllLeaves(es))
    IN [st EXCEPT !.p = [x \in DOMAIN @ |->
                           IF x = p THEN [@[x] EXCEPT !.resolved = TRUE, !.eqs = es, !.baked = [n \in ks |-> st.o[n].val]]
                           ELSE [@[x] EXCEPT !.resolved = @ /\ Rng(st.p[x].ms) \cap Rng(st.p[p].ms) = {}]]]
Stale(st, m) == [st EXCEPT !.p = [x \in DOMAIN @ |-> [@[x] EXCEPT !.resolved = @ /\ m \notin Rng(st.p[x].ms)]]]

PDyn(pp) == AllDerived(pp.eqs) # {}
Times(pp) == Rng(pp.tv)
\* independent variables are no unknowns
Unknowns(st, pp) ==
    {n \in AllLeaves(pp.eqs) \ DOMAIN pp.baked : st.o[n].kind = "v"} \ (IF PDyn(pp) THEN Times(pp) ELSE {})
Free(st, pp) == {n \in AllLeaves(pp.eqs) \ DOMAIN pp.baked : st.o[n].kind = "p"}
Square(st, pp) == Len(pp.eqs) = Cardinality(Unknowns(st, pp)) + Cardinality(Free(st, pp))

Base0(st, pp) == [n \in DOMAIN pp.baked |-> PConst(pp.baked[n])] @@ [n \in Times(pp) |-> PT]
\* does f (over the unknowns) satisfy every equation and the conditions?
IsSol(st, pp, f, t0) ==
    LET g == f @@ Base0(st, pp) IN
    /\ DOMAIN f = Unknowns(st, pp)
    /\ \A i \in 1..Len(pp.eqs) : Residual(pp.eqs[i], g) = <<>>
    /\ \A n \in AllDerived(pp.eqs) : n \in DOMAIN pp.ic /\ PAt(f[n], t0) = pp.ic[n]

EqFor(pp, n) == {i \in 1..Len(pp.eqs) : pp.eqs[i].x = n}
Step(st, pp, f, t0) ==
    LET g == f @@ Base0(st, pp) IN
    [n \in DOMAIN f |-> LET e == pp.eqs[CHOOSE i \in EqFor(pp, n) : TRUE]
                            v == Along(e.rhs, g)
                        IN IF e.dif THEN PInt(v, pp.ic[n], t0) ELSE v]
RECURSIVE Picard(_, _, _, _, _)
Picard(st, pp, f, t0, k) ==
    LET g == Step(st, pp, f, t0) IN IF g = f \/ k = 0 THEN g ELSE Picard(st, pp, g, t0, k - 1)

\* the trajectory, or EmptyFn when none is known; w: a witness or EmptyFn
Solution(st, pp, t0, w) ==
    LET U == Unknowns(st, pp)
        f0 == [n \in U |-> IF n \in DOMAIN pp.ic THEN PConst(pp.ic[n]) ELSE <<>>]
        ready == /\ U # {}
                 /\ \A n \in U : Cardinality(EqFor(pp, n)) = 1
                 /\ \A n \in AllDerived(pp.eqs) : n \in DOMAIN pp.ic
                 /\ Free(st, pp) = {}
        f == IF ready THEN Picard(st, pp, f0, t0, 8) ELSE EmptyFn
    IN IF ready /\ IsSol(st, pp, f, t0) THEN f
       ELSE IF DOMAIN w # {} /\ IsSol(st, pp, w, t0) THEN w
       ELSE EmptyFn

(*----------------------------- configurations ----------------------------*)
Defaults ==
    [compile_equations |-> "true", domain |-> "null", time_variable_name |-> "null", initial_time |-> "0.0",
     end_time |-> "null", is_dynamic |-> "false", arg_names |-> "list:", initial_guess |-> "map:",
     initial_guess_solver |-> "null", linear_solver |-> "s:symbolicsys", nonlinear_solver |-> "s:*",
     differential_solver |-> "s:ODEINT", differential_algebraic_solver |-> "s:IDA", problem_type |-> "null",
     args |-> "list:", verbosity_solver |-> "0", number_of_time_steps |-> "100", configuration_args |-> "map:",
     print_output |-> "false", output_headers |-> "null", variable_name_map |-> "map:",
     compilation_mechanism |-> "s:numpy", number_parameters_to_optimize |-> "0", times_for_solution |-> "null"]
Options == DOMAIN Defaults

\* explicit (dictionary, then arguments) over file over default
Effective(dict, expl, file) == [k \in Options |-> IF k \in DOMAIN dict THEN dict[k]
                                                  ELSE IF k \in DOMAIN expl THEN expl[k]
                                                  ELSE IF k \in DOMAIN file THEN file[k]
                                                  ELSE Defaults[k]]
FileOf(st, ev) == IF ev.file = "" THEN EmptyFn ELSE st.f[ev.file]
Conf(st, ev) == Effective(ev.dict, ev.expl, FileOf(st, ev))
Val(st, c, k) == st.tok[c[k]]

LASolvers == {"s:symbolicsys", "s:sympy", "s:scipy", "null"}
NLASolvers == {"s:symbolicsys", "s:sympy", "s:*"}
DSolvers == {"s:ODEINT", "s:CVODE", "null"}
DAESolvers == {"s:IDA", "null"}

TV(st, c, pp) == IF c.time_variable_name # "null" THEN st.tok[c.time_variable_name]
                 ELSE IF c.is_dynamic = "true" THEN pp.tv ELSE <<>>
\* communication points
Grid(st, c) ==
    IF c.times_for_solution # "null" THEN Val(st, c, "times_for_solution")
    ELSE LET a == Val(st, c, "initial_time")  b == Val(st, c, "end_time")  n == Val(st, c, "number_of_time_steps")[1]
         IN [i \in 1..(n + 1) |-> RAdd(a, RMul(RSub(b, a), Norm(i - 1, n)))]

(*-------------------------------- domains --------------------------------*)
NewTab(dd) == [cols |-> dd.inds \o dd.deps, rows |-> <<>>]
Clear(dd) == [dd EXCEPT !.tabs = [i \in Rng(dd.inds) |-> NewTab(dd)], !.unk = FALSE]
Append1(s, x) == IF x \in Rng(s) THEN s ELSE Append(s, x)
Rename(cols, mp) == [i \in 1..Len(cols) |-> IF cols[i] \in DOMAIN mp THEN mp[cols[i]] ELSE cols[i]]
LastInd(dd) == dd.inds[Len(dd.inds)]

RegFails(st, ev) ==
    LET dd == st.d[ev.d]
        i == IF ev.ind = "" THEN LastInd(dd) ELSE ev.ind
    IN \/ dd.tabs = EmptyFn
       \/ i \notin DOMAIN dd.tabs
       \/ \E k \in 1..Len(ev.rows) : Len(ev.rows[k]) # Len(dd.tabs[i].cols)
Register(st, d, i, rows) == [st EXCEPT !.d[d].tabs[i].rows = @ \o rows]

(*----------------------------- simulations -------------------------------*)
NewSim == [p |-> "", conf |-> EmptyFn, res |-> "none", out |-> <<>>, sol |-> EmptyFn, rdom |-> ""]
SimDom(st, c) == IF c.domain = "null" THEN "" ELSE st.tok[c.domain]

\* an algebraic problem is linear when its equations are sums of multiples of
\* quantities, and nonlinear when one of them multiplies, divides by or
\* exponentiates its unknowns
RECURSIVE LinearForm(_)
LinearForm(t) ==
    CASE t[1] \in {"q", "num"} -> TRUE
      [] t[1] = "neg" -> LinearForm(t[2])
      [] t[1] \in {"add", "sub"} -> LinearForm(t[2]) /\ LinearForm(t[3])
      [] t[1] = "mul" -> \/ (t[2][1] = "num" /\ LinearForm(t[3]))
                         \/ (t[3][1] = "num" /\ LinearForm(t[2]))
      [] OTHER -> FALSE
RECURSIVE NonlinearIn(_, _)
NonlinearIn(t, U) ==
    CASE t[1] \in {"q", "num", "d"} -> FALSE
      [] t[1] = "neg" -> NonlinearIn(t[2], U)
      [] t[1] = "pow" -> NonlinearIn(t[2], U) \/ (Leaves(t[2]) \cap U # {} /\ t[3] # One)
      [] t[1] = "fun" -> Leaves(t[3]) \cap U # {}
      [] t[1] = "mul" -> NonlinearIn(t[2], U) \/ NonlinearIn(t[3], U) \/ (Leaves(t[2]) \cap U # {} /\ Leaves(t[3]) \cap U # {})
      [] t[1] = "div" -> NonlinearIn(t[2], U) \/ NonlinearIn(t[3], U) \/ Leaves(t[3]) \cap U # {}
      [] OTHER -> NonlinearIn(t[2], U) \/ NonlinearIn(t[3], U)
IsLA(st, pp) == \A i \in 1..Len(pp.eqs) : LinearForm(pp.eqs[i].l) /\ (pp.eqs[i].two => LinearForm(pp.eqs[i].r))
IsNLA(st, pp) == LET U == Unknowns(st, pp) IN
    \E i \in 1..Len(pp.eqs) : NonlinearIn(pp.eqs[i].l, U) \/ (pp.eqs[i].two /\ NonlinearIn(pp.eqs[i].r, U))

\* what must make a run fail
RunFails(st, ev) ==
    LET ss == st.s[ev.s]  pp == st.p[ss.p]  c == ss.conf
        dyn == PDyn(pp)
        dae == dyn /\ \E i \in 1..Len(pp.eqs) : EqDerived(pp.eqs[i]) = {}
    IN \/ ~Square(st, pp)
       \/ /\ ~dyn
          /\ \/ (c.linear_solver \notin LASolvers /\ c.nonlinear_solver \notin NLASolvers)
             \/ (c.linear_solver \notin LASolvers /\ IsLA(st, pp))
             \/ (c.nonlinear_solver \notin NLASolvers /\ IsNLA(st, pp))
       \/ /\ dyn
          /\ \/ TV(st, c, pp) = <<>>
             \/ \E i \in 1..Len(TV(st, c, pp)) : TV(st, c, pp)[i] \notin DOMAIN pp.ic
             \/ \E n \in Unknowns(st, pp) : n \notin DOMAIN pp.ic
             \/ (IF dae THEN c.differential_algebraic_solver \notin DAESolvers ELSE c.differential_solver \notin DSolvers)
             \/ c.domain = "null"
             \/ c.end_time = "null" /\ c.times_for_solution = "null"
\* what must make it succeed
RunClaimed(st, ev) ==
    LET ss == st.s[ev.s]  pp == st.p[ss.p]  c == ss.conf  t0 == IF PDyn(pp) THEN Grid(st, c)[1] ELSE Zero IN
    /\ pp.resolved
    /\ ~RunFails(st, ev)
    /\ \/ PDyn(pp)
       \/ (c.linear_solver \in LASolvers /\ c.nonlinear_solver \in NLASolvers)
       \/ IsLA(st, pp)
       \/ IsNLA(st, pp)
    /\ PDyn(pp) => Rng(st.d[SimDom(st, c)].deps) = Unknowns(st, pp) /\ Len(st.d[SimDom(st, c)].inds) = 1
    /\ DOMAIN Solution(st, pp, t0, ev.wit) # {}

RowAt(f, deps, t) == <<t>> \o [i \in 1..Len(deps) |-> IF deps[i] \in DOMAIN f THEN PAt(f[deps[i]], t) ELSE Undef]
\* without a known solution the first row is still the initial conditions
Trajectory(st, pp, c, deps, f) ==
    LET g == Grid(st, c) IN
    [k \in 1..Len(g) |-> IF DOMAIN f = {} /\ k = 1
                         THEN <<g[1]>> \o [i \in 1..Len(deps) |-> IF deps[i] \in AllDerived(pp.eqs) THEN pp.ic[deps[i]] ELSE Undef]
                         ELSE RowAt(f, deps, g[k])]

Run(st, ev) ==
    LET ss == st.s[ev.s]  pp == st.p[ss.p]  c == ss.conf IN
    IF PDyn(pp) THEN
        LET D == SimDom(st, c)
            dd == st.d[D]
            f == IF pp.resolved THEN Solution(st, pp, Grid(st, c)[1], ev.wit) ELSE EmptyFn
            known == pp.resolved /\ Rng(dd.deps) = Unknowns(st, pp) /\ Len(dd.inds) = 1
            rows == IF known THEN Trajectory(st, pp, c, dd.deps, f) ELSE <<>>
            mp == Val(st, c, "variable_name_map")
            i == LastInd(dd)
            d2 == [Clear(dd) EXCEPT !.unk = ~known, !.tabs[i].rows = rows]
        IN [st EXCEPT !.d[D] = [d2 EXCEPT !.tabs = [x \in DOMAIN @ |-> [@[x] EXCEPT !.cols = Rename(@, mp)]]], !.s[ev.s].res = "dyn", !.s[ev.s].out = rows, !.s[ev.s].rdom = D]
    ELSE LET f == IF pp.resolved THEN Solution(st, pp, Zero, ev.wit) ELSE EmptyFn
         IN [st EXCEPT !.s[ev.s].res = IF pp.resolved THEN "alg" ELSE "unk",
                       !.s[ev.s].sol = [n \in Unknowns(st, pp) |-> IF n \in DOMAIN f THEN PAt(f[n], Zero) ELSE Undef],
                       !.s[ev.s].rdom = SimDom(st, c)]

(*-------------------------------- actions --------------------------------*)
NewModel(st, ev) ==
    [st EXCEPT !.m = Put(@, ev.m, ev.eqs),
               !.o = [n \in {ev.objs[i].name : i \in 1..Len(ev.objs)} |->
                        LET x == ev.objs[CHOOSE i \in 1..Len(ev.objs) : ev.objs[i].name = n]
                        IN [kind |-> x.kind, val |-> IF x.set = <<>> THEN Zero ELSE x.set, spec |-> x.set # <<>>]] @@ @]

ConnEq(ev) == [base |-> "", two |-> FALSE, l |-> <<"sub", ev.into, ev.from>>, r |-> <<>>, x |-> ev.into[3], rhs |-> ev.from, dif |-> FALSE]

Fails(st, ev) ==
    CASE ev.op = "reg" -> RegFails(st, ev)
      [] ev.op = "run" -> RunFails(st, ev)
      [] ev.op = "get" -> \E i \in Rng(ev.inds) : \/ i \notin DOMAIN st.d[ev.d].tabs
                                                     \/ ~(Rng(ev.heads) \subseteq Rng(st.d[ev.d].tabs[i].cols))
      [] ev.op = "results" -> st.s[ev.s].res \in {"none"} \/ ev.type \notin {"list", "dict"}
      [] OTHER -> FALSE

Do(st, ev) ==
    IF Fails(st, ev) THEN st
    ELSE CASE ev.op = "env" -> [st EXCEPT !.tok = ev.tok]
           [] ev.op = "vars" -> st
           [] ev.op = "dom" -> [st EXCEPT !.d = Put(@, ev.d, [inds |-> ev.inds, deps |-> <<>>, tabs |-> EmptyFn, unk |-> FALSE])]
           [] ev.op = "dist" -> [st EXCEPT !.d[ev.d] = Clear([@ EXCEPT !.deps = Append1(@, ev.v)])]
           [] ev.op = "reg" -> Register(st, ev.d, IF ev.ind = "" THEN LastInd(st.d[ev.d]) ELSE ev.ind, ev.rows)
           [] ev.op = "dreset" -> [st EXCEPT !.d[ev.d] = Clear(@)]
           [] ev.op = "call" -> [st EXCEPT !.d[ev.d].tabs = [i \in Rng(IF ev.inds = <<>> THEN st.d[ev.d].inds ELSE ev.inds) |-> NewTab(st.d[ev.d])],
                                           !.d[ev.d].unk = FALSE]
           [] ev.op = "ren" -> [st EXCEPT !.d[ev.d].tabs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.cols = Rename(@, ev.map)]]]
           [] ev.op = "dmodel" -> NewModel(st, ev)
           [] ev.op = "setp" -> Stale([st EXCEPT !.o[ev.n].val = ev.num, !.o[ev.n].spec = TRUE], ev.m)

           [] ev.op = "dprob" -> [st EXCEPT !.p = Put(@, ev.p, [ms |-> ev.ms, tv |-> ev.tv, ic |-> EmptyFn, resolved |-> FALSE, baked |-> EmptyFn, eqs |-> <<>>])]
           [] ev.op = "dconn" -> Stale([st EXCEPT !.m[ev.m2] = Append(@, ConnEq(ev))], ev.m2)
           [] ev.op = "dresolve" -> Resolve(st, ev.p)
           [] ev.op = "ic" -> [st EXCEPT !.p[ev.p].ic = ev.conds @@ @]
           [] ev.op = "sim" -> [st EXCEPT !.s = Put(@, ev.s, NewSim)]
           [] ev.op = "setprob" -> [st EXCEPT !.s[ev.s].p = ev.p]
           [] ev.op = "conf" -> [st EXCEPT !.s[ev.s].conf = Conf(st, ev)]
           [] ev.op = "write" -> [st EXCEPT !.f = Put(@, ev.f, ev.opts)]
           \* a domain is an object and cannot be written into a file
           [] ev.op = "dump" -> [st EXCEPT !.f = Put(@, ev.f, [k \in Options \ {"domain"} |-> st.s[ev.s].conf[k]])]
           [] ev.op = "run" -> Run(st, ev)
           [] ev.op = "sreset" -> IF st.s[ev.s].rdom = "" THEN [st EXCEPT !.s[ev.s].res = "none"]
                                  ELSE [st EXCEPT !.s[ev.s].res = "none", !.d[st.s[ev.s].rdom] = Clear(@)]
           [] OTHER -> st

(*------------------------------ invariants -------------------------------*)
\* every row of a table has one value per column, and the columns are the
\* independent and dependent variables of the domain
Shaped(st) ==
    \A d \in DOMAIN st.d : \A i \in DOMAIN st.d[d].tabs :
        LET tb == st.d[d].tabs[i] IN
        /\ Len(tb.cols) = Len(st.d[d].inds) + Len(st.d[d].deps)
        /\ ~st.d[d].unk => \A k \in 1..Len(tb.rows) : Len(tb.rows[k]) = Len(tb.cols)
TypeConf(st) == \A s \in DOMAIN st.s : st.s[s].conf # EmptyFn => DOMAIN st.s[s].conf = Options
=============================================================================

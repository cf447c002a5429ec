-------------------------------- MODULE Optim -------------------------------
(***************************************************************************)
(* Optimisation studies over simulations.                                  *)
(*                                                                         *)
(* A study evaluates candidate points one by one; each evaluation assigns  *)
(* the coordinates to the optimised parameters and runs the simulation.    *)
(* When it ends it reports a point it evaluated, the best in the declared  *)
(* sense. Which points are tried is left open: any within the bounds.      *)
(*                                                                         *)
(* Numbers: coordinates in units of 10^-8, results in units of 10^-4.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyFn == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rng(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
E8 == 100000000
E4 == 10000

\* a rational with denominator 1, 2, 4, 5 or 10 in fixed point
Fix8(r) == r[1] * (E8 \div r[2])
Fix4(r) == r[1] * (E4 \div r[2])
\* product of fixed point numbers (units 10^-4) without leaving 32 bits
Mul(a, b) ==
    LET s == IF (a < 0) # (b < 0) THEN -1 ELSE 1
        x == Abs(a)  y == Abs(b)
        ah == x \div 100  al == x % 100
        bh == y \div 100  bl == y % 100
    IN s * (ah * bh + (ah * bl + al * bh) \div 100 + (al * bl) \div E4)

(***************************************************************************)
(* m : model -> [k |-> "alg" | "ode", c |-> coefficients,                  *)
(*               v |-> [a, b |-> value or <<>>]]                           *)
(* s : simulation -> [ms, end, n, conf]    (conf: are there configurations)*)
(* q : problem -> [pars, obj, bounds, max, ready]                          *)
(* o : study -> [q, s, pars, cons, max, end, n, ind, gen, phase, ever, in, up, log]*)
(***************************************************************************)
Init0 == [m |-> EmptyFn, s |-> EmptyFn, q |-> EmptyFn, o |-> EmptyFn]

(*------------------------------- the models ------------------------------*)
\* what the simulation answers for parameters a, b at time e
Outs(c, k, a, b, e) ==
    LET lin == c[1] * a + c[2] * b
        ab == Mul(a, b)
    IN IF k = "alg" THEN [y |-> lin + c[3] * ab, z |-> lin + c[3] * ab - c[4] * b + c[5] * E4]
       ELSE [y |-> c[5] * E4 + Mul(lin, e), z |-> c[4] * E4 + Mul(c[3] * ab, e)]
Par(p, m) == p \o "_" \o m
Params(st, s) == {Par(p, m) : p \in {"a", "b"}, m \in Rng(st.s[s].ms)}
ValueOf(st, par) == LET m == CHOOSE x \in DOMAIN st.m : par \in {Par("a", x), Par("b", x)}
                    IN st.m[m].v[IF par = Par("a", m) THEN "a" ELSE "b"]
Given(st, par) == ValueOf(st, par) # <<>>

(*-------------------------------- a study --------------------------------*)
Index(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
ConsOk(o) == o.cons.form # "dict" \/ Rng(o.pars) \subseteq Rng(o.cons.names)
\* the bounds in force: those of the study, else those of the problem
Bounds(st, id) ==
    LET o == st.o[id] IN
    IF o.cons.form = "none" THEN st.q[o.q].bounds
    ELSE IF o.cons.form = "dict" THEN [i \in 1..Len(o.pars) |-> o.cons.b[Index(o.cons.names, o.pars[i])]]
    ELSE o.cons.b
Maximise(st, id) == st.o[id].max \/ st.q[st.o[id].q].max
Runnable(st, id) ==
    LET o == st.o[id] IN
    /\ ConsOk(o)
    /\ Bounds(st, id) # <<>>
    /\ st.q[o.q].ready
    /\ \A p \in Params(st, o.s) \ Rng(o.pars) : Given(st, p)

\* what holds for a run is fixed when it starts
Within(b, x) ==
    /\ Len(x) = Len(b)
    /\ \A i \in 1..Len(b) : Fix8(b[i][1]) <= x[i] /\ x[i] <= Fix8(b[i][2])
\* the value of a parameter of the simulation at the point x
At(st, id, par, x) ==
    LET o == st.o[id] IN
    IF par \in Rng(o.pars) THEN x[Index(o.pars, par)] \div E4 ELSE Fix4(ValueOf(st, par))
OutputsAt(st, id, x) ==
    LET o == st.o[id]
        f(m) == Outs(st.m[m].c, st.m[m].k, At(st, id, Par("a", m), x), At(st, id, Par("b", m), x), Fix4(o.end))
    IN [n \in UNION {{Par(v, m) : v \in {"y", "z"}} : m \in Rng(st.s[o.s].ms)} |->
          LET m == CHOOSE m \in Rng(st.s[o.s].ms) : n \in {Par("y", m), Par("z", m)}
          IN IF n = Par("y", m) THEN f(m).y ELSE f(m).z]
RECURSIVE Terms(_, _, _)
Terms(obj, out, i) ==
    IF i > Len(obj) THEN 0
    ELSE obj[i][2] * (IF obj[i][3] = 2 THEN Mul(out[obj[i][1]], out[obj[i][1]]) ELSE out[obj[i][1]]) + Terms(obj, out, i + 1)
Objective(st, id, out) == Terms(st.q[st.o[id].q].obj, out, 1)

\* at least as good
Good(st, id, f, g) == IF st.o[id].up THEN f >= g ELSE f <= g
\* the entries of the log which may be reported
Optimal(st, id) ==
    LET l == st.o[id].log IN {i \in 1..Len(l) : \A j \in 1..Len(l) : Good(st, id, l[i].f, l[j].f)}

(*------------------------------- transitions -----------------------------*)
DoModel(st, ev) == [st EXCEPT !.m = Put(st.m, ev.m, [k |-> ev.k, c |-> ev.c, v |-> [a |-> ev.a, b |-> ev.b]])]
DoValue(st, ev) == [st EXCEPT !.m[ev.m].v[ev.p] = ev.v]
DoSim(st, ev) == [st EXCEPT !.s = Put(st.s, ev.s, [ms |-> ev.ms, end |-> ev.end, n |-> ev.n, conf |-> ev.conf])]
DoProb(st, ev) == [st EXCEPT !.q = Put(st.q, ev.q, [pars |-> ev.pars, obj |-> ev.obj, bounds |-> ev.bounds, max |-> ev.max, ready |-> ev.ready])]
StudyOk(st, ev) == ev.conf.form # "none" \/ st.s[ev.s].conf
DoStudy(st, ev) ==
    IF ~StudyOk(st, ev) THEN st
    ELSE [st EXCEPT !.o = Put(st.o, ev.o,
            [q |-> ev.q, s |-> ev.s, pars |-> ev.pars, cons |-> ev.cons, max |-> ev.max, alg |-> ev.alg, ind |-> ev.ind, gen |-> ev.gen,
             end |-> IF ev.conf.form = "none" THEN st.s[ev.s].end ELSE ev.conf.end,
             n |-> IF ev.conf.form = "none" THEN st.s[ev.s].n ELSE ev.conf.n,
             phase |-> "new", ever |-> FALSE, in |-> <<>>, up |-> FALSE, told |-> FALSE, often |-> FALSE, log |-> <<>>])]
DoRun(st, ev) == [st EXCEPT !.o[ev.o].phase = "running", !.o[ev.o].log = <<>>,
                            \* whether the progress is kept, and reported in each generation
                            !.o[ev.o].told = ev.log \/ ev.graph, !.o[ev.o].often = ev.freq \/ ev.graph,
                            !.o[ev.o].in = IF ConsOk(st.o[ev.o]) THEN Bounds(st, ev.o) ELSE <<>>, !.o[ev.o].up = Maximise(st, ev.o)]
DoEval(st, ev) == [st EXCEPT !.o[ev.o].log = Append(@, [x |-> ev.x, f |-> ev.f])]
DoRan(st, ev) == [st EXCEPT !.o[ev.o].phase = IF Runnable(st, ev.o) THEN "done" ELSE "failed",
                                   !.o[ev.o].ever = @ \/ Runnable(st, ev.o)]

Do(st, ev) ==
    CASE ev.op = "model" -> DoModel(st, ev)
      [] ev.op = "value" -> DoValue(st, ev)
      [] ev.op = "sim" -> DoSim(st, ev)
      [] ev.op = "oprob" -> DoProb(st, ev)
      [] ev.op = "ready" -> [st EXCEPT !.q[ev.q].ready = TRUE]
      [] ev.op = "study" -> DoStudy(st, ev)
      [] ev.op = "cons" -> [st EXCEPT !.o[ev.o].cons = ev.cons]
      [] ev.op = "setq" -> [st EXCEPT !.o[ev.o].q = ev.q]
      [] ev.op = "run" -> DoRun(st, ev)
      [] ev.op = "eval" -> DoEval(st, ev)
      [] ev.op = "ran" -> DoRan(st, ev)
      [] OTHER -> st
=============================================================================

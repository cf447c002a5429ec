------------------------------- MODULE OptimMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Optim: every way of stating a study, and      *)
(* several studies over the same simulations in any order. The candidates  *)
(* of a run are any corners and middles of its bounds. Every explored      *)
(* history which ends with a run is printed for the real library.          *)
(***************************************************************************)
EXTENDS Optim, Json, IOUtils

Focus == IOEnv.MC_FOCUS          \* "forms" | "studies"
Depth == atoi(IOEnv.MC_DEPTH)
Tries == atoi(IOEnv.MC_TRIES)

VARIABLES st, hist, len, busy
vars == <<st, hist, len, busy>>

RECURSIVE Apply(_, _, _)
Apply(s, evs, i) == IF i > Len(evs) THEN s ELSE Apply(Do(s, evs[i]), evs, i + 1)

Model(m, k, c, a, b) == [op |-> "model", m |-> m, k |-> k, c |-> c, a |-> a, b |-> b, swap |-> m = "N"]
Sim(s, ms, conf) == [op |-> "sim", s |-> s, ms |-> ms, end |-> <<1, 1>>, n |-> 5, conf |-> conf]

\* bounds which differ from parameter to parameter
B1 == [a_M |-> <<<<-1, 1>>, <<2, 1>>>>, b_M |-> <<<<1, 2>>, <<3, 2>>>>, a_N |-> <<<<-2, 1>>, <<0, 1>>>>, a_K |-> <<<<-1, 1>>, <<1, 2>>>>, b_K |-> <<<<0, 1>>, <<1, 1>>>>]
B2 == [a_M |-> <<<<1, 2>>, <<1, 1>>>>, b_M |-> <<<<-1, 1>>, <<0, 1>>>>, a_N |-> <<<<1, 2>>, <<1, 1>>>>, a_K |-> <<<<0, 1>>, <<2, 1>>>>, b_K |-> <<<<-1, 1>>, <<-1, 2>>>>]
List(B, pars) == [i \in 1..Len(pars) |-> B[pars[i]]]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Obj == [s |-> <<<<"y_M", 1, 2>>, <<"z_M", 3, 1>>, <<"y_N", -2, 1>>>>, t |-> <<<<"y_K", 2, 1>>, <<"z_K", -1, 2>>>>, w |-> <<<<"z_M", 1, 1>>, <<"y_M", 1, 2>>>>]

Prob(q, s, pars, bounded, max, ready) ==
    [op |-> "oprob", q |-> q, pars |-> pars, obj |-> Obj[s], how |-> IF max THEN "name" ELSE "obj", bounds |-> IF bounded THEN List(B2, pars) ELSE <<>>,
     bform |-> IF max THEN "tuple" ELSE "set", max |-> max, ready |-> ready]
Cons(pars, form) ==
    CASE form = "none" -> [form |-> "none", names |-> <<>>, b |-> <<>>]
      [] form = "dict" -> [form |-> "dict", names |-> Rev(pars), b |-> List(B1, Rev(pars))]
      [] form = "short" -> [form |-> "dict", names |-> Tail(pars), b |-> List(B1, Tail(pars))]
      [] OTHER -> [form |-> form, names |-> <<>>, b |-> List(B1, pars)]
Study(o, q, s, pars, cons, max, alg, conf, how) ==
    [op |-> "study", o |-> o, q |-> q, s |-> s, pars |-> pars, how |-> how, conf |-> [form |-> conf, end |-> <<2, 1>>, n |-> 8], cons |-> Cons(pars, cons),
     later |-> max, max |-> max, alg |-> alg, oform |-> IF conf = "dict" THEN "file" ELSE IF conf = "dump" THEN "saved" ELSE "dict", ind |-> 8, gen |-> 2]
Result(o) == [op |-> "result", o |-> o]

Base == <<Model("M", "alg", <<2, -1, 1, 3, 1>>, <<1, 1>>, <<>>), Model("N", "alg", <<1, 2, 0, 1, -1>>, <<>>, <<1, 2>>), Model("K", "ode", <<1, -2, 1, 2, 1>>, <<1, 2>>, <<1, 1>>),
          Sim("s", <<"M", "N">>, TRUE), Sim("t", <<"K">>, TRUE), Sim("w", <<"M">>, FALSE)>>
PB == <<"b_M", "a_N">>
Prelude ==
    IF Focus = "forms" THEN Base
    ELSE Base \o <<Prob("q", "s", PB, TRUE, FALSE, TRUE), Prob("r", "s", PB, FALSE, TRUE, TRUE), Prob("p", "t", <<"b_K", "a_K">>, TRUE, FALSE, FALSE),
                   Study("x", "q", "s", PB, "none", FALSE, "pso", "none", "name"), Study("y", "q", "s", PB, "dict", TRUE, "de", "dict", "obj"),
                   Study("z", "p", "t", <<"b_K", "a_K">>, "list", FALSE, "sade", "file", "obj")>>

Choices == {<<"s", <<"b_M", "a_M", "a_N">>>>, <<"s", <<"a_N", "b_M">>>>, <<"t", <<"b_K", "a_K">>>>, <<"t", <<"a_K">>>>, <<"w", <<"b_M">>>>}
FormBlocks ==
    IF "q" \notin DOMAIN st.q THEN {Prob("q", c[1], c[2], b, m, r) : c \in Choices, b \in BOOLEAN, m \in BOOLEAN, r \in BOOLEAN}
    ELSE IF "x" \notin DOMAIN st.o
    THEN LET q == st.q["q"]
             s == CHOOSE u \in DOMAIN Obj : Obj[u] = q.obj
         IN {Study("x", "q", s, q.pars, cf, m, alg, conf, how) : cf \in {"none", "dict", "tuple", "list"} \cup (IF Len(q.pars) = 1 THEN {"flat"} ELSE {"short"}),
               m \in BOOLEAN, alg \in {"de", "pso", "sade", "ga"}, conf \in {"none", "dict", "file", "dump"}, how \in {"obj", "name"}}
    ELSE {[op |-> "ready", q |-> "q"]} \cup {Result("x")}
         \cup {[op |-> "run", o |-> "x", seed |-> 7, show |-> TRUE, freq |-> st.o["x"].max, log |-> ~st.q["q"].max, graph |-> ~st.o["x"].max]}
StudyBlocks ==
    {[op |-> "run", o |-> o, seed |-> 3, show |-> FALSE, freq |-> FALSE, log |-> o # "y", graph |-> o = "z"] : o \in DOMAIN st.o}
    \cup {[op |-> "cons", o |-> o, cons |-> Cons(st.o[o].pars, f), pars |-> st.o[o].pars] : o \in {"x", "z"}, f \in {"dict", "tuple"}}
    \cup {[op |-> "setq", o |-> o, q |-> q] : o \in {"x", "y"}, q \in {"q", "r"}}
    \cup {[op |-> "value", m |-> "M", p |-> "a", v |-> <<-1, 1>>], [op |-> "value", m |-> "K", p |-> "b", v |-> <<3, 1>>]}
    \cup {[op |-> "ready", q |-> "p"]} \cup {Result(o) : o \in DOMAIN st.o}

Init == hist = Prelude /\ st = Apply(Init0, Prelude, 1) /\ len = 0 /\ busy = ""
\* a step of the user
Ask ==
    /\ busy = "" /\ len < Depth
    /\ \E ev \in (IF Focus = "forms" THEN FormBlocks ELSE StudyBlocks) :
          /\ st' = Do(st, ev)
          /\ hist' = hist \o (IF ev.op = "run" THEN <<ev, Result(ev.o)>> ELSE <<ev>>)
          /\ len' = len + 1
          /\ busy' = IF ev.op = "run" THEN ev.o ELSE ""
\* a candidate: corners and middle of the bounds
Side(b) == LET lo == Fix8(b[1]) hi == Fix8(b[2]) IN {lo, hi, (lo + hi) \div 2}
Candidates(b) == {x \in [1..Len(b) -> UNION {Side(b[i]) : i \in 1..Len(b)}] : (\A i \in 1..Len(b) : x[i] \in Side(b[i])) /\ (Len(b) < 2 \/ x[1] # Fix8(b[1][1]))}
Try ==
    /\ busy # "" /\ Runnable(st, busy) /\ Len(st.o[busy].log) < Tries
    /\ \E x \in Candidates(st.o[busy].in) :
          st' = Do(st, [op |-> "eval", o |-> busy, x |-> x, f |-> Objective(st, busy, OutputsAt(st, busy, x))])
    /\ UNCHANGED <<hist, len, busy>>
End ==
    /\ busy # "" /\ (Len(st.o[busy].log) > 0 \/ ~Runnable(st, busy))
    /\ st' = Do(st, [op |-> "ran", o |-> busy])
    /\ busy' = "" /\ UNCHANGED <<hist, len>>
Next == Ask \/ Try \/ End
Spec == Init /\ [][Next]_vars

Emit == (busy = "" /\ busy' # "") => PrintT("@@H" \o ToJson(SubSeq(hist', Len(Prelude) + 1, Len(hist'))))
EmitPrelude == (len = 0) => PrintT("@@P" \o ToJson(Prelude))
View == IF Focus = "forms" THEN <<st, len, busy, hist>> ELSE <<st, len, busy, <<>>>>

\* keeping the best point so far, as the algorithms do
RECURSIVE Champion(_, _, _)
Champion(id, i, b) ==
    LET l == st.o[id].log IN
    IF i > Len(l) THEN b
    ELSE Champion(id, i + 1, IF b = 0 \/ ~Good(st, id, l[b].f, l[i].f) THEN i ELSE b)
Inv_Report ==
    \A id \in DOMAIN st.o : st.o[id].log # <<>> =>
        /\ Champion(id, 1, 0) \in Optimal(st, id)
        /\ \A i \in Optimal(st, id), j \in Optimal(st, id) : st.o[id].log[i].f = st.o[id].log[j].f
Inv_Within ==
    \A id \in DOMAIN st.o : \A i \in 1..Len(st.o[id].log) : Within(st.o[id].in, st.o[id].log[i].x)
\* a study does not touch the others, nor the models
OwnLog ==
    [][ /\ busy # "" => st'.m = st.m /\ st'.q = st.q /\ \A id \in DOMAIN st.o \ {busy} : st'.o[id] = st.o[id]
        /\ busy = "" => \A id \in DOMAIN st.o : st'.o[id].log = st.o[id].log \/ busy' = id ]_vars
=============================================================================

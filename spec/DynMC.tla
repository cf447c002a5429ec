-------------------------------- MODULE DynMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Dyn on small domains, configurations and      *)
(* dynamic problems; every explored transition is printed as a history for *)
(* the real library.                                                       *)
(***************************************************************************)
EXTENDS Dyn, Json, IOUtils

Focus == IOEnv.MC_FOCUS          \* "domain" | "conf" | "ode" | "dae" | "alg"
Depth == atoi(IOEnv.MC_DEPTH)

VARIABLES st, hist
vars == <<st, hist>>

RECURSIVE Apply(_, _, _)
Apply(s, evs, i) == IF i > Len(evs) THEN s ELSE Apply(Do(s, evs[i]), evs, i + 1)

E0 == EmptyFn
Env(tok) == [op |-> "env", tok |-> tok]
DomEv(d, inds) == [op |-> "dom", d |-> d, inds |-> inds, how |-> IF Len(inds) = 1 THEN "single" ELSE "list"]
Dist(d, v) == [op |-> "dist", d |-> d, v |-> v]
Conf0(s, expl, dict, file) == [op |-> "conf", s |-> s, expl |-> expl, dict |-> dict, file |-> file]
X(m, b) == <<"q", m, Q(b, m)>>
D(m, b) == <<"d", m, Q(b, m), Q("t", m)>>
N(i) == <<"num", RInt(i)>>
Var(m, b) == [name |-> Q(b, m), base |-> b, kind |-> "v", set |-> <<>>, exp |-> ""]
Par(m, b, v) == [name |-> Q(b, m), base |-> b, kind |-> "p", set |-> v, exp |-> ""]
DEq(b, m, y, rhs) == [base |-> b, two |-> TRUE, l |-> D(m, y), r |-> rhs, x |-> Q(y, m), rhs |-> rhs, dif |-> TRUE]
AEq(b, m, y, rhs) == [base |-> b, two |-> TRUE, l |-> X(m, y), r |-> rhs, x |-> Q(y, m), rhs |-> rhs, dif |-> FALSE]
REq(b, m, y, rhs) == [base |-> b, two |-> FALSE, l |-> <<"sub", rhs, X(m, y)>>, r |-> <<>>, x |-> Q(y, m), rhs |-> rhs, dif |-> FALSE]

ModelEv ==
    CASE Focus = "ode" -> [op |-> "dmodel", m |-> "A", objs |-> <<Var("A", "u"), Par("A", "k", RInt(2)), Var("A", "v"), Var("A", "t")>>,
                           eqs |-> <<DEq("e1", "A", "v", <<"mul", N(2), X("A", "t")>>),
                                     DEq("e2", "A", "u", <<"mul", X("A", "k"), X("A", "v")>>)>>]
      [] Focus = "dae" -> [op |-> "dmodel", m |-> "A", objs |-> <<Var("A", "w"), Par("A", "k", RInt(2)), Var("A", "v"), Var("A", "t"), Var("A", "u")>>,
                           eqs |-> <<AEq("a1", "A", "u", <<"add", <<"mul", X("A", "v"), X("A", "v")>>, N(1)>>),
                                     DEq("e1", "A", "v", <<"sub", X("A", "k"), N(1)>>),
                                     REq("a2", "A", "w", <<"sub", X("A", "u"), X("A", "v")>>)>>]
      [] OTHER -> [op |-> "dmodel", m |-> "A", objs |-> <<Var("A", "x"), Par("A", "k", RInt(2)), Var("A", "y")>>,
                   eqs |-> <<AEq("a1", "A", "y", <<"add", X("A", "x"), N(1)>>),
                             REq("a2", "A", "x", <<"mul", X("A", "k"), N(3)>>)>>]

Unk == CASE Focus = "ode" -> <<"v_A", "u_A">> [] OTHER -> <<"w_A", "v_A", "u_A">>
TokD == ("d:D" :> "D") @@ ("d:E" :> "E") @@ ("0.0" :> Zero) @@ ("0.5" :> <<1, 2>>) @@ ("1.0" :> One) @@ ("2.0" :> RInt(2))
        @@ ("100" :> <<100, 1>>) @@ ("2" :> <<2, 1>>) @@ ("4" :> <<4, 1>>) @@ ("map:" :> EmptyFn) @@ ("null" :> <<>>)
        @@ ("nums:0.0,0.5,2.0" :> <<Zero, <<1, 2>>, RInt(2)>>) @@ ("list:t_A" :> <<"t_A">>)
        @@ ("map:u_A=speed" :> ("u_A" :> "speed"))
        @@ ("list:time,a,b" :> <<"time", "a", "b">>) @@ ("list:time,a,b,c" :> <<"time", "a", "b", "c">>)
Heads == IF Focus = "ode" THEN "list:time,a,b" ELSE "list:time,a,b,c"
DynConf(dom, solver) == [domain |-> dom, is_dynamic |-> "true", end_time |-> "2.0", number_of_time_steps |-> "2", output_headers |-> Heads]
                        @@ (IF solver = "" THEN EmptyFn ELSE ("differential_solver" :> solver))
IC(v, u) == [op |-> "ic", p |-> "p",
             conds |-> ("t_A" :> Zero) @@ ("v_A" :> v) @@ ("u_A" :> u) @@ (IF Focus = "dae" THEN ("w_A" :> One) ELSE EmptyFn),
             slopes |-> IF Focus = "dae" THEN ("v_A_d" :> One) ELSE EmptyFn]
Sim(s) == <<[op |-> "sim", s |-> s], [op |-> "setprob", s |-> s, p |-> "p"]>>
DistAll(d, l) == [i \in 1..Len(l) |-> Dist(d, l[i])]
Rev(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]

Prelude ==
    CASE Focus = "domain" ->
           <<Env(E0), [op |-> "vars", names |-> <<"t", "s", "u", "v">>], DomEv("D", <<"t">>), DomEv("E", <<"s", "t">>), Dist("D", "u"), Dist("E", "u")>>
      [] Focus = "conf" ->
           <<Env(TokD), [op |-> "vars", names |-> <<"t", "u">>], DomEv("D", <<"t">>), Dist("D", "u"), [op |-> "sim", s |-> "s"], [op |-> "sim", s |-> "r"],
             [op |-> "write", f |-> "f", opts |-> [number_of_time_steps |-> "5", linear_solver |-> "s:scipy", initial_guess |-> "map:u=2.0", end_time |-> "2.0"]]>>
      [] Focus = "alg" ->
           <<Env(TokD), ModelEv, [op |-> "dprob", p |-> "p", ms |-> <<"A">>, tv |-> <<>>, single |-> FALSE], [op |-> "dresolve", p |-> "p"]>>
             \o Sim("s") \o Sim("r") \o <<Conf0("s", E0, E0, ""), Conf0("r", [compile_equations |-> "false"], E0, "")>>
      [] OTHER ->
           <<Env(TokD), ModelEv, DomEv("D", <<"t_A">>), DomEv("E", <<"t_A">>)>>
             \o DistAll("D", Unk) \o DistAll("E", Rev(Unk))
             \o <<[op |-> "dprob", p |-> "p", ms |-> <<"A">>, tv |-> <<"t_A">>, single |-> FALSE], [op |-> "dresolve", p |-> "p"], IC(One, Zero)>> \o Sim("s") \o Sim("r")
             \o <<Conf0("s", DynConf("d:D", ""), E0, ""), Conf0("r", DynConf("d:E", "s:CVODE") @@ [compile_equations |-> "false"], E0, "")>>

(*--------------------------------- events --------------------------------*)
Stamp(j) == RInt(10 * Len(hist) + j)
Rows(n, w) == [k \in 1..n |-> [j \in 1..w |-> RAdd(Stamp(j), <<k, 2>>)]]
RegEv(d, i, n, w, a) == [op |-> "reg", d |-> d, ind |-> i, rows |-> Rows(n, w), arr |-> a]
Width(d) == Len(st.d[d].inds) + Len(st.d[d].deps)
DomainEvents ==
    {Dist(d, v) : d \in {"D", "E"}, v \in {"u", "v"}}
    \cup {RegEv("D", "", n, Width("D"), n = 2) : n \in {1, 2}}
    \cup {RegEv("E", i, 2, Width("E"), TRUE) : i \in {"", "s"}}
    \cup {RegEv(d, "", 1, w, FALSE) : <<d, w>> \in {x \in {"D", "E"} \X {1, 2, 3, 4} : x[2] # Width(x[1])}}
    \cup {[op |-> "dreset", d |-> d] : d \in {"D", "E"}}
    \cup {[op |-> "call", d |-> "E", inds |-> l] : l \in {<<>>, <<"t">>}}
    \cup {[op |-> "ren", d |-> "D", map |-> ("u" :> "speed")], [op |-> "ren", d |-> "E", map |-> ("u" :> "s" @@ "s" :> "u")]}
    \cup {[op |-> "get", d |-> "D", inds |-> <<"t">>, heads |-> h, single |-> Len(h) = 1] : h \in {<<"u">>, <<"t", "u">>, <<"speed">>}}
    \cup {[op |-> "get", d |-> "E", inds |-> i, heads |-> <<"u", "s">>, single |-> FALSE] : i \in {<<"s">>, <<"t">>, <<"t", "s">>}}

Expls == {E0, [number_of_time_steps |-> "7", compile_equations |-> "false"],
          [linear_solver |-> "s:sympy", initial_guess |-> "map:u=1.0", domain |-> "d:D"], [number_of_time_steps |-> "100", output_headers |-> "list:a,b"]}
Dicts == {E0, [number_of_time_steps |-> "9", end_time |-> "1.0"]}
ConfEvents ==
    {Conf0(x[1], x[2], x[3], x[4]) : x \in {"s", "r"} \X Expls \X Dicts \X ({""} \cup DOMAIN st.f)}
    \cup {[op |-> "dump", s |-> s, f |-> "g"] : s \in {x \in DOMAIN st.s : st.s[x].conf # EmptyFn}}
    \cup {[op |-> "write", f |-> "g", opts |-> E0], [op |-> "write", f |-> "f", opts |-> [times_for_solution |-> "nums:0.0,0.5,2.0"]]}
    \cup {[op |-> "sreset", s |-> s] : s \in DOMAIN st.s}

RunEv(s, show) == [op |-> "run", s |-> s, wit |-> E0, show |-> show, limit |-> 20]
Common ==
    {RunEv("s", FALSE), RunEv("r", FALSE)}
    \cup {[op |-> "dresolve", p |-> "p"]}
    \cup {[op |-> "setp", m |-> "A", n |-> "k_A", num |-> v] : v \in {RInt(3), RInt(1)}}
    \cup {[op |-> "results", s |-> s, type |-> t] : s \in {"s", "r"}, t \in {"list", "dict", "table"}}
    \cup {[op |-> "sreset", s |-> s] : s \in {"s", "r"}}
DynEvents ==
    Common
    \cup {IC(RInt(2), RInt(3)), [IC(One, Zero) EXCEPT !.conds = [n \in (DOMAIN IC(One, Zero).conds) |-> IF n = "v_A" THEN RInt(-1) ELSE IC(One, Zero).conds[n]]]}
    \cup {[op |-> "dreset", d |-> d] : d \in {"D", "E"}}
    \cup {[op |-> "show", s |-> s] : s \in {"s"}}
    \cup {Conf0("s", DynConf("d:D", "s:CVODE"), E0, ""),
          Conf0("s", [number_of_time_steps |-> "4", initial_time |-> "1.0"] @@ DynConf("d:D", ""), E0, ""),
          Conf0("s", DynConf("d:D", ""), [times_for_solution |-> "nums:0.0,0.5,2.0", variable_name_map |-> "map:u_A=speed"], ""),
          Conf0("s", DynConf("d:E", ""), E0, ""),
          Conf0("r", [is_dynamic |-> "true", time_variable_name |-> "list:t_A", domain |-> "d:E", end_time |-> "1.0", number_of_time_steps |-> "2"], E0, ""),
          Conf0("r", E0, E0, "")}
AlgEvents ==
    Common
    \cup {Conf0("s", E0, [linear_solver |-> t], "") : t \in {"s:sympy", "s:scipy", "null"}}
    \cup {Conf0("r", [linear_solver |-> l, nonlinear_solver |-> n], E0, "") : l \in {"s:simplex", "s:sympy"}, n \in {"s:simplex", "s:*"}}
    \cup {[op |-> "show", s |-> s] : s \in {"s"}}

Events == CASE Focus = "domain" -> DomainEvents [] Focus = "conf" -> ConfEvents [] Focus = "alg" -> AlgEvents [] OTHER -> DynEvents
Ran(s) == st.s[s].res # "none"
Sensible(ev) ==
    /\ ev.op = "run" => st.p["p"].resolved
    /\ ev.op = "show" => Ran(ev.s)
    /\ ev.op = "results" => (Ran(ev.s) \/ ev.type = "dict")
    \* the options belong to the run whose results are read
    /\ (ev.op \in {"results", "show"} /\ Focus \in {"ode", "dae"}) => st.s[ev.s].conf.domain # "null"
    \* the initial conditions hold at the first point
    /\ ev.op = "run" /\ Focus \in {"ode", "dae"} =>
          (st.s[ev.s].conf.times_for_solution = "null" \/ st.s[ev.s].conf.initial_time = "0.0")

Init == hist = Prelude /\ st = Apply(Init0, Prelude, 1)
Next ==
    /\ Len(hist) < Len(Prelude) + Depth
    /\ \E ev \in Events :
          /\ Sensible(ev)
          /\ st' = Do(st, ev)
          /\ hist' = Append(hist, ev)
Spec == Init /\ [][Next]_vars

Emit == PrintT("@@H" \o ToJson(SubSeq(hist', Len(Prelude) + 1, Len(hist'))))
EmitPrelude == (Len(hist) = Len(Prelude)) => PrintT("@@P" \o ToJson(Prelude))
View == <<st, Len(hist)>>

Inv_Shaped == Shaped(st)
Inv_TypeConf == TypeConf(st)

\* what a domain holds after a run satisfies the initial conditions, and the
\* grid is strictly the requested one
Last == hist'[Len(hist')]
Inv_Known ==
    \A s \in DOMAIN st.s : st.s[s].res = "dyn" => st.s[s].out # <<>> /\ \A k \in 1..Len(st.s[s].out) : \A j \in 1..Len(st.s[s].out[k]) : IsDef(st.s[s].out[k][j])

\* the result of a run is a function of the problem and the options alone:
\* repeating it changes nothing, nor does forgetting everything before it
Fresh(s, ev) == [s EXCEPT !.s = [x \in DOMAIN @ |-> [@[x] EXCEPT !.res = "none", !.out = <<>>, !.sol = EmptyFn]],
                          !.d = [x \in DOMAIN @ |-> Clear(@[x])]]
Memoryless ==
    [][ (Last.op = "run" /\ ~Fails(st, Last)) =>
          /\ Do(st', Last) = st'
          /\ LET f == Do(Fresh(st, Last), Last) IN
             /\ f.s[Last.s].out = st'.s[Last.s].out
             /\ f.s[Last.s].sol = st'.s[Last.s].sol
             /\ st'.s[Last.s].rdom # "" => f.d[st'.s[Last.s].rdom] = st'.d[st'.s[Last.s].rdom] ]_vars

\* operations change only what they are about
Frame ==
    [][ /\ \A d \in DOMAIN st.d : st'.d[d] # st.d[d] =>
              CASE Last.op \in {"dist", "reg", "dreset", "call", "ren"} -> d = Last.d
                [] Last.op = "run" -> d = SimDom(st, st.s[Last.s].conf)
                [] Last.op = "sreset" -> d = st.s[Last.s].rdom
                [] OTHER -> FALSE
        /\ \A s \in DOMAIN st.s : st'.s[s] # st.s[s] => Last.op \in {"run", "conf", "sreset"} /\ s = Last.s
        /\ Last.op \in {"run", "sreset"} => \A s \in DOMAIN st.s : st'.s[s].conf = st.s[s].conf
        /\ Last.op = "conf" => \A k \in Options : st'.s[Last.s].conf[k] \in {Defaults[k]} \cup {f[k] : f \in {g \in {Last.expl, Last.dict, FileOf(st, Last)} : k \in DOMAIN g}}
        /\ (Last.op \notin {"setp", "dresolve", "ic"}) => st'.p = st.p
        /\ Fails(st, Last) => st' = st ]_vars

\* every row that was registered stays, in order, until the domain is cleared
Kept ==
    [][ Last.op = "reg" => \A i \in DOMAIN st.d[Last.d].tabs :
            SubSeq(st'.d[Last.d].tabs[i].rows, 1, Len(st.d[Last.d].tabs[i].rows)) = st.d[Last.d].tabs[i].rows ]_vars

\* a dumped configuration reads back to the same options
RoundTrip ==
    [][ Last.op = "dump" => LET c == Conf(st', Conf0("s", [domain |-> st.s[Last.s].conf.domain], E0, Last.f)) IN c = st.s[Last.s].conf ]_vars
=============================================================================

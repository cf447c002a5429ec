------------------------------ MODULE TraceDyn ------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real library against Dyn.      *)
(* After every event the driver dumps the tables of all domains, the       *)
(* options of all simulations and whether the results handed out earlier   *)
(* are still what they were.                                               *)
(***************************************************************************)
EXTENDS Dyn, TraceBase

VARIABLES ti, ei, st, dirty, bad
vars == <<ti, ei, st, dirty, bad>>

\* a value and its observation in fixed point
Close(a, s) ==
    IF ~IsDef(a) THEN TRUE
    ELSE IF IAbs(s) > 1500000000 THEN FALSE
    ELSE IF IsExact(a) THEN IAbs(Fix(a) - s) <= 3 + IAbs(s) \div 300000
    ELSE IAbs(a[1] - s) <= (-a[2]) + 5 + IAbs(s) \div 300000
RowClose(r, o) == Len(r) = Len(o) /\ \A i \in 1..Len(r) : Close(r[i], o[i])

(*-------------------------------- tables ---------------------------------*)
TabDev(tb, o) ==
    {c \in {"columns", "count", "grid", "values"} :
        CASE c = "columns" -> o.cols # <<>> /\ o.cols # tb.cols
          [] c = "count" -> Len(o.rows) # Len(tb.rows)
          [] c = "grid" -> \E k \in 1..IMin(Len(o.rows), Len(tb.rows)) : o.rows[k] = <<>> \/ ~Close(tb.rows[k][1], o.rows[k][1])
          [] c = "values" -> \E k \in 1..IMin(Len(o.rows), Len(tb.rows)) : ~RowClose(tb.rows[k], o.rows[k])}
DomDev(dd, o) ==
    (IF {o[i].ind : i \in 1..Len(o)} # DOMAIN dd.tabs \/ Len(o) # Cardinality(DOMAIN dd.tabs) THEN {"tables"} ELSE {})
    \cup (IF dd.unk THEN {} ELSE UNION {TabDev(dd.tabs[o[i].ind], o[i]) : i \in {k \in 1..Len(o) : o[k].ind \in DOMAIN dd.tabs}})

Deviations(s, ev) ==
    UNION {{<<"d", d, c>> : c \in DomDev(s.d[d], ev.o.doms[d])} : d \in DOMAIN s.d \cap DOMAIN ev.o.doms}
    \cup UNION {{<<"c", x, k>> : k \in {y \in Options : \/ y \notin DOMAIN ev.o.confs[x]
                                                        \/ /\ ev.o.confs[x][y] # s.s[x].conf[y]
                                                           /\ ~(y = "time_variable_name" /\ s.s[x].conf[y] = "null")}} :
                x \in {y \in DOMAIN s.s : s.s[y].conf # EmptyFn /\ y \in DOMAIN ev.o.confs}}
    \cup (IF ev.o.held THEN {} ELSE {<<"h", "", "earlier">>})

Again == \E i \in 1..(ei - 1) : Traces[ti][i].op = "run"
RunTag == IF Again THEN "C13+C16." ELSE "C13."
AlgTag == IF Again THEN "C12+C16." ELSE "C12."

Blame(s, ev, x) ==
    CASE x[1] = "h" -> "C14+C16.earlier"
      [] x[1] = "c" -> (IF ev.op = "conf" /\ ev.s = x[2] THEN "C15.effective_" \o x[3] ELSE "C15.leak_" \o x[3])
      [] ev.op = "run" -> (IF x[2] = SimDom(s, s.s[ev.s].conf) THEN RunTag \o x[3] ELSE "C14.other_" \o x[3])
      [] ev.op = "sreset" -> "C14+C15.reset_" \o x[3]
      [] ev.op \in {"dom", "dist", "reg", "dreset", "call", "ren", "get"} -> (IF ev.d = x[2] THEN "C14." ELSE "C14.other_") \o x[3]
      [] OTHER -> "C14.changed_" \o x[3]

(*-------------------------------- events ---------------------------------*)
RunClauses(s, ev) ==
    LET o == ev.o
        pp == s.p[s.s[ev.s].p]
        c == s.s[ev.s].conf
    IN IF ~pp.resolved THEN {}
       ELSE IF RunFails(s, ev) THEN
            (IF ~o.ok THEN {}
             ELSE IF ~Square(s, pp) THEN {"C11.dyn_accepted"}
             ELSE IF PDyn(pp) THEN {"C13+C15.accepted"} ELSE {"C15.solver_ignored"})
       ELSE IF RunClaimed(s, ev) /\ ~o.ok /\ o.exc # "Timeout" THEN
            {(IF PDyn(pp) THEN RunTag ELSE AlgTag) \o "failed"}
            \cup (IF c = Defaults THEN {} ELSE {"C15.run_failed"})
       ELSE {}

SolOk(sol, l, named) ==
    IF named THEN /\ Len(l) = Cardinality(DOMAIN sol)
                  /\ {l[i][1] : i \in 1..Len(l)} = DOMAIN sol
                  /\ \A i \in 1..Len(l) : l[i][1] \in DOMAIN sol => Close(sol[l[i][1]], l[i][2])
    ELSE /\ Len(l) = Cardinality(DOMAIN sol)
         /\ \A i \in 1..Len(l) : \E n \in DOMAIN sol : Close(sol[n], l[i][2])
         /\ \A n \in DOMAIN sol : \E i \in 1..Len(l) : Close(sol[n], l[i][2])

ResultClauses(s, ev) ==
    LET o == ev.o
        ss == s.s[ev.s]
        D == SimDom(s, ss.conf)
        dd == s.d[D]
    IN IF ev.type \notin {"list", "dict"} THEN (IF o.ok THEN {"C21.type"} ELSE {})
       ELSE IF ss.res = "dyn" THEN
            IF D # ss.rdom \/ D = "" THEN {}
            ELSE IF ~o.ok THEN {"C13+C21.results_failed"}
            ELSE IF dd.unk THEN {}
            ELSE IF ev.type = "dict" THEN
                 {"C13+C21.dict_" \o c : c \in DomDev(dd, o.tabs)}
            ELSE LET inds == dd.inds IN
                 IF Len(o.tabs) # Cardinality(DOMAIN dd.tabs) THEN {"C13+C21.list_tables"}
                 ELSE UNION {{"C13+C21.list_" \o c : c \in TabDev(dd.tabs[i], o.tabs[1])} : i \in {x \in DOMAIN dd.tabs : Cardinality(DOMAIN dd.tabs) = 1}}
       ELSE IF ss.res = "alg" THEN
            IF ~o.ok THEN {"C12+C21.results_failed"}
            ELSE IF ~SolOk(ss.sol, o.sol, ev.type = "dict") THEN {AlgTag \o "results", "C21.results_" \o ev.type} ELSE {}
       ELSE IF ss.res = "none" /\ o.ok THEN
            (IF o.sol # <<>> THEN {"C15.results_kept"} ELSE {})
            \cup (IF D # "" /\ ~dd.unk /\ \E i \in 1..Len(o.tabs) : o.tabs[i].rows # <<>> /\ \A k \in DOMAIN dd.tabs : dd.tabs[k].rows = <<>>
                  THEN {"C15.results_kept"} ELSE {})
       ELSE {}

ShowClauses(s, ev) ==
    LET o == ev.o  ss == s.s[ev.s]  c == ss.conf IN
    IF ss.res = "dyn" /\ c.is_dynamic = "true" /\ c.output_headers # "null" /\ c.domain # "null" THEN
        IF ss.out = <<>> THEN {}
        ELSE IF ~o.ok THEN {"C21.show_failed"}
        ELSE (IF o.heads # s.tok[c.output_headers] THEN {"C21.show_heads"} ELSE {})
             \cup (IF Len(o.cells) # Len(ss.out) \/ \E k \in 1..IMin(Len(o.cells), Len(ss.out)) : ~RowClose(ss.out[k], o.cells[k])
                   THEN {"C13+C21.show_rows"} ELSE {})
    ELSE {}

\* a plot draws each column asked for against each abscissa, once, with its
\* name and mark, on a fresh figure, and goes where it was asked to go
PlotInd(s, ev) == IF ev.how = "name" THEN s.d[ev.d].inds[1] ELSE ev.ind
PlotFails(s, ev) ==
    LET i == PlotInd(s, ev) IN
    \/ i \notin DOMAIN s.d[ev.d].tabs
    \/ ~((Rng(ev.xs) \cup Rng(ev.ys)) \subseteq Rng(s.d[ev.d].tabs[i].cols))
Curves(s, ev) ==
    LET tb == s.d[ev.d].tabs[PlotInd(s, ev)]
        col(h) == CHOOSE j \in 1..Len(tb.cols) : tb.cols[j] = h
        data(h) == [k \in 1..Len(tb.rows) |-> tb.rows[k][col(h)]]
        n == Len(ev.ys)
    IN [q \in 1..(Len(ev.xs) * n) |->
            LET i == ((q - 1) \div n) + 1  j == ((q - 1) % n) + 1 IN
            <<data(ev.xs[i]), data(ev.ys[j]), IF ev.labels = <<>> THEN "" ELSE ev.labels[j], IF ev.markers = <<>> THEN "" ELSE ev.markers[j]>>]
SameCurve(c, l) == c[3] = l[3] /\ c[4] = l[4] /\ RowClose(c[1], l[1]) /\ RowClose(c[2], l[2])
Shots(ev) == (IF ev.file = "" THEN {} ELSE {"file " \o ev.file}) \cup (IF ev.show THEN {"show"} ELSE {})
Spans(lim, X) ==
    LET lo == CHOOSE x \in X : \A y \in X : x <= y  hi == CHOOSE x \in X : \A y \in X : x >= y
    IN lo = hi \/ (Len(lim) = 1 /\ IAbs(lim[1][1] - lo) <= 3 /\ IAbs(lim[1][2] - hi) <= 3)
PlotClauses(s, ev) ==
    LET o == ev.o IN
    IF s.d[ev.d].unk THEN {}
    ELSE IF PlotFails(s, ev) THEN (IF o.ok THEN {"C21.plot_missing"} ELSE {})
    ELSE IF s.d[ev.d].tabs[PlotInd(s, ev)].rows = <<>> THEN {}
    ELSE IF ~o.ok THEN {"C21.plot_failed"}
    ELSE LET cs == Curves(s, ev) IN
         (IF {o.shots[i].how : i \in 1..Len(o.shots)} # Shots(ev) \/ Len(o.shots) # Cardinality(Shots(ev)) THEN {"C21.plot_output"} ELSE {})
         \cup (IF o.left # 0 THEN {"C21.plot_left"} ELSE {})
         \cup UNION {LET t == o.shots[i] IN
              (IF /\ Len(t.curves) = Len(cs)
                  /\ \A q \in 1..Len(cs) : SameCurve(cs[q], t.curves[q])
               THEN {} ELSE {"C21.plot_curves"})
              \* one abscissa is shown from its smallest value to its largest one
              \cup (IF Len(ev.xs) = 1 /\ t.curves # <<>> /\ ~Spans(t.lim, Rng(t.curves[1][1])) THEN {"C21.plot_limits"} ELSE {})
              \cup (IF t.axes # <<IF ev.axes = <<>> THEN <<"time", "output">> ELSE ev.axes>> THEN {"C21.plot_axes"} ELSE {})
              \cup (IF ev.legend /\ ev.labels # <<>> /\ t.legend # [q \in 1..Len(cs) |-> cs[q][3]] THEN {"C21.plot_legend"} ELSE {})
              \cup (IF ~ev.legend /\ t.legend # <<>> THEN {"C21.plot_legend"} ELSE {})
            : i \in 1..Len(o.shots)}

OpClauses(s, ev) ==
    LET o == ev.o IN
    CASE ev.op = "reg" -> (IF RegFails(s, ev) THEN (IF o.ok THEN {"C14.accepted"} ELSE {}) ELSE IF o.ok THEN {} ELSE {"C14.refused"})
      [] ev.op = "get" ->
            IF s.d[ev.d].unk THEN {}
            ELSE IF Fails(s, ev) THEN (IF o.ok THEN {"C14.get_missing"} ELSE {})
            \* tables of different lengths do not make one array
            ELSE IF Cardinality({Len(s.d[ev.d].tabs[i].rows) : i \in Rng(ev.inds)}) > 1 THEN {}
            ELSE IF ~o.ok THEN {"C14.get_failed"}
            \* one series for each of the names of each of the tables
            ELSE LET h == Len(ev.heads)
                     tb(j) == s.d[ev.d].tabs[ev.inds[(j - 1) \div h + 1]]
                     col(j) == CHOOSE c \in 1..Len(tb(j).cols) : tb(j).cols[c] = ev.heads[((j - 1) % h) + 1]
                 IN IF /\ Len(o.got) = h * Len(ev.inds)
                       /\ \A j \in 1..Len(o.got) : RowClose([k \in 1..Len(tb(j).rows) |-> tb(j).rows[k][col(j)]], o.got[j])
                    THEN {} ELSE {"C14+C21.get"}
      [] ev.op \in {"dom", "dist", "dreset", "call", "ren", "vars"} -> IF o.ok THEN {} ELSE {"C14.failed"}
      [] ev.op \in {"conf", "write", "sim", "setprob", "sreset"} -> IF o.ok THEN {} ELSE {"C15.failed_" \o ev.op}
      [] ev.op = "dump" ->
            IF ~o.ok THEN {"C15.dump_failed"}
            ELSE {"C15.dump_" \o k : k \in {y \in Options \ {"domain"} : \/ y \notin DOMAIN o.file
                                                                         \/ o.file[y] # s.s[ev.s].conf[y] /\ ~(y = "time_variable_name" /\ s.s[ev.s].conf[y] = "null")}}
      [] ev.op = "run" -> RunClauses(s, ev)
      [] ev.op = "results" -> ResultClauses(s, ev)
      [] ev.op = "show" -> ShowClauses(s, ev)
      [] ev.op = "plot" -> PlotClauses(s, ev)
      [] OTHER -> IF o.ok THEN {} ELSE {"C13.failed_" \o ev.op}

\* the step the specification takes; where it makes no claim whether a run
\* succeeds it follows the library
Took(s, ev) ==
    IF ev.op = "run" THEN (IF ev.o.ok /\ ~RunFails(s, ev) THEN Run(s, ev) ELSE s)
    ELSE Do(s, ev)

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ st = Init0 /\ dirty = {} /\ bad = {}
Next ==
    /\ ei <= Len(Traces[ti])
    /\ LET ev == Traces[ti][ei]
           s2 == Took(st, ev)
           dv == Deviations(s2, ev)
           b2 == bad \cup {<<ei, c>> : c \in OpClauses(st, ev) \cup {Blame(st, ev, x) : x \in dv \ dirty}}
       IN /\ st' = s2
          /\ dirty' = dv
          /\ bad' = b2
          /\ ei' = ei + 1
          /\ ti' = ti
          /\ (ei = Len(Traces[ti])) => Verdict(ti, b2)
Spec == Init /\ [][Next]_vars
=============================================================================

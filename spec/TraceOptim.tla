------------------------------ MODULE TraceOptim ----------------------------
(***************************************************************************)
(* Validation of recorded optimisation studies against Optim. A run is     *)
(* recorded as the event "run", one "eval" per evaluation of the objective *)
(* (coordinates, outputs of the simulation, value, rank of the value among *)
(* those of the run), and "ran".                                           *)
(***************************************************************************)
EXTENDS Optim, TraceBase

VARIABLES ti, ei, st, bad
vars == <<ti, ei, st, bad>>

Close(a, b, tol) == Abs(a) > 1000000000 \/ (Abs(b) < 1000000000 /\ Abs(a - b) <= tol)
\* entries of the log of study id which are the observed point, with its value
Same(s, id, o) == {i \in 1..Len(s.o[id].log) : s.o[id].log[i].x = o.x /\ s.o[id].log[i].f = o.f}

EvalClauses(s, ev) ==
    LET id == ev.o
        want == OutputsAt(s, id, ev.x)
        got == [n \in {ev.out[i][1] : i \in 1..Len(ev.out)} |-> ev.out[CHOOSE i \in 1..Len(ev.out) : ev.out[i][1] = n][2]]
    IN IF s.o[id].in = <<>> THEN {"C17.unbounded"}
       ELSE (IF Within(s.o[id].in, ev.x) THEN {} ELSE {"C17.bounds"})
            \cup (IF Len(ev.x) = Len(s.o[id].pars)
                  THEN (IF \E n \in DOMAIN want : n \notin DOMAIN got \/ ~Close(want[n], got[n], 60) THEN {"C17.seen"} ELSE {})
                       \cup (IF DOMAIN want \subseteq DOMAIN got /\ ~Close(Objective(s, id, got), ev.f4, 200 + Abs(ev.f4) \div 500) THEN {"C17.objective"} ELSE {})
                  ELSE {})
            \cup (IF ev.n # s.o[id].n THEN {"C17.configuration"} ELSE {})

\* the best value f after n evaluations (those of the first population are not counted);
\* the genetic algorithm only tells of improvements, some time after they are found
Progress(s, id, n, f) ==
    LET l == s.o[id].log
        k == s.o[id].ind + n
    IN n >= 0 /\ k <= Len(l) /\ (\E j \in 1..k : l[j].f = f)
       /\ (s.o[id].alg = "ga" \/ \A j \in 1..k : Good(s, id, f, l[j].f))

\* an algorithm which has converged stops before it tells of that generation
Tells(s, id) == s.o[id].alg # "ga" /\ Len(s.o[id].log) > 2 * s.o[id].ind

RanClauses(s, ev) ==
    LET o == s.o[ev.o]
        k == Len(o.log)
    IN IF ~ev.ok THEN (IF Runnable(s, ev.o) /\ ev.exc # "Timeout" THEN {"C17.failed_run"} ELSE {})
       ELSE (IF Runnable(s, ev.o) THEN {} ELSE {"C17.accepted"})
            \cup (IF Len(ev.shots) # (IF ev.graph THEN 1 ELSE 0) THEN {"C17.graph_saved"} ELSE {})
            \cup (IF \A i \in 1..Len(ev.shots) : Len(ev.shots[i]) = 1 /\ LET c == ev.shots[i][1] IN (c[1] # <<>> \/ ~Tells(s, ev.o)) /\ Len(c[1]) = Len(c[2]) /\ \A j \in 1..Len(c[1]) : Progress(s, ev.o, c[1][j], c[2][j])
                  THEN {} ELSE {"C17.graph_curve"})
            \cup (IF k < o.ind \/ k > o.ind * (o.gen + 1) THEN {"C17.effort"} ELSE {})

ResultClauses(s, ev) ==
    LET o == s.o[ev.o] IN
    IF o.phase = "failed" /\ o.ever THEN {}
    ELSE IF o.phase # "done" THEN (IF ev.ok THEN {"C17.result_without_run"} ELSE {})
    ELSE IF ~ev.ok THEN {"C17.failed_result"}
    ELSE (IF Within(o.in, ev.x) THEN {} ELSE {"C17.result_bounds"})
         \cup (IF \E i \in 1..Len(o.log) : o.log[i].x = ev.x THEN {} ELSE {"C17.result_point"})
         \cup (IF Same(s, ev.o, ev) # {} THEN {} ELSE {"C17.result_value"})
         \cup (IF Same(s, ev.o, ev) \subseteq Optimal(s, ev.o) THEN {} ELSE {"C17.result_best"})

\* the log of the algorithm: values of evaluated points in the declared sense, never worse
\* The mean of the individuals' best values lies between values that were reached and is nowhere better
\* than the best of them (ev.means: the ranks it lies between).
MeansOk(s, ev) ==
    LET o == s.o[ev.o]
        top == Cardinality({o.log[j].f : j \in 1..Len(o.log)})
    IN /\ \A i \in 1..Len(ev.means) : ev.means[i][1] >= 1 /\ ev.means[i][2] <= top
       /\ Len(ev.means) \in {0, Len(ev.best)}
       /\ \A i \in 1..Len(ev.means) : IF o.up THEN ev.means[i][2] <= ev.best[i] ELSE ev.means[i][1] >= ev.best[i]

LogClauses(s, ev) ==
    LET o == s.o[ev.o] IN
    IF o.phase # "done" THEN {}
    ELSE IF ~ev.ok THEN (IF o.told THEN {"C17.failed_log"} ELSE {})
    ELSE (IF \A i \in 1..Len(ev.best) : \E j \in 1..Len(o.log) : o.log[j].f = ev.best[i] THEN {} ELSE {"C17.log_value"})
         \cup (IF \A i \in 1..(Len(ev.best) - 1) : Good(s, ev.o, ev.best[i + 1], ev.best[i]) THEN {} ELSE {"C17.log_order"})
         \cup (IF \A i \in 1..Len(ev.best) : Progress(s, ev.o, ev.evals[i], ev.best[i]) THEN {} ELSE {"C17.log_progress"})
         \cup (IF \A i \in 1..(Len(ev.gens) - 1) : ev.gens[i] < ev.gens[i + 1] /\ ev.evals[i] < ev.evals[i + 1] THEN {} ELSE {"C17.log_generations"})
         \cup (IF MeansOk(s, ev) THEN {} ELSE {"C17.log_means"})
         \cup (IF o.told /\ o.often /\ Tells(s, ev.o) /\ ev.best = <<>> THEN {"C17.log_empty"} ELSE {})

OpClauses(s, ev) ==
    CASE ev.op = "eval" -> EvalClauses(s, ev)
      [] ev.op = "ran" -> RanClauses(s, ev)
      [] ev.op = "result" -> ResultClauses(s, ev)
      [] ev.op = "olog" -> LogClauses(s, ev)
      [] ev.op = "study" -> IF ev.ok = StudyOk(s, ev) THEN {} ELSE IF ev.ok THEN {"C17.accepted_study"} ELSE {"C17.failed_study"}
      [] ev.op = "look" -> IF ev.ok /\ ev.same THEN {} ELSE {"C17.look"}
      [] OTHER -> IF ev.ok THEN {} ELSE {"C17.failed_" \o ev.op}

Init == ti \in 1..Len(Traces) /\ ei = 1 /\ st = Init0 /\ bad = {}
Next ==
    /\ ei <= Len(Traces[ti])
    /\ LET ev == Traces[ti][ei]
           b2 == bad \cup {<<ei, c>> : c \in OpClauses(st, ev)}
       IN /\ st' = Do(st, ev)
          /\ bad' = b2
          /\ ei' = ei + 1
          /\ ti' = ti
          /\ (ei = Len(Traces[ti])) => Verdict(ti, b2)
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE ToleranceTrace ----------------------------
EXTENDS Tolerance, TLC, Json
CONSTANT Focus
LOCAL SX == INSTANCE SequencesExt
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, st, ins, meas, prep, last, ok
vars == <<tid, l, st, ins, meas, prep, last, ok>>
T == Traces[tid]
Cfg == T.cfg
Cls == Cfg.cls
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Begin(T.cfg) /\ ins = {0} /\ meas = T.cfg.builtin /\ prep = [on |-> FALSE, n |-> 0, sides |-> {TRUE}]
        /\ last = [rs |-> <<>>, es |-> <<>>, all |-> <<>>, seq |-> FALSE] /\ ok = TRUE
If(c, name) == IF c THEN {} ELSE {name}
E == Elems(Cfg, st)
A == All(Cfg, st)
Flat(r) == SX!FlattenSeq(r.sims)
InfoRight(i) == SetOf(i.ins) = ins /\ i.rest /\ i.meas = meas
Infos(e) == \A i \in 1..Len(e.r.info) : InfoRight(e.r.info[i])
(* circuits of a testbench *)
MCRuns(rs, n) == /\ Len(rs) = n + 2 /\ \A i \in 1..Len(rs) : rs[i].run = i - 2
                 /\ \A i \in 1..Len(rs) : "draws" \in DOMAIN rs[i] => IsMonteCarloRun(st, A, rs[i])
                 /\ "draws" \in DOMAIN rs[1] /\ "draws" \in DOMAIN rs[2] /\ "draws" \in DOMAIN rs[Len(rs)]
BenchRight(rs) == CASE Cls \in {"wc", "fwc"} -> IsWorstCase(st, E, rs)
                    [] Cls = "qs" -> IsOneAtATime(st, A, E, rs, prep.sides)
                    [] Cls = "mc" -> MCRuns(rs, prep.n)
SplitRight(e) == \A i \in 1..Len(e.r.sims) : Len(e.r.sims[i]) >= 2 /\ (Len(e.r.sims[i]) <= e.rps \/ Len(Flat(e.r)) % e.rps = 1)
Callbacks(e) == IF e.cb THEN e.r.cb = [i \in 1..Len(e.r.sims) |-> i] ELSE e.r.cb = <<>>
(* Monte Carlo, simulation by simulation: values in tenths *)
InLimits(v, x) == IF x.dist = "uniform" THEN v >= 10 * x.lo - 1 /\ v <= 10 * x.hi + 1
                  ELSE LET m == 5 * (x.lo + x.hi) w == 12 * Abs(x.hi - x.lo) IN v >= m - w /\ v <= m + w
MCVals(v) == LET es == Names(A) IN
  /\ \A n \in es : InLimits(v[n], ElemOf(A, n))
  /\ \A n \in DOMAIN st.par \ es : v[n] = 10 * st.par[n]
  /\ \A n \in DOMAIN st.val \ es : IF st.val[n] = 0 THEN Abs(v[n] - 2 * v["p1"]) <= 2 ELSE v[n] = 10 * st.val[n]
Far(rs, x) == Cardinality({i \in 1..Len(rs) : 2 * Abs(rs[i].vals[x.n] - 5 * (x.lo + x.hi)) > 5 * Abs(x.hi - x.lo)})
RECURSIVE Total(_, _)
Total(rs, n) == IF rs = <<>> THEN 0 ELSE rs[1].vals[n] + Total(Tail(rs), n)
Spread(rs, x) == LET m == 5 * (x.lo + x.hi) h == 5 * Abs(x.hi - x.lo) n == Len(rs) t == Total(rs, x.n) - n * m IN
  /\ (IF x.dist = "uniform" THEN 100 * Far(rs, x) >= 31 * n ELSE 100 * Far(rs, x) <= 31 * n /\ Far(rs, x) > 0)
  /\ 4 * Abs(t) <= n * h
MCAnalysis(rs, n) == /\ Len(rs) = n /\ \A i \in 1..n : MCVals(rs[i].vals)
                     /\ \A x \in SetOf(E) : Cardinality({rs[i].vals[x.n] : i \in 1..n}) > 1
                     /\ (n >= 300 => \A x \in SetOf(E) : Spread(rs, x))
AnalysisRight(e) ==
  LET rs == Flat(e.r) IN
  CASE Cls = "wc" -> IsWorstCase(st, E, rs)
    [] Cls = "qs" -> IsOneAtATime(st, E, E, rs, BOOLEAN)
    [] Cls = "mc" -> MCAnalysis(rs, e.n)
    [] Cls = "fwc" -> \A i \in 1..Len(rs) : rs[i].vals = Values(st, [n \in Names(E) |-> rs[i].vals[n]]) /\ \A x \in SetOf(E) : rs[i].vals[x.n] \in {x.nom, x.lo, x.hi}
(* the fast worst case: settings at bounds that no other bound of one element improves *)
At(m) == F(Cfg, Values(st, m))
Settings(m) == DOMAIN m = Names(E) /\ \A x \in SetOf(E) : m[x.n] \in {x.lo, x.hi}
Other(m, x) == [m EXCEPT ![x.n] = IF @ = x.lo THEN x.hi ELSE x.lo]
FoundRight(f) ==
  /\ f.nom = F(Cfg, NomValues(st)) /\ Settings(f.atmin) /\ Settings(f.atmax) /\ f.min = At(f.atmin) /\ f.max = At(f.atmax)
  /\ \A x \in SetOf(E) : At(Other(f.atmax, x)) <= f.max /\ At(Other(f.atmin, x)) >= f.min
Measured(rs) == \A i \in 1..Len(rs) : Cls = "mc" \/ rs[i].m = F(Cfg, rs[i].vals)
(* answers about the results *)
Rs == last.rs
Good == SelectSeq(Rs, LAMBDA x : x.state # "fail")
Fine == SelectSeq(Rs, LAMBDA x : x.state = "ok")
MC == Cls = "mc"
(* simulations of Monte Carlo made one by one have no number of their own: they count as they were made *)
RunOf(k) == IF last.seq THEN IF k >= 0 /\ k < Len(Good) THEN <<Good[k + 1]>> ELSE <<>> ELSE SelectSeq(Good, LAMBDA x : x.run = k)
Seen(rs, op) == [i \in 1..Len(rs) |-> [run |-> rs[i].run, m |-> rs[i].m, state |-> rs[i].state, vals |-> rs[i].vals]]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Shares(n) ==   \* [part, total, changes]
  IF Cls = "wc" THEN [x \in Names(last.es) |-> Diffs(Rs, last.es, x)]
  ELSE [x \in Names(last.es) |-> LET q == {i \in 2..Len(Rs) : Rs[i].vals[x] # ElemOf(last.es, x).nom} IN [i \in q |-> Abs(Rs[i].m - Rs[1].m)]]
ShareRight(e) ==
  LET d == Shares(e.n)
      part == [x \in Names(last.es) |-> SumOver(DOMAIN d[x], d[x])]
      total == SumOver(Names(last.es), part)
      asked == IF e.n = "*" THEN Names(last.es) ELSE {e.n}
  IN  /\ e.r.k = "share" /\ asked \subseteq DOMAIN e.r.v /\ \A x \in DOMAIN e.r.v \ asked : e.r.v[x] = <<0, 0>>
      /\ DOMAIN e.r.v \subseteq (Names(last.all) \cup asked)
      /\ \A x \in asked : /\ IsShare(e.r.v[x][1], part[x], total)
                          /\ (Cls = "wc" => IsDeviation(e.r.v[x][2], d[x], total))
Right(e) ==
  CASE e.op \in {"settol", "setdev", "setpar", "resettol", "setval", "setparam", "addins", "remins", "meas", "prep", "reset"} -> If(e.r.k = "ok", "give")
    [] e.op = "save" -> If(e.r.k = "bench" /\ BenchRight(e.r.runs), "bench." \o Cls) \cup If(e.r.k = "bench" /\ InfoRight(e.r.info), "keep")
    [] e.op = "bench" -> If(e.r.k = "sims" /\ BenchRight(Flat(e.r)) /\ Measured(Flat(e.r)), "bench." \o Cls) \cup If(e.r.k = "sims" /\ Infos(e), "keep")
                         \cup If(e.r.k = "sims" => SplitRight(e), "split") \cup If(e.r.k = "sims" => Callbacks(e), "callback")
    [] e.op = "nobench" -> If(e.r.k = "err" /\ e.r.e = "NotImplementedError", "give")
    [] e.op = "analysis" -> If(e.r.k = "sims" /\ AnalysisRight(e) /\ Measured(Flat(e.r)), "analysis." \o Cls) \cup If(e.r.k = "sims" => Infos(e), "keep")
                            \cup (IF Cls = "fwc" THEN If(e.r.k = "sims" /\ FoundRight(e.r.found), "found") ELSE If(e.r.k = "sims" => Callbacks(e), "callback"))
    [] e.op = "value" -> If((last.seq /\ Len(Fine) < Len(Good)) \/ LET q == RunOf(e.k) IN IF q = <<>> THEN e.r.k = "err" /\ e.r.e = "IndexError"
                                                  ELSE IF q[1].state = "miss" THEN e.r.k = "nan" ELSE e.r.k = "num" /\ e.r.v = q[1].m, "value")
    [] e.op = "minmax" -> If(IF \E i \in 1..Len(Rs) : Rs[i].state # "ok" THEN e.r.k = "none"
                             ELSE LET S == {Rs[i].m : i \in 1..Len(Rs)} IN e.r.k = "seq" /\ e.r.v = <<MinOf(S), MaxOf(S)>>, "minmax")
    [] e.op = "all" -> If(e.r.k = "seq" /\ SelectSeq(e.r.v, LAMBDA x : x # -77777) = [i \in 1..Len(Fine) |-> Fine[i].m], "value")
    [] e.op = "sens" -> If(ShareRight(e), "share." \o Cls)
Changed(e) ==
  CASE e.op = "settol" -> LET v == [typ |-> "tol", lo |-> e.t, hi |-> 0, dist |-> e.dist] IN
                          IF e.n \in SetOf(Prefixes) THEN [st EXCEPT !.def[e.n] = v] ELSE [st EXCEPT !.dev = Put(@, e.n, v)]
    [] e.op = "setdev" -> [st EXCEPT !.dev = Put(@, e.n, [typ |-> "mm", lo |-> e.lo, hi |-> e.hi, dist |-> e.dist])]
    [] e.op = "setpar" -> [st EXCEPT !.pdev = Put(@, e.n, [typ |-> "mm", lo |-> e.lo, hi |-> e.hi, dist |-> e.dist])]
    [] e.op = "resettol" -> [st EXCEPT !.dev = <<>>, !.pdev = <<>>]
    [] e.op = "setval" -> [st EXCEPT !.val[e.n] = e.v]
    [] e.op = "setparam" -> [st EXCEPT !.par[e.n] = e.v]
    [] e.op = "reset" -> [st EXCEPT !.val = Begin(Cfg).val, !.par = Begin(Cfg).par]
    [] OTHER -> st
Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         bad == Right(e) \cap Focus
         okay == Right(e) = {}
         stop == e.op \in {"save", "bench", "analysis", "prep", "settol", "setdev", "setpar"} /\ ~okay   \* what follows has no defined state
     IN
     /\ st' = Changed(e)
     /\ ins' = IF e.op = "addins" THEN ins \cup {e.i} ELSE IF e.op = "remins" THEN ins \ {e.i} ELSE IF e.op = "reset" THEN {0} ELSE ins
     /\ meas' = IF e.op = "meas" THEN TRUE ELSE IF e.op = "reset" THEN Cfg.builtin ELSE meas
     /\ prep' = IF e.op = "prep" THEN [on |-> TRUE, n |-> IF Cls = "mc" THEN e.n ELSE 0, sides |-> {~e.min}]
                ELSE IF e.op \in {"analysis", "reset"} THEN [prep EXCEPT !.on = FALSE, !.sides = {TRUE}]
                ELSE IF e.op = "resettol" THEN [on |-> FALSE, n |-> 0, sides |-> {TRUE}] ELSE prep
     /\ last' = IF e.op \in {"bench", "analysis"} /\ e.r.k = "sims" THEN [rs |-> Seen(Flat(e.r), e.op), es |-> E, all |-> A, seq |-> Cls = "mc" /\ e.op = "analysis"] ELSE last
     /\ IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(T.ev) + 2 /\ ok' = FALSE
        ELSE IF stop THEN l' = Len(T.ev) + 1 /\ UNCHANGED ok
        ELSE l' = l + 1 /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace == l = Len(T.ev) + 1 /\ ok /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, st, ins, meas, prep, last, ok>>
Next == Step \/ EndTrace
=============================================================================

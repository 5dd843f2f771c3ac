---------------------------- MODULE RunnerTrace ----------------------------
(* Recorded executions of the real runner, validated against Runner.  One initial state per trace; every trace ends
   with a verdict: <<"DONE", tid>> or <<"FAIL", tid, line, clauses>>.  Focus restricts the clauses that count. *)
EXTENDS Runner, TLC, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, s, ok
vars == <<tid, l, s, ok>>

Ev(i, j) == Traces[i].ev[j]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
        /\ s = S0(Traces[tid].par, Traces[tid].tmo)

Outs(e) ==
  CASE e.op = "run"    -> Run(s, e.a)
    [] e.op = "now"    -> RunNow(s, e.a)
    [] e.op = "rel"    -> Release(s, e.k, e.o)
    [] e.op = "cbend"  -> CbEnd(s, e.k, e.how)
    [] e.op = "relproc" -> LET m == CHOOSE x \in Release(s, e.k, e.o) : TRUE
                           IN IF m.s.t[e.k].st = "cb" THEN CbEnd(m.s, e.k, e.how) ELSE Release(s, e.k, e.o)
    [] e.op = "tick"   -> Tick(s, e.d)
    [] e.op = "query"  -> Query(s)
    [] e.op = "info"   -> Query(s)
    [] e.op = "wait"   -> Wait(s, e.tmo)
    [] e.op = "inew"   -> IterNew(s, e.c, e.lg)
    [] e.op = "inext"  -> IterNext(s, e.i)
    [] e.op = "wres"   -> WaitResult(s, e.k)
    [] e.op = "gres"   -> GetResult(s, e.k)
    [] e.op = "clean"  -> Clean(s)
    [] e.op = "edit"   -> Edit(s, e.n, e.v)
    [] e.op = "swadd"  -> SwAdd(s, e.x)
    [] e.op = "swclr"  -> SwClr(s)

ToSet(q) == {q[i] : i \in 1..Len(q)}
(* the completed list: batches in order, any order inside a batch *)
RECURSIVE DoneOK(_, _)
DoneOK(bs, q) ==
  IF bs = <<>> THEN q = <<>>
  ELSE LET n == Cardinality(Head(bs)) IN
       Len(q) >= n /\ ToSet(SubSeq(q, 1, n)) = Head(bs) /\ DoneOK(Tail(bs), SubSeq(q, n + 1, Len(q)))

If(c, name) == IF c THEN {} ELSE {name}
NewLive(u) == Live(u) \ Live(s)
NewCb(u) == {k \in Ids(u) : u.t[k].cbn > (IF k \in Ids(s) THEN s.t[k].cbn ELSE 0)}
RcOf(o) == CASE o \in {"ok", "noraw", "nolog"} -> 0 [] o = "fail" -> 1 [] o = "fail2" -> -1 [] o = "failm" -> 3 [] o = "exc" -> -2

(* clauses for simulations that started during this event *)
StartCl(e, u) ==
     If(ToSet([i \in 1..Len(e.start) |-> e.start[i].k]) = NewLive(u) /\ Len(e.start) = Cardinality(NewLive(u)), "start.set")
  \cup UNION {LET x == e.start[i] IN
       IF x.k \notin Ids(u) THEN {} ELSE
         If(x.ed = u.t[x.k].ed, "start.content") \cup If(x.fresh, "start.unique") \cup If(x.place, "start.place")
         \cup If(x.named, "start.name") \cup If(x.sw = u.t[x.k].sw, "start.switches") \cup If(x.tmo = u.t[x.k].tmo, "start.timeout")
       : i \in 1..Len(e.start)}
(* clauses for callbacks that were invoked during this event *)
CbCl(e, u) ==
     If({e.cb[i].k : i \in 1..Len(e.cb)} = NewCb(u) /\ Len(e.cb) = Cardinality(NewCb(u)), "cb.once")
  \cup UNION {LET x == e.cb[i] IN
       IF x.k \notin Ids(u) THEN {} ELSE
         If(x.args, "cb.args") \cup If(x.ended, "cb.afterend")
         \cup If(Rc0(u.t[x.k].out) = x.hasraw, "cb.rawarg") \cup If(x.paths, "cb.files")
       : i \in 1..Len(e.cb)}
EndCl(e, u) == \* what the end of a simulation or callback leaves behind
  IF e.op \notin {"rel", "cbend", "relproc"} THEN {} ELSE
     If(e.same, "end.content") \cup If(e.dead = (u.t[e.k].st = "dead"), "end.thread")
QueryCl(e, u) ==
  IF e.op # "query" THEN {} ELSE
     If(e.n = Len(u.t), "query.runs") \cup If(e.okn = OkN(u), "query.ok") \cup If(e.failn = FailN(u), "query.fail")
     \cup If(ToSet(e.act) = Active(u) /\ Len(e.act) = Cardinality(Active(u)), "query.active")
     \cup If(e.nact = Cardinality(Active(u)), "query.activecount")
     \cup If(DoneOK(u.done, e.done), "query.done")
InfoCl(e, u) ==
  IF e.op # "info" THEN {} ELSE
     If({e.inf[i].k : i \in 1..Len(e.inf)} = Done(u) /\ Len(e.inf) = Cardinality(Done(u)), "info.runs")
  \cup UNION {LET x == e.inf[i] IN
       IF x.k \notin Done(u) THEN {} ELSE
         LET t == u.t[x.k] IN
         If(x.rc = RcOf(t.out), "info.retcode") \cup If(x.exc = (t.out = "exc"), "info.exception")
         \cup If(x.paths, "info.paths") \cup If(x.times, "info.times")
         \cup If(t.cb = "fg" \/ x.ret = (IF t.cb = "none" THEN None ELSE t.res), "info.callback")
         \cup If(ToSet(x.edk) = t.edk /\ Len(x.edk) = Cardinality(t.edk), "info.edits")
         \cup If(\A i2 \in 1..Len(x.edk) : x.edk[i2] \in t.edk => x.edv[i2] = t.ed[x.edk[i2]], "info.edits")
       : i \in 1..Len(e.inf)}
ResCl(e, u) ==
  IF e.op # "gres" THEN {} ELSE
     If(\A n \in 1..2 : e.ed[n] = (IF n \in u.t[e.k].edk THEN u.t[e.k].ed[n] ELSE 0), "gres.edits")
CleanCl(e, u) ==
  IF e.op # "clean" THEN {} ELSE
     If(e.keep, "clean.userfiles") \cup If(ToSet(e.left) \cap Done(u) = {}, "clean.left")
     \cup If(Busy(u) \subseteq ToSet(e.nets), "clean.running")
InvCl(u) ==
     If(EachOnce(u), "inv.once") \cup If(Accounted(u), "inv.accounted") \cup If(CallbackRule(u), "inv.callback")
     \cup If(CleanRule(u), "inv.clean") \cup If(IterRule(u), "inv.iter")
PendName(e) == IF s.pend.k # "none" THEN s.pend.k ELSE e.op
LiveCl(e, u) == If(ToSet(e.live) = Live(u) /\ Len(e.live) = Cardinality(Live(u)), "live.set")

Fails(e) ==
  LET cand == {o \in Outs(e) : o.r = e.r}
      o == IF cand # {} THEN CHOOSE x \in cand : TRUE ELSE CHOOSE x \in Outs(e) : TRUE
      u == o.s
  IN [s |-> u, cut |-> cand = {},
      f |-> If(cand # {}, "reply." \o PendName(e)) \cup StartCl(e, u) \cup CbCl(e, u) \cup EndCl(e, u) \cup QueryCl(e, u)
            \cup InfoCl(e, u) \cup ResCl(e, u) \cup CleanCl(e, u) \cup InvCl(u) \cup LiveCl(e, u)]

(* The driver performs an operation iff it is possible on the real objects (otherwise it is recorded as skipped); *)
(* it must be possible in the specification in exactly the same cases. *)
Feasible(e) ==
  CASE e.op \in {"rel", "relproc"} -> e.k \in Live(s)
    [] e.op = "cbend" -> e.k \in InCb(s)
    [] e.op = "tick" -> TRUE
    [] e.op \in {"gres", "wres"} -> s.pend.k = "none" /\ e.k \in Ids(s) /\ s.t[e.k].st # "never"
    [] OTHER -> s.pend.k = "none"

Step ==
  /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l) IN
     IF Feasible(e) = e.skip
     THEN IF "diverged" \in Focus
          THEN PrintT(<<"FAIL", tid, l, {"diverged"}>>) /\ l' = Len(Traces[tid].ev) + 2 /\ ok' = FALSE /\ UNCHANGED s
          ELSE PrintT(<<"CUT", tid, l, {"diverged"}>>) /\ l' = Len(Traces[tid].ev) + 1 /\ UNCHANGED <<s, ok>>
     ELSE IF e.skip THEN l' = l + 1 /\ UNCHANGED <<s, ok>>
     ELSE LET v == Fails(e) bad == v.f \cap Focus IN
          IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(Traces[tid].ev) + 2 /\ ok' = FALSE /\ s' = v.s
          ELSE IF v.cut THEN PrintT(<<"CUT", tid, l, v.f>>) /\ l' = Len(Traces[tid].ev) + 1 /\ s' = v.s /\ UNCHANGED ok
          ELSE l' = l + 1 /\ s' = v.s /\ UNCHANGED ok
  /\ UNCHANGED tid
Finish ==
  /\ l = Len(Traces[tid].ev) + 1 /\ ok
  /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, s, ok>>
Next == Step \/ Finish
=============================================================================

---------------------------- MODULE ServerTrace ----------------------------
(* Recorded executions of the real server and clients, validated against Server. *)
EXTENDS Server, TLC, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, s, ok
vars == <<tid, l, s, ok>>
Ev(i, j) == Traces[i].ev[j]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ s = S0(Traces[tid].par)
ToSet(q) == {q[i] : i \in 1..Len(q)}
If(c, name) == IF c THEN {} ELSE {name}

Outs(e) ==
  CASE e.op = "open" -> Open(s)
    [] e.op = "launch" -> Launch(s, e.c, e.dep)
    [] e.op = "missing" -> LaunchMissing(s, e.c)
    [] e.op = "sources" -> Sources(s, e.c, e.dep)
    [] e.op = "end" -> End(s, e.k, e.o)
    [] e.op = "race" -> EndMany(s, ToSet(e.ks), e.o)
    [] e.op = "giveup" -> GiveUp(s)
    [] e.op = "next" -> Next_(s, e.c)
    [] e.op \in {"fetch", "fetchx"} -> Fetch(s, e.c, e.k)
    [] e.op = "foreign" -> Foreign(s, e.c, e.k)
    [] e.op = "unknown" -> Unknown(s)
    [] e.op = "close" -> Close(s, e.c)
    [] e.op = "stop" -> Stop(s)
Others(c) == s.up = "up" /\ (s.pend.k = "none" \/ (s.pend.k = "next" /\ s.pend.c # c))
Feasible(e) ==
  CASE e.op = "end" -> e.k \in Live(s)
    [] e.op = "giveup" -> s.pend.k = "launch"
    [] e.op = "race" -> s.pend.k = "launch" /\ ToSet(e.ks) \subseteq Live(s)
    [] e.op \in {"open", "stop"} -> s.up = "up" /\ s.pend.k = "none"
    [] e.op # "unknown" /\ e.c > Len(s.c) -> FALSE
    [] e.op = "foreign" /\ (e.k \notin Runs(s) \/ (s.r[e.k].own = e.c /\ s.r[e.k].st = "done")) -> FALSE
    [] e.op = "next" -> s.up = "up" /\ s.pend.k = "none" /\ s.c[e.c].st = "open"
    [] e.op = "launch" -> Others(e.c) /\ (s.pend.k = "none" \/ Cardinality(Live(s)) < s.par)
    [] e.op \in {"foreign", "unknown"} -> s.up = "up" /\ s.pend.k # "launch"
    [] OTHER -> Others(e.c)

(* every simulation that started during the event: its owner's netlist and its session's dependency *)
StartCl(e, u) ==
     If(ToSet([i \in 1..Len(e.start) |-> e.start[i].k]) = Runs(u) \ Runs(s), "start.set")
  \cup UNION {LET x == e.start[i] IN
       IF x.k \notin Runs(u) THEN {} ELSE
         If(x.content, "start.content") \cup If(u.r[x.k].dep # 0 => x.dep = u.r[x.k].dep, "start.dep")
       : i \in 1..Len(e.start)}
LiveCl(e, u) == If(ToSet(e.live) = Live(u), "live.set") \cup If(Len(e.live) <= u.par, "live.slots")
StatusCl(e, u) ==
  IF ~e.obs THEN {} ELSE
  UNION {LET c == i IN
     IF u.c[c].st = "closed" THEN If(e.status[i].refused, "status.closed")
     ELSE If(~e.status[i].refused /\ ToSet(e.status[i].v) = StatusOf(u, c) /\ Len(e.status[i].v) = Cardinality(StatusOf(u, c)), "status.runs")
     : i \in 1..Len(e.status)} \cup If(e.distinct, "session.unique")
ClientCl(e, u) ==
  UNION {LET x == e.cl[i] IN
     If(ToSet(x.started) = u.c[i].started, "client.started") \cup If(ToSet(x.stored) = u.c[i].stored, "client.stored")
     \cup If(x.n = u.c[i].n, "client.completed") : i \in 1..Len(e.cl)}
FileCl(e, u) ==
     If(u.up = "up" \/ Ended(u) => \A k \in Runs(u) : u.r[k].st = "gone" => k \notin ToSet(e.left), "files.left")
  \cup If(\A k \in Runs(u) : u.r[k].st # "gone" => k \in ToSet(e.nets), "files.lost")
  \cup If(\A k \in Runs(u) : u.r[k].st = "done" => Outputs(u.r[k].out) \subseteq ToSet(e.outs[k]), "files.lost")
  \cup If(e.keep, "files.others")
FetchCl(e, u) ==
  IF e.op # "fetch" \/ e.r.k # "zip" THEN {} ELSE
     If(e.zip.own, "fetch.content") \cup If(Outputs(s.r[e.k].out) \subseteq ToSet(e.zip.kinds), "fetch.files")
StopCl(e, u) ==
  IF u.up = "up" THEN {} ELSE
     If(Live(u) = {} => e.threads = 0, "stop.threads") \cup If(e.port, "stop.port")
PendName(e) == IF e.op \in {"end", "race"} THEN s.pend.k ELSE e.op
Fails(e) ==
  LET cand == {o \in Outs(e) : o.r = e.r}
      o == IF cand # {} THEN CHOOSE x \in cand : TRUE ELSE CHOOSE x \in Outs(e) : TRUE
      u == o.s
  IN [s |-> u, cut |-> cand = {},
      f |-> If(cand # {}, "reply." \o PendName(e)) \cup
            (IF cand = {} THEN {} ELSE StartCl(e, u) \cup LiveCl(e, u) \cup StatusCl(e, u) \cup ClientCl(e, u) \cup FileCl(e, u)
            \cup FetchCl(e, u) \cup StopCl(e, u))]
Step ==
  /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l) IN
     IF Feasible(e) = e.skip
     THEN IF "diverged" \in Focus
          THEN PrintT(<<"FAIL", tid, l, {"diverged"}>>) /\ l' = Len(Traces[tid].ev) + 2 /\ ok' = FALSE /\ UNCHANGED s
          ELSE PrintT(<<"CUT", tid, l, {"diverged"}>>) /\ l' = Len(Traces[tid].ev) + 1 /\ UNCHANGED <<s, ok>>
     ELSE IF e.skip THEN l' = l + 1 /\ UNCHANGED <<s, ok>>
     ELSE LET v == Fails(e) bad == v.f \cap Focus IN
          IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(Traces[tid].ev) + 2 /\ ok' = FALSE /\ s' = v.s
          ELSE IF v.cut THEN PrintT(<<"CUT", tid, l, v.f>>) /\ l' = Len(Traces[tid].ev) + 1 /\ s' = v.s /\ UNCHANGED ok
          ELSE l' = l + 1 /\ s' = v.s /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace ==
  /\ l = Len(Traces[tid].ev) + 1 /\ ok
  /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, s, ok>>
Next == Step \/ EndTrace
=============================================================================

---------------------------- MODULE RawTrace ----------------------------
(* Recorded answers of the real reader, compared with those of the specification. *)
EXTENDS Raw, TLC, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, ok
vars == <<tid, l, ok>>
F == Traces[tid].f
P(e) == F.plots[e.q]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
If(c, name) == IF c THEN {} ELSE {name}
ToSet(q) == {q[i] : i \in 1..Len(q)}
Seq_(v) == [k |-> "seq", e |-> "", v |-> v, t |-> <<>>]
Err(x) == [k |-> "err", e |-> x, v |-> <<>>, t |-> <<>>]
(* the log promises other steps than the file has: no data can be given *)
Spoilt(p) == p.stepped /\ p.axis /\ p.log = "short"
Data(e) == e.op \in {"wave", "axis", "len", "tlen", "point", "at", "read", "export", "csv", "convert", "hold", "hwave"}
AsTable(r) == {r.t[i] : i \in {i \in 1..Len(r.t) : r.t[i].c # 0}}
Right(e) ==
  LET p == P(e) IN
  CASE e.op \in {"wave", "hwave"} -> e.r = Seq_(Wave(p, e.v, e.s))
    [] e.op = "axis" -> e.r = (IF p.axis THEN Seq_(Wave(p, 1, e.s)) ELSE Err("RuntimeError"))
    [] e.op \in {"len", "tlen"} -> e.r = Seq_(<<Length(p, e.s)>>)
    [] e.op = "point" -> e.r = Seq_(<<Point(p, e.v, e.n, e.s)>>)
    [] e.op = "at" -> e.r = (IF Inside(Wave(p, 1, e.s), e.t) THEN Seq_(<<At(p, e.v, e.t, e.s)>>) ELSE Err("IndexError"))
    [] e.op \in {"read", "hold"} -> e.r = Seq_(<<>>)
    [] e.op \in {"export", "csv"} ->
         /\ e.r.k = "table" /\ e.kept
         /\ AsTable(e.r) = Table(p, ToSet(e.cs), e.ss)
         /\ Cardinality({i \in 1..Len(e.r.t) : e.r.t[i].c # 0}) = Cardinality(Columns(p, ToSet(e.cs)))
    [] e.op = "convert" ->
         IF Refused(p, e.ask) \/ e.out = "other" THEN e.r.k = "err" /\ e.r.e = "exit" /\ ~e.file
         ELSE LET C == Converted(p, e.ask) IN
              /\ e.r.k = "table" /\ e.file = (e.out = "csv") /\ e.kept
              /\ e.r.t = [i \in 1..Len(C) |-> [c |-> C[i], v |-> Column(p, C[i], AllSteps(p))]]
    [] e.op = "steps" -> e.r = Seq_(IF ~p.stepped THEN <<0>> ELSE IF e.a = -1 /\ e.b = -1 /\ ~e.z THEN [i \in 1..Steps(p) |-> i - 1]
                                    ELSE Query(p, e.a, e.b, e.z))
    [] e.op = "missing" -> e.r = Err("IndexError")
    [] e.op = "names" -> e.r = Seq_([i \in 1..(NVars(p) + p.nal) |-> i] \o <<NVars(p), Points(p), Len(F.plots)>>)
Lost(e) == e.r.k = "err" /\ e.r.e = "SpiceReadException"
(* a file cut short may be refused or not be read at all, but never gives wrong data *)
Clause(e) ==
  IF F.cut > 0 THEN (IF Data(e) THEN If(Lost(e) \/ e.r.k = "noplot" \/ Right(e), "cut." \o e.op) ELSE {})
  ELSE IF Spoilt(P(e)) THEN (IF Data(e) THEN If(Lost(e) \/ e.r.k = "noplot", "spoilt." \o e.op) ELSE {})
  ELSE If(Right(e), e.op)
Step ==
  /\ l <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l] bad == Clause(e) \cap Focus IN
     IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(Traces[tid].ev) + 2 /\ ok' = FALSE
     ELSE l' = l + 1 /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace == l = Len(Traces[tid].ev) + 1 /\ ok /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>
Next == Step \/ EndTrace
=============================================================================

---------------------------- MODULE RawWriteTrace ----------------------------
(* Recorded executions of the real RawWrite (files read back by RawRead), validated against RawWrite. *)
EXTENDS RawWrite, TLC, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, ws, ok
vars == <<tid, l, ws, ok>>
F == Traces[tid].f
(* ws: the states the writer can be in *)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ ws = {W0}
If(c, name) == IF c THEN {} ELSE {name}
Outs(w, e) ==
  CASE e.op = "add" -> Add(w, e.kind, e.y, e.n)
    [] e.op = "import" -> Import(w, F.src[e.src].plots[1], e.s, e.vs, e.tag, e.src, e.align)
    [] e.op = "save" -> {Outcome(Save(w), "ok")}
    [] e.op = "source" -> {Outcome(w, "ok")}
Got(e) == [i \in 1..Len(e.t) |-> [n |-> e.t[i].n, tag |-> e.t[i].tag, y |-> e.t[i].y]]
Bad(w, e) ==
       If(e.r \in {o.r : o \in Outs(w, e)}, "outcome." \o e.op)
  \cup If(e.op = "save" /\ e.r = "ok" => Got(e) = Saved(w), "save.data")
  \cup If(e.op = "save" /\ e.r = "ok" => e.kind = w.kind, "save.kind")
  \cup If(e.op = "source" => e.y = Wave(F.src[e.src].plots[1], e.v, e.s) /\ e.name, "source.kept")
Step ==
  /\ l <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l]
         good == {w \in ws : Bad(w, e) \cap Focus = {}}
     IN IF good = {} THEN /\ PrintT(<<"FAIL", tid, l, Bad(CHOOSE w \in ws : TRUE, e) \cap Focus>>)
                          /\ l' = Len(Traces[tid].ev) + 2 /\ ok' = FALSE /\ UNCHANGED ws
        ELSE l' = l + 1 /\ ws' = UNION {{o.s : o \in {x \in Outs(w, e) : x.r = e.r}} : w \in good} /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace == l = Len(Traces[tid].ev) + 1 /\ ok /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, ws, ok>>
Next == Step \/ EndTrace
=============================================================================

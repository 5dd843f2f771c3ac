---------------------------- MODULE ReportTrace ----------------------------
(* Recorded answers of the real readers, compared with those of the specification. *)
EXTENDS Report, TLC, Json, SequencesExt
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, ok
vars == <<tid, l, ok>>
F == Traces[tid].f
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
If(c, name) == IF c THEN {} ELSE {name}
Is(e, v) == e.r.k = "seq" /\ e.r.v = v
AllOf(e, q, s) == ToSet(q) = s /\ Len(q) = Cardinality(s)
(* rows may be identical: then they may come once or as often as in the file *)
Right(e) ==
  CASE e.op = "signals" -> e.r.k = "seq" /\ AllOf(e, e.r.v, Signals(F))
    [] e.op = "analyses" -> Is(e, Of(F, e.s))
    [] e.op = "fexport" -> e.r.k = "tables" /\ ToSet(e.r.a) = Summary(F) /\ ToSet(e.r.b) = Harmonics(F) /\ Len(e.r.a) = Len(F.ana)
    [] e.op = "data" -> Is(e, DataColumn(F, e.c))
    [] e.op = "run" -> Is(e, RunColumn(F))
    [] e.op = "var" -> Is(e, VarColumn(F, e.c))
    [] e.op \in {"reformat", "tool"} -> Is(e, Lines(F))
    [] e.op = "points" -> e.r.k = "seq" /\ AllOf(e, e.r.v, Points(F))
Step ==
  /\ l <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l] bad == If(Right(e), e.op) \cap Focus IN
     IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(Traces[tid].ev) + 2 /\ ok' = FALSE
     ELSE l' = l + 1 /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace == l = Len(Traces[tid].ev) + 1 /\ ok /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, ok>>
Next == Step \/ EndTrace
=============================================================================

---------------------------- MODULE LogTrace ----------------------------
(* Recorded answers of the real readers, compared with those of the specification. *)
EXTENDS Log, TLC, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, split, out, ok
vars == <<tid, l, split, out, ok>>
F == Traces[tid].f
Init == tid \in 1..Len(Traces) /\ l = 1 /\ split = FALSE /\ out = [x \in 1..2 |-> <<>>] /\ ok = TRUE
If(c, name) == IF c THEN {} ELSE {name}
Is(e, v) == e.r.k = "seq" /\ e.r.v = v
Failed(e) == e.r.k = "err" /\ e.r.e = "IndexError"
(* tables come as sequences of columns *)
AsTable(t) == {t[i] : i \in 1..Len(t)}
SameTables(ts, xs) == Len(ts) = Len(xs) /\ \A i \in 1..Len(ts) : AsTable(ts[i]) = xs[i] /\ Len(ts[i]) = Cardinality(xs[i])
NamesOf(t) == {x.name : x \in t}
VarNames == {F.vars[k].name : k \in 1..Len(F.vars)}
Right(e) ==
  CASE e.op = "names" -> e.r.k = "names" /\ ToSet(e.r.v) = NamesOf(Named(F, split)) /\ Len(e.r.v) = Cardinality(NamesOf(Named(F, split)))
    [] e.op = "steps" -> e.r.k = "names" /\ ToSet(e.r.v) = VarNames /\ Len(e.r.v) = Len(F.vars) /\ e.r.n = F.n
    [] e.op = "col" -> Is(e, Whole(F, e.c))
    [] e.op = "value" -> IF e.s = -1 THEN (IF Rows(F) = 1 THEN Is(e, Whole(F, e.c)) ELSE Failed(e))
                         ELSE IF e.s >= Rows(F) THEN Failed(e) ELSE Is(e, Picked(F, e.c, <<e.s>>))
    [] e.op = "cond" -> e.r.k = "steps" /\ e.r.v = StepsWith(F, e.cs)
    [] e.op = "vcond" -> LET ss == StepsWith(F, e.cs) IN IF Len(ss) = 1 THEN Is(e, Picked(F, e.c, ss)) ELSE Failed(e)
    [] e.op = "at" -> Is(e, Picked(F, e.c, e.ss))
    [] e.op = "stat" -> LET vs == Picked(F, e.c, e.ss) IN
                        ~Full(vs) \/ Is(e, <<IF e.w = "max" THEN MaxOf(vs) ELSE IF e.w = "min" THEN MinOf(vs) ELSE <<SumOf(vs), Len(vs)>> >>)
    [] e.op = "export" -> e.r.k = "tables" /\ SameTables(e.r.t, Exported(out[e.x], F, split, e.p))
    [] e.op = "script" -> e.r.k = "tables" /\ SameTables(e.r.t, <<Table(F, TRUE, 0)>>)
    [] e.op = "split" -> Is(e, <<>>)
    [] e.op = "unknown" -> Failed(e)
Step ==
  /\ l <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l] bad == If(Right(e), e.op) \cap Focus IN
     /\ split' = (split \/ e.op = "split")
     /\ out' = IF e.op = "export" THEN [out EXCEPT ![e.x] = Exported(@, F, split, e.p)] ELSE out
     /\ IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(Traces[tid].ev) + 2 /\ ok' = FALSE
        ELSE l' = l + 1 /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace == l = Len(Traces[tid].ev) + 1 /\ ok /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, split, out, ok>>
Next == Step \/ EndTrace
=============================================================================

----------------------------- MODULE QschNetTrace ---------------------------
(* Validation of the netlists that were written, after every edit. *)
EXTENDS QschNet, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, sheets, ok
T == Traces[tid]
AsSet(q) == {q[i] : i \in 1..Len(q)}
Sheet(x) == [x EXCEPT !.c = [j \in 1..Len(x.c) |-> [x.c[j] EXCEPT !.nc = AsSet(@)]]]
After(e) ==
  CASE e.op = "set" -> [sheets EXCEPT ![e.k] = SetVal(@, e.r, e.v)]
    [] e.op = "par" -> [sheets EXCEPT ![e.k] = SetPar(@, e.r, e.n, e.v)]
    [] e.op = "drop" -> [sheets EXCEPT ![e.k] = Drop(@, e.r)]
    [] e.op = "add" -> [sheets EXCEPT !.main = AddText(@, e.l)]
    [] OTHER -> sheets
Right(e) == IF e.a.k # "net" THEN {"written"} ELSE Wrong(After(e), "main", e.a.f, TRUE)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ sheets = [k \in DOMAIN T.meta.sheets |-> Sheet(T.meta.sheets[k])] /\ ok = TRUE
Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] v == Right(e) bad == v \cap Focus IN
     /\ sheets' = After(e)
     /\ IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(T.ev) + 2 /\ ok' = FALSE
        ELSE l' = l + 1 /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace == l = Len(T.ev) + 1 /\ ok /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, sheets, ok>>
Next == Step \/ EndTrace
=============================================================================

---------------------------- MODULE SchematicTrace ---------------------------
(* Validation of what the editors did: their answers after every edit, and what is in the files they wrote. *)
EXTENDS Schematic, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, cur, disk, dirty, ok
vars == <<tid, l, cur, disk, dirty, ok>>
T == Traces[tid]
VT == <<"1k", "330", "4.7k", "1u", "{x*2}", "2.5", "2N2222", "BC547", "10", "{a+b}">>
Text(v) == IF v = 0 THEN None ELSE VT[v]
If(b, n) == IF b THEN {} ELSE {n}
SameF(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
(* ---------------------------------------------------------------- the answers *)
Seen(s, o) ==
  IF o.k # "ok" THEN {"query"} ELSE
    If(DOMAIN o.c = DOMAIN s.c /\ {o.rc[n] : n \in 1..Len(o.rc)} = {r \in DOMAIN s.c \cap Main : r \in {"R1", "R2", "C1"}}, "list")
    \cup UNION {LET c == s.c[r] x == o.c[r] IN
                  If(r \in Boxes \/ x.v = Shown(c), "value") \cup If(SameF(x.par, c.par), "params") \cup If(x.x = c.x /\ x.y = c.y /\ x.rot = c.rot, "place")
                : r \in DOMAIN s.c \cap DOMAIN o.c}
    \cup If(DOMAIN o.p = Names(s.t) /\ o.n = Cardinality(DOMAIN o.p) /\ \A n \in DOMAIN o.p \cap Names(s.t) : o.p[n] = Value(s.t, n), "defined")
(* ---------------------------------------------------------------- the files *)
Written(s, f) ==
    If(DOMAIN f.c = DOMAIN s.c, "filelist")
    \cup UNION {LET c == s.c[r] x == f.c[r] IN
                  If(x.val = c.val /\ x.val2 = c.val2 /\ x.mod = c.mod, "filevalue") \cup If(SameF(x.par, c.par), "fileparams")
                  \cup If(x.x = c.x /\ x.y = c.y /\ x.rot = c.rot, "fileplace") \cup If(f.own[r] = T.meta.own[r], "rest")
                : r \in DOMAIN s.c \cap DOMAIN f.c}
    \cup If(SameTexts(f.t, s.t), "texts")
    \cup If((Has(s.c, "X1") /\ Has(s.c, "X1:X2")) => f.rest = T.meta.rest, "rest")
(* ---------------------------------------------------------------- steps *)
Miss(e) == e.op \in {"set", "par", "attr", "move", "drop"} /\ ~Has(cur.c, e.ref)
RECURSIVE SetAll(_, _, _)
SetAll(c, r, ps) == IF ps = <<>> THEN c ELSE SetAll(SetPar(c, r, ps[1].n, Text(ps[1].v)), r, Tail(ps))
After(e) ==
  CASE Miss(e) -> cur
    [] e.op = "set" -> [cur EXCEPT !.c = SetVal(@, e.ref, Text(e.v))]
    [] e.op = "par" -> [cur EXCEPT !.c = SetAll(@, e.ref, e.ps)]
    [] e.op = "attr" -> [cur EXCEPT !.c = SetAttr(@, e.ref, IF e.n = "value" THEN "Value" ELSE e.n, Text(e.v))]
    [] e.op = "move" -> [cur EXCEPT !.c = MoveTo(@, e.ref, e.x, e.y, e.rot)]
    [] e.op = "drop" -> [cur EXCEPT !.c = Drop(@, e.ref)]
    [] e.op = "define" -> [cur EXCEPT !.t = SetParameter(@, e.n, Text(e.v))]
    [] e.op = "add" -> [cur EXCEPT !.t = AddInstr(@, e.i)]
    [] e.op = "rem" -> IF Exact(cur.t, e.i) = {} THEN cur ELSE [cur EXCEPT !.t = RemoveAt(@, First(Exact(cur.t, e.i)))]
    [] e.op = "remf" -> IF Holding(cur.t, e.f) = {} THEN cur ELSE [cur EXCEPT !.t = RemoveAt(@, First(Holding(cur.t, e.f)))]
    [] e.op = "remx" -> [cur EXCEPT !.t = RemoveMatching(@, e.q)]
    [] e.op \in {"reset", "load"} -> disk
    [] OTHER -> cur
DiskAfter(e) == CASE e.op = "save" -> IF e.how = "else" THEN SaveElsewhere(cur, disk) ELSE Save(cur) [] OTHER -> disk
Refused(e, x) == e.r.k = "exc" /\ e.r.x = x
Result(e) ==
  CASE Miss(e) -> If(Refused(e, "ComponentNotFoundError"), "notfound")
    [] e.op = "ask" -> IF e.n \in Names(cur.t) THEN If(e.r.k = "got" /\ e.r.t = Value(cur.t, e.n), "defined") ELSE If(Refused(e, "ParameterNotFoundError"), "undefined")
    [] e.op = "library" -> If(e.r.k = "lib" /\ (e.via <= 4 => e.r.x # "") /\ e.r.v = "7k" /\ e.r.p = "2" /\ e.r.c = <<"C5", "R5">> /\ e.r.kept, "library")
    [] e.op = "addpar" -> If(Refused(e, "RuntimeError"), "refused")
    [] e.op = "rem" -> If(e.r.k = "ok" /\ e.r.a = (Exact(cur.t, e.i) # {}), "removed")
    [] e.op = "remf" -> If(e.r.k = "ok" /\ e.r.a = (Holding(cur.t, e.f) # {}), "removed")
    [] e.op = "remx" -> If(e.r.k = "ok" /\ e.r.a = AnyMatching(cur.t, e.q), "removed")
    [] e.op = "save" -> IF e.r.k # "file" THEN {"saved"}
                        ELSE If(e.r.kept, "saved") \cup Written(IF e.how = "else" THEN cur ELSE Save(cur), e.r.f)
    [] e.op \in {"define", "add"} -> If(e.r.k = "ok", "instructed")
    [] OTHER -> If(e.r.k = "ok", "done")
Changed(e) == After(e) # cur /\ e.op \notin {"reset", "load"}
DirtyAfter(e) == IF e.op \in {"start", "reset", "load"} THEN FALSE ELSE dirty \/ Changed(e)
Right(e) == Result(e) \cup Seen(After(e), e.o) \cup (IF e.o.k = "ok" THEN If((DirtyAfter(e) => e.o.upd) /\ (e.op \in {"start", "load", "reset"} => ~e.o.upd), "updated") ELSE {})
Init == tid \in 1..Len(Traces) /\ l = 1 /\ cur = [c |-> T.meta.c, t |-> T.meta.t] /\ disk = cur /\ dirty = FALSE /\ ok = TRUE
Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] v == Right(e) bad == v \cap Focus IN
     /\ cur' = After(e) /\ disk' = DiskAfter(e) /\ dirty' = DirtyAfter(e)
     /\ IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(T.ev) + 2 /\ ok' = FALSE
        ELSE IF v # {} THEN PrintT(<<"DONE", tid>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED ok   \* not comparable from here on
        ELSE l' = l + 1 /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace == l = Len(T.ev) + 1 /\ ok /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, cur, disk, dirty, ok>>
Next == Step \/ EndTrace
=============================================================================

----------------------------- MODULE NumberTrace ----------------------------
(* Validation of recorded answers. Texts come with their parts (p) as the driver reads them; what is not a number has
   k = "none". Values of the code come as [k |-> "num", m, e], "cx", "text" (no number) or "exc" (refused).            *)
EXTENDS Number, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, cont, ok
vars == <<tid, l, cont, ok>>
T == Traces[tid]
Start(t) == [x \in {t.meta.init[k].p : k \in 1..Len(t.meta.init)} |-> (CHOOSE r \in {t.meta.init[k] : k \in 1..Len(t.meta.init)} : r.p = x).c]
Nv(r) == <<r.m, r.e>>
If(b, n) == IF b THEN {} ELSE {n}
IsNum(v, S) == v.k = "num" /\ Nv(v) \in S
(* the text of a place *)
TextOk(c, r) ==
  CASE c.k \in {"txt", "str"} -> r.t = c.s
    [] c.k = "num" -> r.p.k # "none" /\ Denotes(r.p) \in Written(c.n)
    [] c.k = "cx" -> r.x.k = "cx" /\ Nv(r.x.re) \in Written(Norm(c.re, 0)) /\ Nv(r.x.im) \in Written(Norm(c.im, 0))
(* what the place is, when read as a number *)
ValOk(c, r, text) ==
  CASE c.k \in {"txt", "num"} -> IsNum(r.v, ValueSet(c)) \/ (text /\ r.v.k = "text" /\ TextOk(c, r))
    [] c.k = "cx" -> (r.v.k = "cx" /\ Nv(r.v.re) \in Written(Norm(c.re, 0)) /\ Nv(r.v.im) \in Written(Norm(c.im, 0))) \/ (text /\ TextOk(c, r))
    [] c.k = "str" -> c.i \in 11..19 \/ (r.v.k = "text" /\ r.t = c.s)
TextsOf(e) == \A x \in DOMAIN cont : x \in DOMAIN e.r.f /\ TextOk(cont[x], e.r.f[x])
Textual(p) == p \in Inst \/ (T.meta.ed # "spice" /\ p \in Params)
Same(a, b) == a = b
CmpOk(e) == LET a == Denotes(e.a) b == Denotes(e.b) r == e.r IN
  /\ r.k = "cmp"
  /\ (a # b => ~r.eq /\ r.ne) /\ (Same(e.a, e.b) => r.eq /\ ~r.ne)
  /\ r.eq = ~r.ne
  /\ (a # b => (e.via # "str" => r.lt = Less(a, b) /\ r.gt = Less(b, a)))
  /\ (e.via # "str" => (Same(e.a, e.b) => r.hash) /\ (a # b => r.set = 2) /\ (Same(e.a, e.b) => r.set = 1))
CalcOk(e) == LET a == Denotes(e.a)
                 x == CASE e.via \in {"mul", "rmul"} -> Times(a, e.k) [] e.via = "neg" -> Times(a, -1) [] e.via = "abs" -> <<Abs(a[1]), a[2]>>
                        [] e.via = "twice" -> Times(a, 2) [] e.via = "less" -> <<0, 0>>
             IN  e.r.k = "num" /\ Nv(e.r) = x
ReadOk(e) == /\ e.r.k = "num" /\ Nv(e.r) = Denotes(e.t)
             /\ (e.via # "scan" => e.r.un = UnitOf(e.t) /\ e.r.t = e.s)
BadOk(e) == IF e.via \in {"scan", "unit", "strict"} THEN e.r.k = "refused" ELSE e.r.k = "same"
Right(e) ==
  CASE e.op = "read" -> If(ReadOk(e), "read")
    [] e.op = "bad" -> If(BadOk(e), "bad")
    [] e.op = "cmp" -> If(CmpOk(e), "cmp")
    [] e.op = "calc" -> If(CalcOk(e), "calc")
    [] e.op = "fmt" -> If(e.r.p.k # "none" /\ Denotes(e.r.p) \in Written(e.n), "fmt")
    [] e.op = "clean" -> If(e.r.p.k # "none" /\ Denotes(e.r.p) \in Written(Denotes(e.t)), "fmt")
    [] e.op \in {"set", "copy", "scale"} -> If(e.r.k = "ok", "give")
    [] e.op = "get" -> LET c == cont[e.p] IN
         IF e.via = "text" THEN If(e.r.k = "got" /\ TextOk(c, e.r), "text")
         ELSE IF e.via = "float" /\ e.p \in Values THEN If(IF c.k = "str" THEN e.r.k = "exc" ELSE e.r.k = "got" /\ ValOk(c, e.r, FALSE), "value")
         ELSE If(e.r.k = "got" /\ ValOk(c, e.r, Textual(e.p)), "value")
    [] e.op = "save" -> If(e.r.k = "file" /\ TextsOf(e), "file")
    [] e.op = "load" -> If(e.r.k = "ok", "load")
After(e) == CASE e.op = "set" -> [cont EXCEPT ![e.p] = e.c]
              [] e.op = "copy" -> [cont EXCEPT ![e.p] = cont[e.a]]
              [] e.op = "scale" -> [cont EXCEPT ![e.p] = [k |-> "num", n |-> Times(IF cont[e.a].k = "txt" THEN Denotes(cont[e.a].t) ELSE cont[e.a].n, e.k)]]
              [] OTHER -> cont
Init == tid \in 1..Len(Traces) /\ l = 1 /\ cont = Start(T) /\ ok = TRUE
Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] v == Right(e) bad == v \cap Focus IN
     /\ cont' = IF e.r.k = "ok" THEN After(e) ELSE cont
     /\ IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(T.ev) + 2 /\ ok' = FALSE
        ELSE IF v # {} THEN PrintT(<<"DONE", tid>>) /\ l' = Len(T.ev) + 2 /\ UNCHANGED ok   \* not comparable from here on
        ELSE l' = l + 1 /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace == l = Len(T.ev) + 1 /\ ok /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, cont, ok>>
Next == Step \/ EndTrace
=============================================================================

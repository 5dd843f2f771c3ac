------------------------------ MODULE EditorGen ------------------------------
(* Editing sessions: behaviours of Editor from the netlists listed in templates.json, printed as scenarios. *)
EXTENDS Editor, Json
CONSTANTS Depth, Acts, MaxPath
Data == JsonDeserialize("templates.json")
VARIABLES s, h, meta
vars == <<s, h, meta>>
ToD(q) == [x \in {q[i].key : i \in 1..Len(q)} |->
             LET e == q[CHOOSE i \in 1..Len(q) : q[i].key = x] IN [c |-> e.c, p |-> e.p, i |-> e.i, m |-> e.m]]
Init == \E t \in 1..Len(Data.tpl) : meta = t /\ s = S0(ToD(Data.tpl[t])) /\ h = <<>>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Rng(q) == {q[i] : i \in 1..Len(q)}
Do(e) == s' = Outcome(s, e).s /\ h' = Append(h, e) /\ UNCHANGED meta
P(sub) == Pick({p \in Paths(s) : Len(p) <= MaxPath /\ (p # <<>>) = sub})
Refs(p) == DOMAIN ContentAt(s, p).c
Defs == {"AMP", "FILT", "FILT.2", "FILT-2", "2FILT", "INNER"}
ValuesFor(p, r) ==
  LET t == ContentAt(s, p).c[r].t
      key == AddrOf(s, p)
  IN IF t = "X" THEN {x \in Defs : Look(s.d, key, x) \in DOMAIN s.d /\ Len(p) = 0} \cup (IF Len(p) = 0 THEN {} ELSE {"INNER"} \cap {x \in Defs : Look(s.d, key, x) \in DOMAIN s.d})
     ELSE Rng(Data.vals[t])
KeysFor(p, r) == DOMAIN ContentAt(s, p).c[r].k \cup Rng(Data.keys[ContentAt(s, p).c[r].t])

Val(sub) == \E p \in P(sub) : \E r \in Pick(Refs(p)) : \E v \in Pick(ValuesFor(p, r)) :
              Do([op |-> "val", path |-> p, ref |-> r, v |-> v])
DoVal == "Val" \in Acts /\ Val(FALSE)
DoValS == "ValS" \in Acts /\ Val(TRUE)
DoMiss == "Miss" \in Acts /\ \E sub \in {FALSE, TRUE} : \E p \in P(sub) : \E o \in {"val", "prm", "remc", "read"} :
            Do([op |-> o, path |-> p, ref |-> "R99", v |-> "1", k |-> "tol"])
Prm(sub, del) == \E p \in P(sub) : \E r \in Pick({x \in Refs(p) : KeysFor(p, x) # {}}) : \E k \in Pick(KeysFor(p, r)) :
              \E v \in (IF del THEN {"None"} ELSE Pick(Rng(Data.kvals))) : Do([op |-> "prm", path |-> p, ref |-> r, k |-> k, v |-> v])
DoPrm == "Prm" \in Acts /\ \E del \in {FALSE, TRUE} : Prm(FALSE, del)
DoPrmS == "PrmS" \in Acts /\ \E del \in {FALSE, TRUE} : Prm(TRUE, del)
Par(sub, del) == \E p \in P(sub) : \E k \in Pick(DOMAIN ContentAt(s, p).p \cup {"NEWP", "CC", "V"}) :
              \E v \in (IF del THEN {"None"} ELSE Pick(Rng(Data.pvals))) : Do([op |-> "par", path |-> p, k |-> k, v |-> v])
DoPar == "Par" \in Acts /\ \E del \in {FALSE, TRUE} : Par(FALSE, del)
DoParS == "ParS" \in Acts /\ \E del \in {FALSE, TRUE} : Par(TRUE, del)
DoVals == "Vals" \in Acts /\ \E sub \in {FALSE, TRUE} : \E p \in P(sub) :
            \E a \in Pick({x \in Refs(p) : ContentAt(s, p).c[x].t # "X"}) :
            \E b \in Pick({x \in Refs(p) : ContentAt(s, p).c[x].t # "X" /\ x # a} \cup {"R99"}) :
            \E v \in Pick(ValuesFor(p, a)) : \E w \in (IF b = "R99" THEN {"1"} ELSE Pick(ValuesFor(p, b))) :
              Do([op |-> "vals", path |-> p, kv |-> <<[ref |-> a, v |-> v], [ref |-> b, v |-> w]>>])
DoAddI == "AddI" \in Acts /\ \E e \in Pick(Rng(Data.ins)) : Do([op |-> "addi", path |-> <<>>, ins |-> e])
DoAddP == "AddP" \in Acts /\ Do([op |-> "addi", path |-> <<>>, ins |-> [t |-> ".param zz=1", q |-> ".PARAM"]])
DoAddIS == "AddIS" \in Acts /\ \E p \in P(TRUE) : \E e \in Pick(Rng(Data.sins) \cup {[t |-> ".tran 9m", q |-> ".TRAN"]}) :
             Do([op |-> "addi", path |-> p, ins |-> e])
DoNodes == "Nodes" \in Acts /\ \E r \in Pick(Refs(<<>>)) : \E k \in Pick(1..Len(s.d[<<>>].c[r].n)) : \E w \in Pick({"in", "out", "zz1", "0"}) :
             Do([op |-> "nodes", path |-> <<>>, ref |-> r, nodes |-> [s.d[<<>>].c[r].n EXCEPT ![k] = w]])
DoRemI == "RemI" \in Acts /\ \E t \in Pick({e.t : e \in {x \in Rng(s.d[<<>>].i) : x.q \notin {".LIB", ".BACKANNO", ".CONTROL"}}} \cup {".save nothing"}) :
             Do([op |-> "remi", path |-> <<>>, v |-> t])
(* directives whose text is the beginning of another one *)
Short == {".save V(out)", ".options abstol=1p"}
DoAddQ == "AddI" \in Acts /\ \E e \in Pick({x \in Rng(Data.ins) : x.q \in {".SAVE", ".OPTIONS"}}) : Do([op |-> "addi", path |-> <<>>, ins |-> e])
DoRemQ == "RemI" \in Acts /\ \E t \in Pick(Short) : Do([op |-> "remi", path |-> <<>>, v |-> t])
DoRemIS == "RemIS" \in Acts /\ \E p \in P(TRUE) :
             \E t \in Pick({e.t : e \in {x \in Rng(ContentAt(s, p).i) : x.q # ".SUBCKT"}} \cup {".save nothing"}) :
             Do([op |-> "remi", path |-> p, v |-> t])
DoRemX == "RemX" \in Acts /\ \E c \in Pick({<<".MEAS">>, <<".SAVE">>, <<".TRAN", ".AC">>, <<".OPTIONS">>, <<".IC">>}) :
             Do([op |-> "remx", path |-> <<>>, cmds |-> c])
DoAddC == "AddC" \in Acts /\ \E sub \in {FALSE, TRUE} : \E p \in P(sub) : \E r \in Pick({"R1", "R50", "C51", "V52"}) :
            \E c \in Pick({x \in Rng(Data.comps) : x.t = (IF r \in {"R1", "R50"} THEN "R" ELSE IF r = "C51" THEN "C" ELSE "V")}) :
            \E w \in Pick({"", "before", "after"}) : \E o \in Pick(Refs(p)) :
             Do([op |-> "addc", path |-> p, ref |-> r, comp |-> c, where |-> w, other |-> o])
RemC(sub) == \E p \in P(sub) : \E r \in Pick(Refs(p)) : Do([op |-> "remc", path |-> p, ref |-> r])
DoRemC == "RemC" \in Acts /\ RemC(FALSE)
DoRemCS == "RemCS" \in Acts /\ RemC(TRUE)
(* another operation on what the last one was about: set, delete, add again *)
AgainOn(e) ==
  CASE e.op = "par" -> \E v \in {"None"} \cup Pick(Rng(Data.pvals)) : Do([e EXCEPT !.v = v])
    [] e.op = "prm" -> e.ref # "R99" /\ \E v \in {"None"} \cup Pick(Rng(Data.kvals)) : Do([op |-> "prm", path |-> e.path, ref |-> e.ref, k |-> e.k, v |-> v])
    [] e.op = "val" -> IF e.ref \in Refs(e.path) /\ e.ref # "R99"
                       THEN \/ \E v \in Pick(ValuesFor(e.path, e.ref)) : Do([op |-> "val", path |-> e.path, ref |-> e.ref, v |-> v])
                            \/ ("RemC" \in Acts \/ "RemCS" \in Acts) /\ Do([op |-> "remc", path |-> e.path, ref |-> e.ref])
                       ELSE FALSE
    [] e.op = "remc" -> e.ref \in {"R1", "R50", "C51", "V52"} /\ "AddC" \in Acts /\
                        \E c \in Pick({x \in Rng(Data.comps) : x.t = (IF e.ref \in {"R1", "R50"} THEN "R" ELSE IF e.ref = "C51" THEN "C" ELSE "V")}) :
                          Do([op |-> "addc", path |-> e.path, ref |-> e.ref, comp |-> c, where |-> "", other |-> "R1"])
    [] e.op = "addc" -> e.ref \in Refs(e.path) /\ Do([op |-> "remc", path |-> e.path, ref |-> e.ref])
    [] e.op = "addi" -> e.ins.q \notin {".PARAM"} /\ (Do([op |-> "remi", path |-> e.path, v |-> e.ins.t]) \/ Do(e))
    [] e.op = "remi" -> \E i \in {x \in Rng(Data.ins) : x.t = e.v} : e.path = <<>> /\ Do([op |-> "addi", path |-> <<>>, ins |-> i])
    [] OTHER -> FALSE
DoAgain == IF h = <<>> THEN FALSE ELSE IF "path" \notin DOMAIN h[Len(h)] THEN FALSE ELSE h[Len(h)].path \in Paths(s) /\ AgainOn(h[Len(h)])
DoReset == "Reset" \in Acts /\ h # <<>> /\ Do([op |-> "reset"])
DoReopen == "Reopen" \in Acts /\ h # <<>> /\ Do([op |-> "reopen"])
DoSave == "Save" \in Acts /\ h # <<>> /\ h[Len(h)].op # "save" /\ Do([op |-> "save"])
DoRead == "Read" \in Acts /\ \E p \in P(TRUE) : \E r \in Pick(Refs(p)) : Do([op |-> "read", path |-> p, ref |-> r])

Next == Len(h) < Depth /\ (DoVal \/ DoValS \/ DoMiss \/ DoAgain \/ DoAddQ \/ DoRemQ \/ DoNodes \/ DoPrm \/ DoPrmS \/ DoPar \/ DoParS \/ DoVals \/ DoAddI \/ DoAddP \/ DoAddIS \/ DoRemI
        \/ DoRemIS \/ DoRemX \/ DoAddC \/ DoRemC \/ DoRemCS \/ DoReset \/ DoReopen \/ DoSave \/ DoRead)
Emit == Len(h) = Depth => PrintT(<<"BEH", ToJson([meta |-> meta, ops |-> h])>>)
=============================================================================

------------------------------- MODULE EditorMC -------------------------------
(* Exhaustive exploration of Editor on a small hierarchy: two instances of AMP, which instantiates INNER. *)
EXTENDS Editor
CONSTANTS MaxOps, Acts
VARIABLES s, n, last
vars == <<s, n, last>>
R(t, v) == [t |-> t, n |-> <<"a", "b">>, v |-> v, k |-> Emp]
C(c, p, i) == [c |-> c, p |-> p, i |-> i, m |-> <<>>]
D0 == (<<>> :> C(("R1" :> R("R", "1")) @@ ("X1" :> R("X", "AMP")) @@ ("X2" :> R("X", "AMP")), ("VCC" :> "5"),
                 <<[t |-> ".tran 1", q |-> ".TRAN"], [t |-> ".save a", q |-> ".SAVE"]>>))
      @@ (<<"AMP">> :> C(("R1" :> R("R", "1")) @@ ("X9" :> R("X", "INNER")), ("LOC" :> "3"), <<>>))
      @@ (<<"#LIB", "INNER">> :> C(("R7" :> R("R", "7")), Emp, <<>>))
Init == s = S0(D0) /\ n = 0 /\ last = [op |-> "load"]
Do(e) == n < MaxOps /\ s' = Outcome(s, e).s /\ n' = n + 1 /\ last' = e
Top == {<<>>}
Subs == Paths(s) \ Top
Refs(p) == DOMAIN ContentAt(s, p).c
Vals(p, r) == IF ContentAt(s, p).c[r].t = "X" THEN {"AMP", "INNER"} ELSE {"1", "2"}
Val(P) == \E p \in P : \E r \in Refs(p) : \E v \in Vals(p, r) : Do([op |-> "val", path |-> p, ref |-> r, v |-> v])
DoVal == "Val" \in Acts /\ Val(Top)
DoValS == "ValS" \in Acts /\ Val(Subs)
Prm(P) == \E p \in P : \E r \in Refs(p) : \E v \in {"1", "None"} : Do([op |-> "prm", path |-> p, ref |-> r, k |-> "tol", v |-> v])
DoPrm == "Prm" \in Acts /\ Prm(Top)
DoPrmS == "PrmS" \in Acts /\ Prm(Subs)
DoPar == "Par" \in Acts /\ \E k \in {"VCC", "NEW"}, v \in {"1", "None"} : Do([op |-> "par", path |-> <<>>, k |-> k, v |-> v])
DoRemC == "RemC" \in Acts /\ \E r \in Refs(<<>>) : Do([op |-> "remc", path |-> <<>>, ref |-> r])
Ins == {[t |-> ".ac 1", q |-> ".AC"], [t |-> ".tran 2", q |-> ".TRAN"], [t |-> ".save a", q |-> ".SAVE"], [t |-> ".save b", q |-> ".SAVE"]}
DoAddI == "AddI" \in Acts /\ \E e \in Ins : Do([op |-> "addi", path |-> <<>>, ins |-> e])
DoAddIS == "AddIS" \in Acts /\ \E p \in Subs, e \in {[t |-> ".save b", q |-> ".SAVE"], [t |-> ".tran 2", q |-> ".TRAN"]} :
             Do([op |-> "addi", path |-> p, ins |-> e])
DoRemI == "RemI" \in Acts /\ \E t \in {x.t : x \in Ins} : Do([op |-> "remi", path |-> <<>>, v |-> t])
DoRead == "Read" \in Acts /\ \E p \in Subs : \E r \in Refs(p) : Do([op |-> "read", path |-> p, ref |-> r])
DoReset == "Reset" \in Acts /\ Do([op |-> "reset"])
DoReopen == "Reopen" \in Acts /\ Do([op |-> "reopen"])
Next == DoVal \/ DoValS \/ DoPrm \/ DoPrmS \/ DoPar \/ DoRemC \/ DoAddI \/ DoAddIS \/ DoRemI \/ DoRead \/ DoReset \/ DoReopen
Spec == Init /\ [][Next]_vars

Cover == n = 1 => PrintT(<<"OP", last.op>>)
(* what every instance consists of, whatever the names of the definitions *)
Plain(c) == [c EXCEPT !.c = [r \in DOMAIN c.c |-> IF c.c[r].t = "X" THEN [c.c[r] EXCEPT !.v = ""] ELSE c.c[r]]]
Eff(u) == [p \in Paths(u) |-> Plain(ContentAt(u, p))]
InvReopen == Eff(Reopen(s).s) = Eff(s)
InvReset == TextOf(Reset(s).s) = TextOf(S0(s.d0)) /\ Reset(s).s.j = <<>>
InvOwn == \A x \in DOMAIN s.own : /\ x[1] \in DOMAIN s.d /\ s.own[x] \in DOMAIN s.d
                                 /\ IsInst(s, x[1], x[2]) /\ Look(s.d, x[1], s.d[x[1]].c[x[2]].v) = s.own[x]
(* one edit changes the circuit that it addresses, and no other *)
EditOps == {"val", "prm", "par", "addi", "remi", "remc"}
Frame == [][last'.op \in EditOps =>
              /\ \A p \in Paths(s) \cap Paths(s') :
                   p # last'.path => (IsPre(Append(last'.path, IF last'.op \in {"val", "remc"} THEN last'.ref ELSE "?"), p) \/ Eff(s')[p] = Eff(s)[p])
              /\ \A k \in DOMAIN s.d : (k \in DOMAIN s'.d /\ k # <<>> /\ k \notin {s'.own[x] : x \in DOMAIN s'.own} => s'.d[k] = s.d[k])
                                       \/ \E x \in DOMAIN s.own : IsPre(s.own[x], k)]_vars
=============================================================================

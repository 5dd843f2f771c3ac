----------------------------- MODULE SchematicGen ---------------------------
(* Random schematics and histories of edits. Values are numbers of the table of the driver, 0 removes. *)
EXTENDS Schematic, Integers, Json
CONSTANTS Depth, Kind
VARIABLES cfg, cur, disk, h
VT == <<"1k", "330", "4.7k", "1u", "{x*2}", "2.5", "2N2222", "BC547", "10", "{a+b}">>
R(S) == {RandomElement(S)}
Pick(S) == RandomElement(S)
V(z) == Pick({1, 2, 3, 4, 5, 6, 9, 10})
ValFor(r) == IF r = "Q1" THEN Pick({7, 8}) ELSE V(r)
PN == {"tol", "temp", "Rser", "ic", "m"}
Text(v) == IF v = 0 THEN None ELSE VT[v]
Params(z) == LET S == Pick(SUBSET PN) IN [n \in S |-> VT[Pick({1, 2, 3, 5, 6})]]
Some(i) == IF i > 1 THEN VT[Pick({1, 2, 3})] ELSE ""
Comp(ed, r) == [val |-> IF r \in Boxes THEN "" ELSE VT[ValFor(r)],
            val2 |-> IF ed = "asc" /\ r \in {"V1", "Q1"} THEN Some(Pick(1..2)) ELSE "",
            mod |-> IF ed = "asc" /\ r \notin Boxes THEN Some(Pick(1..2)) ELSE "",
            par |-> IF Pick(1..3) = 1 THEN [x \in {} |-> ""] ELSE Params(r),
            x |-> 16 * Pick(1..50), y |-> 16 * Pick(1..50), rot |-> Pick({0, 90, 180, 270, 360, 450, 540, 630})]
RandomComps(ed) == LET M == Pick({Main, Main \ {"X1"}, Main \ {"R2"}, Main \ {"Q1", "V1"}})
                   IN  [r \in M \cup (IF "X1" \in M THEN Below ELSE {}) |-> Comp(ed, r)]
Par(S) == [k |-> "par", a |-> LET q == CHOOSE q \in [1..Cardinality(S) -> S] : \A x, y \in 1..Cardinality(S) : x # y => q[x] # q[y] IN [j \in 1..Cardinality(S) |-> [n |-> q[j], v |-> VT[V(j)]]]]
Init == cfg = [st |-> 0] /\ cur = [c |-> [x \in {} |-> ""], t |-> <<>>] /\ disk = cur /\ h = <<>>
Free == ParNames \ Names(cur.t)
(* texts are added one by one until there are enough *)
MakeC == cfg.st = 0 /\ \E ed \in R({"asc", "qsch"}) : cfg' = [st |-> 1, ed |-> ed, lay |-> <<>>] /\ cur' = [cur EXCEPT !.c = RandomComps(ed)] /\ UNCHANGED <<disk, h>>
AnInstr(i, ts, free, z) == IF z <= 2 /\ free # {} THEN Par(Pick(SUBSET free \ {{}})) ELSE Instr(IF Kw[i] \in Unique /\ Sims(ts) # {} THEN Pick({5, 6, 7, 8, 9, 10, 11, 12, 13, 16}) ELSE i)
OneMore(ts) == \E i \in R(Cmds), z \in R(1..5) : LET ins == AnInstr(i, ts, ParNames \ Names(ts), z) IN
                 cur' = [cur EXCEPT !.t = [ts EXCEPT ![Len(ts)].ins = Append(@, ins)]]
CanText == Len(cur.t) < 6
CanMore == cur.t # <<>> /\ cur.t[Len(cur.t)].k = "D"
CanEnd == Len(cur.t) > 1
MakeT == /\ cfg.st = 1
         /\ \E z \in R((IF CanText THEN 1..4 ELSE {}) \cup (IF CanMore THEN {5, 6} ELSE {}) \cup (IF CanEnd THEN {7, 8} ELSE {})), lay \in R(0..3), k \in R(1..5), i \in R(1..5) :
              \/ /\ z <= 4
                 /\ IF k = 1 THEN cur' = [cur EXCEPT !.t = Append(@, [k |-> "C", at |-> Len(cur.t) + 1, ins |-> <<[k |-> "com", i |-> i]>>])]
                    ELSE OneMore(Append(cur.t, [k |-> "D", at |-> Len(cur.t) + 1, ins |-> <<>>]))
                 /\ cfg' = [cfg EXCEPT !.lay = Append(@, lay)]
              \/ /\ z \in {5, 6} /\ OneMore(cur.t) /\ cfg' = cfg
              \/ /\ z > 6 /\ cfg' = [cfg EXCEPT !.st = 2] @@ [c |-> cur.c, t |-> cur.t, frag |-> Frag, pat |-> Pat] /\ cur' = cur
         /\ disk' = cur' /\ UNCHANGED h
Op(o) == h' = Append(h, o)
C(c) == cur' = [cur EXCEPT !.c = c] /\ disk' = disk
Tx(t) == cur' = [cur EXCEPT !.t = t] /\ disk' = disk
Here == DOMAIN cur.c
Same == UNCHANGED <<cur, disk>>
Gone(r) == ~Has(cur.c, r)
Ref == RandomElement(IF Pick(1..14) = 1 THEN Refs \cup {"R9", "X1:R9"} ELSE IF Here = {} THEN {"R9"} ELSE Here)
Set == \E r \in {Ref}, via \in R(1..5) : \E v \in {ValFor(r)} :
         r \notin Boxes /\ Op([op |-> "set", r |-> r, v |-> v, via |-> via]) /\ (IF Gone(r) THEN Same ELSE C(SetVal(cur.c, r, Text(v))))
SetP == \E r \in {Ref}, n \in R(PN), n2 \in R(PN), v \in R({0, 0, 1, 2, 3, 5, 6}), v2 \in R({1, 2, 3}), z \in R(1..3), via \in R(1..5) :
          LET two == z = 1 /\ n2 # n
              n1 == IF z = 2 /\ Has(cur.c, r) /\ DOMAIN cur.c[r].par # {} THEN Pick(DOMAIN cur.c[r].par) ELSE n
          IN  \E m \in {n1} : /\ Op([op |-> "par", r |-> r, ps |-> IF two /\ n2 # m THEN <<[n |-> m, v |-> v], [n |-> n2, v |-> v2]>> ELSE <<[n |-> m, v |-> v]>>, via |-> via])
                              /\ (IF Gone(r) THEN Same ELSE C(LET c1 == SetPar(cur.c, r, m, Text(v)) IN IF two /\ n2 # m THEN SetPar(c1, r, n2, Text(v2)) ELSE c1))
SetA == cfg.ed = "asc" /\ \E r \in R((Here \ Boxes) \cup {"R9"}), n \in R({"Value", "value", "Value2", "SpiceModel"}), v \in R({0, 1, 2, 3, 6}) :
          Op([op |-> "attr", r |-> r, n |-> n, v |-> v]) /\ (IF Gone(r) THEN Same ELSE C(SetAttr(cur.c, r, IF n = "value" THEN "Value" ELSE n, Text(v))))
Move == \E r \in {Ref}, x \in R(-5..60), y \in R(-5..60), rot \in R({0, 90, 180, 270, 360, 450, 540, 630}), via \in R(1..3) :
          Op([op |-> "move", r |-> r, x |-> 16 * x, y |-> 16 * y, rot |-> rot, via |-> via]) /\ (IF Gone(r) THEN Same ELSE C(MoveTo(cur.c, r, 16 * x, 16 * y, rot)))
Library == cfg.ed = "asc" /\ \E via \in R(1..5) : Op([op |-> "library", via |-> via]) /\ Same
DropC == \E r \in {Ref} : Op([op |-> "drop", r |-> r]) /\ (IF Gone(r) THEN Same ELSE C(Drop(cur.c, r)))
Define == \E n \in R(ParNames), v \in R({0, 1, 2, 3, 4, 5, 6, 10}), up \in R(0..2), via \in R(1..2) :
            Op([op |-> "define", n |-> n, v |-> v, up |-> up, via |-> via]) /\ Tx(SetParameter(cur.t, n, Text(v)))
Ask == \E n \in R(ParNames \cup {"zz", "vmax"}), up \in R(0..2) : Op([op |-> "ask", n |-> n, up |-> up]) /\ Same
Add == \E i \in R(Cmds) : Len(cur.t) < 9 /\ Op([op |-> "add", i |-> i]) /\ Tx(AddInstr(cur.t, i))
AddPar == Op([op |-> "addpar"]) /\ Same
Known == {n \in Cmds : Exact(cur.t, n) # {}}
Rem == \E i \in R(IF Known # {} /\ Pick(1..5) # 1 THEN Known ELSE Cmds) :
         \* one that is not there may be part of another one
         /\ Cardinality(Exact(cur.t, i)) <= 1
         /\ (Exact(cur.t, i) = {} => i \notin {6, 1, 14, 2})
         /\ Op([op |-> "rem", i |-> i]) /\ (IF Exact(cur.t, i) = {} THEN Same ELSE Tx(RemoveAt(cur.t, First(Exact(cur.t, i)))))
RemF == \E f \in R(1..Len(Frag)) : Cardinality(Holding(cur.t, f)) <= 1 /\ Op([op |-> "remf", f |-> f])
         /\ (IF Holding(cur.t, f) = {} THEN Same ELSE Tx(RemoveAt(cur.t, First(Holding(cur.t, f)))))
RemX == \E q \in R(1..Len(Pat)) : Op([op |-> "remx", q |-> q]) /\ Tx(RemoveMatching(cur.t, q))
SaveAs == \E how \in R({"new", "same", "same"}) : Op([op |-> "save", how |-> how]) /\ cur' = cur /\ disk' = Save(cur)
SaveElse == cfg.ed = "asc" /\ Op([op |-> "save", how |-> "else"]) /\ cur' = cur /\ disk' = SaveElsewhere(cur, disk)
Reset == \E how \in R({"reset", "load"}) : Op([op |-> how]) /\ cur' = disk /\ disk' = disk
More == cfg.st = 2 /\ Len(h) < Depth
Files == SaveAs \/ SaveElse \/ Reset
Next == MakeC \/ MakeT
        \/ (More /\ cfg' = cfg /\ \E z \in R(1..10) :
              IF z <= 3 THEN Files
              ELSE IF (Kind = "texts") = (z <= 8) THEN (Define \/ Ask \/ Add \/ AddPar \/ Rem \/ RemF \/ RemX \/ Define \/ Add)
              ELSE (Set \/ SetP \/ SetA \/ Move \/ DropC \/ (Pick(1..3) = 1 /\ Library)))
Emit == cfg.st = 2 /\ Len(h) = Depth => PrintT(<<"BEH", ToJson([meta |-> cfg, ops |-> h])>>)
=============================================================================

----------------------------- MODULE SchematicMC ----------------------------
(* A small schematic under every history of edits: it stays well formed, edits only change what they name, removing
   undoes adding, and files hold what was saved.                                                                      *)
EXTENDS Schematic
CONSTANTS Vals, MaxT, MaxN
VARIABLES cur, disk, n
vars == <<cur, disk, n>>
Comp(v) == [val |-> v, val2 |-> "", mod |-> "", par |-> [x \in {} |-> ""], x |-> 0, y |-> 0, rot |-> 0]
Comment == [k |-> "C", at |-> 1, ins |-> <<[k |-> "com", i |-> 1]>>]
Start == [c |-> [r \in {"R1", "X1", "X1:R1"} |-> Comp("1k")],
          t |-> <<[k |-> "D", at |-> 2, ins |-> <<Instr(1), [k |-> "par", a |-> <<[n |-> "a", v |-> "1k"], [n |-> "b", v |-> "1k"]>>]>>], Comment>>]
Init == cur = Start /\ disk = Start /\ n = 0
Comps == DOMAIN cur.c
Tick == n < MaxN /\ n' = n + 1
C(c) == Tick /\ cur' = [cur EXCEPT !.c = c] /\ disk' = disk
Tx(t) == Tick /\ cur' = [cur EXCEPT !.t = t] /\ disk' = disk
SetValue == \E r \in Comps \ Boxes, v \in Vals : C(SetVal(cur.c, r, v))
SetParam == \E r \in Comps, v \in Vals \cup {None} : C(SetPar(cur.c, r, "tol", v))
Move == \E r \in Comps : C(MoveTo(cur.c, r, 1, 0, 90))
Remove == \E r \in Comps : C(Drop(cur.c, r))
Define == n < MaxN /\ \E x \in {"a", "b", "c"}, v \in Vals \cup {None} : Tx(SetParameter(cur.t, x, v))
Add == Len(cur.t) < MaxT /\ \E i \in {1, 3, 6, 7} : Tx(AddInstr(cur.t, i))
RemoveInstr == \E i \in {1, 3, 6, 7} : Exact(cur.t, i) # {} /\ Tx(RemoveAt(cur.t, First(Exact(cur.t, i))))
RemovePat == \E q \in {1, 2, 9, 10} : AnyMatching(cur.t, q) /\ Tx(RemoveMatching(cur.t, q))
Write == Tick /\ cur' = cur /\ disk' = Save(cur)
Copy == Tick /\ cur' = cur /\ disk' = SaveElsewhere(cur, disk)
Reset == Tick /\ cur' = disk /\ disk' = disk
Next == SetValue \/ SetParam \/ Move \/ Remove \/ Define \/ Add \/ RemoveInstr \/ RemovePat \/ Write \/ Copy \/ Reset
Spec == Init /\ [][Next]_vars
InvForm == WellFormed(cur.t) /\ WellFormed(disk.t)
InvComment == Count(cur.t, Comment) = 1 /\ Count(disk.t, Comment) = 1
InvTree == \A c \in {cur.c, disk.c} : \A r \in DOMAIN c : \A b \in Boxes : (r \in Under(b) => Has(c, b))
InvUndo == /\ \A i \in {6, 7} : SameTexts(RemoveAt(AddInstr(cur.t, i), LET S == Exact(AddInstr(cur.t, i), i) IN CHOOSE p \in S : \A q \in S : p[1] >= q[1]), cur.t)
           /\ \A v \in Vals : "c" \notin Names(cur.t) => SetParameter(SetParameter(cur.t, "c", v), "c", None) = cur.t
           /\ \A x \in Names(cur.t) : SetParameter(cur.t, x, Value(cur.t, x)) = cur.t
InvSet == \A v \in Vals : /\ Value(SetParameter(cur.t, "b", v), "b") = v
                          /\ \A x \in Names(cur.t) \ {"b"} : Value(SetParameter(cur.t, "b", v), x) = Value(cur.t, x)
                          /\ Names(SetParameter(cur.t, "b", v)) = Names(cur.t) \cup {"b"} /\ Names(SetParameter(cur.t, "b", None)) = Names(cur.t) \ {"b"}
InvFile == Save(cur) = cur /\ LET s == SaveElsewhere(cur, disk) IN s.t = disk.t /\ \A r \in Main : Has(s.c, r) = Has(disk.c, r) /\ (Has(s.c, r) => s.c[r] = disk.c[r])
(* an edit of one component leaves the others, and the texts; what is on disk changes only with a save *)
Frame == [][(cur'.t = cur.t \/ cur'.c = cur.c \/ cur' = disk) /\ (disk' # disk => cur' = cur)]_vars
=============================================================================

------------------------------ MODULE Schematic -----------------------------
(* Schematics of LTspice and QSPICE and their editing: components of the sheet and of the sheets below it, the texts of
   the sheet (instructions, parameters, comments), and the files. Texts have several instructions, one after another.
   cur = [c: components, t: texts] is the schematic in memory and disk what its files say.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
None == "none"                                     \* a value that removes
(* ---------------------------------------------------------------- the tables, the texts are with the driver *)
Kw == <<"tran", "tran", "ac", "noise", "meas", "save", "save", "ic", "opt", "lib", "k", "meas", "step", "tran", "dc", "save">>
Cmds == 1..Len(Kw)
Unique == {"tran", "ac", "noise", "dc", "tf"}      \* only one of these can be active
Frag == << {5, 12}, {5}, {7, 8, 16}, {8}, {9}, {}, {13}, {11}, {10}, {1} >>      \* the instructions with a text in them
Pat == << {6, 7, 16}, {1, 2, 14}, {5}, {11}, {}, {}, {5, 12}, {13}, {3, 4}, {} >>    \* and those that start with a pattern
ParPat == Len(Pat)                                 \* the last pattern is that of the parameters
Main == {"R1", "R2", "C1", "V1", "Q1", "X1"}
Below == {"X1:R1", "X1:C2", "X1:X2", "X1:X2:R3"}
Refs == Main \cup Below
Under(r) == CASE r = "X1" -> Below [] r = "X1:X2" -> {"X1:X2:R3"} [] OTHER -> {}
Boxes == {"X1", "X1:X2"}
ParNames == {"a", "b", "c", "dd"}
(* ---------------------------------------------------------------- components *)
Has(c, r) == r \in DOMAIN c
Shown(x) == IF x.val2 = "" THEN x.val ELSE x.val \o " " \o x.val2
Give(f, n, v) == IF v = None THEN [x \in DOMAIN f \ {n} |-> f[x]] ELSE [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
SetVal(c, r, v) == [c EXCEPT ![r].val = v]
SetPar(c, r, n, v) == [c EXCEPT ![r].par = Give(@, n, v)]
SetAttr(c, r, n, v) ==       \* the attributes of a symbol that are given by their name; a value can't be removed
  CASE n = "Value" -> IF v = None THEN c ELSE [c EXCEPT ![r].val = v]
    [] n = "Value2" -> [c EXCEPT ![r].val2 = IF v = None THEN "" ELSE v]
    [] n = "SpiceModel" -> [c EXCEPT ![r].mod = IF v = None THEN "" ELSE v]
MoveTo(c, r, x, y, rot) == [c EXCEPT ![r].x = x, ![r].y = y, ![r].rot = rot]
Drop(c, r) == [x \in DOMAIN c \ ({r} \cup Under(r)) |-> c[x]]
(* ---------------------------------------------------------------- texts *)
IsPar(i) == i.k = "par"
Active(t) == t.k = "D"
Without(s, n) == SubSeq(s, 1, n - 1) \o SubSeq(s, n + 1, Len(s))
Purge(ts) == SelectSeq(ts, LAMBDA t : ~Active(t) \/ t.ins # <<>>)         \* a text without instructions is no longer there
Places(ts, P(_)) == {<<n, m>> \in (1..Len(ts)) \X (1..12) : Active(ts[n]) /\ m <= Len(ts[n].ins) /\ P(ts[n].ins[m])}
First(S) == CHOOSE p \in S : \A q \in S : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
IsSim(i) == ~IsPar(i) /\ Kw[i.i] \in Unique
Sims(ts) == Places(ts, IsSim)
New(i) == [k |-> "D", at |-> 0, ins |-> <<i>>]
Instr(n) == [k |-> "cmd", i |-> n]
AddInstr(ts, n) ==
  IF Kw[n] \in Unique /\ Sims(ts) # {} THEN LET p == First(Sims(ts)) IN [ts EXCEPT ![p[1]].ins[p[2]] = Instr(n)] ELSE Append(ts, New(Instr(n)))
Exact(ts, n) == LET P(i) == ~IsPar(i) /\ i.i = n IN Places(ts, P)
Holding(ts, f) == LET P(i) == ~IsPar(i) /\ i.i \in Frag[f] IN Places(ts, P)
RemoveAt(ts, p) == Purge([ts EXCEPT ![p[1]].ins = Without(@, p[2])])
RemoveAll(ts, P(_)) == LET Q(i) == ~P(i) IN Purge([n \in 1..Len(ts) |-> IF Active(ts[n]) THEN [ts[n] EXCEPT !.ins = SelectSeq(@, Q)] ELSE ts[n]])
Matches(q, i) == IF IsPar(i) THEN q = ParPat ELSE i.i \in Pat[q]
RemoveMatching(ts, q) == LET P(i) == Matches(q, i) IN RemoveAll(ts, P)
AnyMatching(ts, q) == LET P(i) == Matches(q, i) IN Places(ts, P) # {}
(* the parameters of all the instructions *)
Assigns(ts) == LET P(i) == IsPar(i) IN UNION {{<<p[1], p[2], j>> : j \in 1..Len(ts[p[1]].ins[p[2]].a)} : p \in Places(ts, P)}
At(ts, q) == ts[q[1]].ins[q[2]].a[q[3]]
Names(ts) == {At(ts, q).n : q \in Assigns(ts)}
Value(ts, n) == At(ts, CHOOSE q \in Assigns(ts) : At(ts, q).n = n).v
SetParameter(ts, n, v) ==
  IF n \in Names(ts)
  THEN LET q == CHOOSE q \in Assigns(ts) : At(ts, q).n = n
           a == ts[q[1]].ins[q[2]].a
       IN  IF v # None THEN [ts EXCEPT ![q[1]].ins[q[2]].a[q[3]].v = v]
           ELSE IF Len(a) > 1 THEN [ts EXCEPT ![q[1]].ins[q[2]].a = Without(a, q[3])] ELSE RemoveAt(ts, <<q[1], q[2]>>)
  ELSE IF v = None THEN ts ELSE Append(ts, New([k |-> "par", a |-> <<[n |-> n, v |-> v]>>]))
Count(ts, t) == Cardinality({n \in 1..Len(ts) : ts[n] = t})
SameTexts(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : Count(a, a[n]) = Count(b, a[n])
WellFormed(ts) == /\ Cardinality(Sims(ts)) <= 1
                  /\ \A q, s \in Assigns(ts) : At(ts, q).n = At(ts, s).n => q = s
                  /\ \A n \in 1..Len(ts) : Active(ts[n]) => ts[n].ins # <<>>
                  /\ LET P(i) == IsPar(i) IN \A p \in Places(ts, P) : ts[p[1]].ins[p[2]].a # <<>>
(* ---------------------------------------------------------------- files *)
Save(cur) == cur
(* another file of the sheet: the files of the sheets below are the same ones *)
SaveElsewhere(cur, disk) ==
  LET under == IF Has(cur.c, "X1") THEN cur.c ELSE disk.c
  IN  [t |-> disk.t, c |-> [r \in (DOMAIN disk.c \cap Main) \cup (DOMAIN under \ Main) |-> IF r \in Main THEN disk.c[r] ELSE under[r]]]
=============================================================================

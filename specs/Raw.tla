---------------------------- MODULE Raw ----------------------------
(* The content of a RAW file and what a reader answers about it.

   A plot is a record
     kind   "tran", "ac", "noise", "dc", "op"      axis  whether the first variable is an axis ("op" has none)
     lens   number of points of each step          stepped  whether the file is marked as stepped
     log    "yes" / "no" (the log with the step information is missing) / "short" (it lists too few steps)
     vals   per variable the integer stored at each point, steps one after the other
     nal    number of derived traces (aliases) that the file defines: half of variable 2, half of the difference of
            variables 2 and 3, twice variable 2
     pars   per step the values of the stepped parameters a and b
   The integers stand for numbers of the type the file stores; times are stored with arbitrary sign.

   The reader reads lazily, but its answers are functions of the file alone: that is the first property. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

RECURSIVE Sum(_, _)
Sum(q, n) == IF n = 0 THEN 0 ELSE q[n] + Sum(q, n - 1)
Steps(p) == Len(p.lens)
Points(p) == Sum(p.lens, Steps(p))
NVars(p) == Len(p.vals)
Abs(x) == IF x < 0 THEN -x ELSE x
(* all the values of a variable or alias *)
Whole(p, v) ==
  IF v <= NVars(p) THEN [i \in 1..Points(p) |-> IF v = 1 /\ p.kind = "tran" THEN Abs(p.vals[1][i]) ELSE p.vals[v][i]]
  ELSE IF v = NVars(p) + 1 THEN [i \in 1..Points(p) |-> p.vals[2][i] \div 2]
  ELSE IF v = NVars(p) + 2 THEN [i \in 1..Points(p) |-> (p.vals[2][i] - p.vals[3][i]) \div 2]
  ELSE [i \in 1..Points(p) |-> 2 * p.vals[2][i]]
Names(p) == 1..(NVars(p) + p.nal)
(* the answers; steps are counted from 0 *)
Wave(p, v, s) == IF ~p.axis THEN Whole(p, v)
                 ELSE LET o == Sum(p.lens, s) IN SubSeq(Whole(p, v), o + 1, o + p.lens[s + 1])
Length(p, s) == IF p.axis THEN p.lens[s + 1] ELSE Points(p)
Point(p, v, n, s) == IF p.axis THEN Wave(p, v, s)[n + 1] ELSE IF n = 0 THEN Whole(p, v)[s + 1] ELSE Whole(p, v)[n + 1]
(* linear interpolation in a table; exact because the specification only uses tables for which it is *)
Interp(xs, ys, t) ==
  LET i == CHOOSE i \in 1..Len(xs) : xs[i] <= t /\ (i = Len(xs) \/ t < xs[i + 1])
  IN IF xs[i] = t THEN ys[i] ELSE ys[i] + ((ys[i + 1] - ys[i]) * (t - xs[i])) \div (xs[i + 1] - xs[i])
Inside(xs, t) == xs[1] <= t /\ t <= xs[Len(xs)]
At(p, v, t, s) == Interp(Wave(p, 1, s), Wave(p, v, s), t)
(* the steps that match a query; -1 = not asked *)
Query(p, a, b, other) ==
  SelectSeq([i \in 1..Steps(p) |-> i - 1],
            LAMBDA s : ~other /\ (a = -1 \/ p.pars[s + 1].a = a) /\ (b = -1 \/ p.pars[s + 1].b = b))
(* a table with the data of some traces and steps *)
Column(p, v, ss) == FlattenSeq([i \in 1..Len(ss) |-> IF p.axis THEN Wave(p, v, ss[i])
                                  ELSE IF p.stepped THEN <<Whole(p, v)[ss[i] + 1]>> ELSE Whole(p, v)])
Columns(p, cs) == IF cs = {} THEN Names(p) ELSE cs \cup (IF p.axis THEN {1} ELSE {})
(* the conversion on the command line: of the traces that were asked for (in full, or without V() or I()), those that exist,
   each once, in that order, after the axis; all of them when none is asked for                                          *)
RECURSIVE Once(_)
Once(q) == IF q = <<>> THEN <<>> ELSE LET r == Once(SubSeq(q, 1, Len(q) - 1)) x == q[Len(q)] IN IF \E i \in 1..Len(r) : r[i] = x THEN r ELSE Append(r, x)
(* variables 3 and 4 are a voltage and a current of the same name, of which the voltage is meant *)
Found(p, ask) == LET s == SelectSeq(ask, LAMBDA a : a.form # "unknown") IN Once([i \in 1..Len(s) |-> IF s[i].form = "bare" /\ s[i].v = 4 /\ NVars(p) > 3 THEN 3 ELSE s[i].v])
Converted(p, ask) == LET w == Found(p, ask) IN
  IF ask = <<>> THEN [i \in 1..(NVars(p) + p.nal) |-> i] ELSE IF p.axis /\ ~\E i \in 1..Len(w) : w[i] = 1 THEN <<1>> \o w ELSE w
Refused(p, ask) == ask # <<>> /\ Found(p, ask) = <<>>
AllSteps(p) == [i \in 1..Steps(p) |-> i - 1]
Table(p, cs, ss) == {[c |-> v, v |-> Column(p, v, IF ss = <<>> THEN [i \in 1..Steps(p) |-> i - 1] ELSE ss)] : v \in Columns(p, cs)}
=============================================================================

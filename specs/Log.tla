---------------------------- MODULE Log ----------------------------
(* The content of a simulation log (LTspice log, LTspice .mout with its log, QSPICE log with its .meas file) and what a
   reader answers about it.

     n     number of steps; 0 = the simulation is not stepped (there is one row of measurements)
     vars  the stepped parameters: name and value of every step
     cols  the columns of the measurements: name, form and the value of every row
   A value is <<x, y>> (y is only used by complex measurements), or <<>> where the measurement failed in that step.
   Forms: "real" and the notations of complex numbers "cart" (re, im), "polar" (magnitude, degrees), "db" (dB, degrees).
   The numbers are integers; the harness prints them in units of its choosing. Steps are counted from 0. *)
EXTENDS Integers, Sequences, FiniteSets

Rows(f) == IF f.n = 0 THEN 1 ELSE f.n
(* everything that can be asked by name: first the measurements, then the stepped parameters *)
Col(f, c) == IF c <= Len(f.cols) THEN f.cols[c]
             ELSE [name |-> f.vars[c - Len(f.cols)].name, form |-> "real",
                   vals |-> [s \in 1..f.n |-> <<f.vars[c - Len(f.cols)].vals[s], 0>>]]
Steps(f) == [s \in 1..Rows(f) |-> s - 1]
StepsEq(f, c, v) == SelectSeq(Steps(f), LAMBDA s : Col(f, c).vals[s + 1] = <<v, 0>>)
ToSet(q) == {q[i] : i \in 1..Len(q)}
(* all of the conditions, each of them a column and a value *)
StepsWith(f, cs) == SelectSeq(Steps(f), LAMBDA s : \A k \in 1..Len(cs) : s \in ToSet(StepsEq(f, cs[k].c, cs[k].v)))
Picked(f, c, ss) == [i \in 1..Len(ss) |-> Col(f, c).vals[ss[i] + 1]]
Whole(f, c) == Picked(f, c, Steps(f))
(* statistics of real columns; the average comes as <<sum, count>> *)
Full(vs) == Len(vs) > 0 /\ \A i \in 1..Len(vs) : vs[i] # <<>>
MaxOf(vs) == CHOOSE m \in ToSet(vs) : \A x \in ToSet(vs) : x[1] <= m[1]
MinOf(vs) == CHOOSE m \in ToSet(vs) : \A x \in ToSet(vs) : m[1] <= x[1]
RECURSIVE SumOf(_)
SumOf(vs) == IF vs = <<>> THEN 0 ELSE Head(vs)[1] + SumOf(Tail(vs))
(* complex measurements can be split into two more columns each *)
Complex(f) == {c \in 1..Len(f.cols) : f.cols[c].form # "real"}
Part(c, k) == [i \in 1..Len(c.vals) |-> IF c.vals[i] = <<>> THEN <<>> ELSE <<c.vals[i][k], 0>>]
Named(f, split) ==
  {[name |-> Col(f, c).name, vals |-> Whole(f, c)] : c \in 1..Len(f.cols)}
  \cup (IF split THEN {[name |-> f.cols[c].name \o "_mag", vals |-> Part(f.cols[c], 1)] : c \in Complex(f)}
                      \cup {[name |-> f.cols[c].name \o "_ph", vals |-> Part(f.cols[c], 2)] : c \in Complex(f)}
        ELSE {})
(* an exported table, column by column *)
Table(f, split, prefix) ==
  Named(f, split)
  \cup {[name |-> f.vars[k].name, vals |-> [s \in 1..f.n |-> <<f.vars[k].vals[s], 0>>]] : k \in 1..Len(f.vars)}
  \cup {[name |-> "step", vals |-> [s \in 1..Rows(f) |-> <<s, 0>>]]}
  \cup (IF prefix = 0 THEN {} ELSE {[name |-> "user info", vals |-> [s \in 1..Rows(f) |-> <<prefix, 0>>]]})
(* exporting to a file that holds the tables "before" *)
Exported(before, f, split, prefix) == IF prefix = 0 THEN <<Table(f, split, 0)>> ELSE Append(before, Table(f, split, prefix))
=============================================================================

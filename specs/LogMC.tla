---------------------------- MODULE LogMC ----------------------------
(* How the content lies in the lines of a log, and how a reader gets it back line by line: a step line for every step,
   then a table per measurement with a row for every step in which the measurement succeeded. What has been read is at
   all times a part of the content, and all of it at the end; a row belongs to the step it names, wherever it stands. *)
EXTENDS Log, SequencesExt
CONSTANTS MaxN, MaxMeas, MaxVars, Val
VARIABLES f, lines, pos, data, cur
vars == <<f, lines, pos, data, cur>>
Vals == {<<v, 0>> : v \in 1..Val} \cup {<<>>}
Name(k) == <<"m1", "m2", "m3">>[k]
File == UNION {{[n |-> n, vars |-> [k \in 1..nv |-> [name |-> <<"a", "b">>[k], vals |-> w[k]]],
                 cols |-> [k \in 1..nm |-> [name |-> Name(k), form |-> "real", vals |-> x[k]]]] :
                 w \in [1..nv -> [1..n -> 1..Val]], x \in [1..nm -> [1..n -> Vals]]} :
                <<n, nm, nv>> \in (1..MaxN) \X (1..MaxMeas) \X (1..MaxVars)}
Line(k, s, v) == [k |-> k, s |-> s, v |-> v]
Written(g) ==
  [s \in 1..g.n |-> Line("step", s, [k \in 1..Len(g.vars) |-> g.vars[k].vals[s]])]
  \o FlattenSeq([c \in 1..Len(g.cols) |->
       <<Line("meas", c, <<>>)>>
       \o FlattenSeq([s \in 1..g.n |-> IF g.cols[c].vals[s] = <<>> THEN <<>> ELSE <<Line("row", s, g.cols[c].vals[s])>>])])
Init == /\ f \in File
        /\ lines = Written(f)
        /\ pos = 1 /\ cur = 0
        /\ data = [steps |-> <<>>, rows |-> {}]
ReadStep == /\ pos <= Len(lines) /\ lines[pos].k = "step"
            /\ data' = [data EXCEPT !.steps = Append(@, lines[pos].v)]
            /\ pos' = pos + 1 /\ UNCHANGED <<f, lines, cur>>
ReadMeas == /\ pos <= Len(lines) /\ lines[pos].k = "meas"
            /\ cur' = cur + 1
            /\ pos' = pos + 1 /\ UNCHANGED <<f, lines, data>>
ReadRow == /\ pos <= Len(lines) /\ lines[pos].k = "row"
           /\ data' = [data EXCEPT !.rows = @ \cup {[c |-> cur, s |-> lines[pos].s, v |-> lines[pos].v]}]
           /\ pos' = pos + 1 /\ UNCHANGED <<f, lines, cur>>
Next == ReadStep \/ ReadMeas \/ ReadRow
Spec == Init /\ [][Next]_vars
InvPart == /\ \A r \in data.rows : f.cols[r.c].vals[r.s] = r.v
           /\ \A s \in 1..Len(data.steps) : \A k \in 1..Len(f.vars) : data.steps[s][k] = f.vars[k].vals[s]
InvAll == pos > Len(lines) =>
            /\ Len(data.steps) = f.n
            /\ \A c \in 1..Len(f.cols) : \A s \in 1..f.n :
                 f.cols[c].vals[s] = (IF \E r \in data.rows : r.c = c /\ r.s = s
                                      THEN (CHOOSE r \in data.rows : r.c = c /\ r.s = s).v ELSE <<>>)
(* the queries agree with each other *)
Names == 1..(Len(f.cols) + Len(f.vars))
InvQuery == pos = 1 => \A c \in Names : \A v \in 1..Val :
  /\ \A s \in ToSet(StepsEq(f, c, v)) : Col(f, c).vals[s + 1] = <<v, 0>>
  /\ \A d \in Names : \A w \in 1..Val :
       ToSet(StepsWith(f, <<[c |-> c, v |-> v], [c |-> d, v |-> w]>>)) = ToSet(StepsEq(f, c, v)) \cap ToSet(StepsEq(f, d, w))
InvStats == pos = 1 => \A c \in Names : Full(Whole(f, c)) =>
  /\ MinOf(Whole(f, c))[1] * f.n <= SumOf(Whole(f, c)) /\ SumOf(Whole(f, c)) <= MaxOf(Whole(f, c))[1] * f.n
  /\ \A s \in ToSet(Steps(f)) : MaxOf(Picked(f, c, <<s>>)) = Col(f, c).vals[s + 1]
InvTable == pos = 1 => Cardinality(Table(f, FALSE, 0)) = Len(f.cols) + Len(f.vars) + 1
                       /\ Len(Exported(Exported(<<>>, f, FALSE, 0), f, FALSE, 2)) = 2
=============================================================================

---------------------------- MODULE ToleranceMC ----------------------------
(* Three procedures: counting through the bounds of the worst case by changing only the elements whose bit changed; the
   search of the fast worst case (from any first guess, for any measurement); and the bookkeeping of an analysis object
   (changes given by the user are applied once, in order; formulas start from nominal values). *)
EXTENDS Tolerance, TLC
CONSTANTS N, MaxF, MaxJ
VARIABLES mode, f, run, vals, setting, value, pos, best, net, journal, applied, prep, dirty, saw
vars == <<mode, f, run, vals, setting, value, pos, best, net, journal, applied, prep, dirty, saw>>
Els == 1..N
Combos == SUBSET Els          \* the elements at their upper bound
Bits(k) == {i \in Els : Bit(k, i - 1) = 1}
Idle == /\ run = -1 /\ vals = [i \in Els |-> "nom"] /\ setting = {} /\ value = 0 /\ pos = 0 /\ best = <<>>
        /\ net = <<>> /\ journal = 0 /\ applied = 0 /\ prep = FALSE /\ dirty = FALSE /\ saw = <<>>
Init == \/ mode = "count" /\ f = <<>> /\ Idle
        \/ mode = "book" /\ f = <<>> /\ Idle
        \/ /\ mode = "search" /\ f \in [Combos -> 0..MaxF] /\ setting \in Combos /\ value = f[setting] /\ pos = 1 /\ best = <<>>
           /\ run = -1 /\ vals = <<>> /\ net = <<>> /\ journal = 0 /\ applied = 0 /\ prep = FALSE /\ dirty = FALSE /\ saw = <<>>
(* ---- counting ---- *)
Count ==
  /\ mode = "count" /\ run < Pow(N) - 1
  /\ LET old == IF run = -1 THEN Pow(N) - 1 ELSE run
         new == run + 1
         changed == {i \in Els : Bit(old, i - 1) # Bit(new, i - 1)} IN
     /\ run' = new /\ vals' = [i \in Els |-> IF i \in changed THEN (IF Bit(new, i - 1) = 1 THEN "hi" ELSE "lo") ELSE vals[i]]
  /\ UNCHANGED <<mode, f, setting, value, pos, best, net, journal, applied, prep, dirty, saw>>
InvCount == mode = "count" /\ run >= 0 => vals = [i \in Els |-> IF i \in Bits(run) THEN "hi" ELSE "lo"]
(* ---- search: first for the maximum, then, from the opposite, for the minimum ---- *)
Flip(s, i) == IF i \in s THEN s \ {i} ELSE s \cup {i}
Better(a, b) == IF best = <<>> THEN a > b ELSE a < b
Try ==
  /\ mode = "search" /\ pos >= 1 /\ pos <= N
  /\ LET s == Flip(setting, pos) IN
     IF Better(f[s], value) THEN setting' = s /\ value' = f[s] /\ pos' = 1 ELSE pos' = pos + 1 /\ UNCHANGED <<setting, value>>
  /\ UNCHANGED <<mode, f, run, vals, best, net, journal, applied, prep, dirty, saw>>
Turn == /\ mode = "search" /\ pos = N + 1 /\ best = <<>> /\ best' = <<setting, value>> /\ setting' = Els \ setting /\ value' = f[Els \ setting] /\ pos' = 1
        /\ UNCHANGED <<mode, f, run, vals, net, journal, applied, prep, dirty, saw>>
End == /\ mode = "search" /\ pos = N + 1 /\ best # <<>> /\ pos' = N + 2
       /\ UNCHANGED <<mode, f, run, vals, setting, value, best, net, journal, applied, prep, dirty, saw>>
Separable == \A s \in Combos, i, j \in Els : i # j /\ i \notin s /\ j \notin s => f[s \cup {i}] - f[s] = f[s \cup {i, j}] - f[s \cup {j}]
InvSearch == mode = "search" /\ pos = N + 2 =>
  /\ best[2] = f[best[1]] /\ value = f[setting]
  /\ \A i \in Els : f[Flip(best[1], i)] <= best[2] /\ f[Flip(setting, i)] >= value
  /\ (Separable => \A s \in Combos : f[s] <= best[2] /\ f[s] >= value)
Found == mode = "search" ~> (pos = N + 2)
(* ---- bookkeeping: net is the list of the changes in the netlist, -1 where formulas were put, -2 where an analysis left values ---- *)
Keep == UNCHANGED <<mode, f, run, vals, setting, value, pos, best>>
Clean(n) == SelectSeq(n, LAMBDA x : x > 0)
Give == mode = "book" /\ journal < MaxJ /\ journal' = journal + 1 /\ UNCHANGED <<net, applied, prep, dirty, saw>> /\ Keep
Play(n, a) == n \o [i \in 1..(journal - a) |-> a + i]
Start2 == IF dirty THEN Play(<<>>, 0) ELSE Play(net, applied)   \* _start_analysis
Prepare == /\ mode = "book" /\ ~prep /\ saw' = <<>> /\ net' = Start2 \o <<-1>> /\ applied' = journal /\ prep' = TRUE /\ dirty' = TRUE /\ UNCHANGED journal /\ Keep
Simulate == /\ mode = "book" /\ prep /\ net' = Play(net, applied) /\ applied' = journal /\ saw' = net' /\ UNCHANGED <<journal, prep, dirty>> /\ Keep
Analyse == /\ mode = "book" /\ saw' = Play(<<>>, 0) \o <<-2>> /\ net' = saw' /\ applied' = journal /\ prep' = FALSE /\ dirty' = TRUE /\ UNCHANGED journal /\ Keep
Reset == /\ mode = "book" /\ net' = <<>> /\ journal' = 0 /\ applied' = 0 /\ prep' = FALSE /\ dirty' = FALSE /\ saw' = <<>> /\ Keep
InvBook == mode = "book" =>
  /\ applied <= journal
  /\ (saw # <<>> => Len(saw) = Len(Clean(saw)) + 1 /\ Clean(saw) = [i \in 1..Len(Clean(saw)) |-> i])
  /\ (~dirty => net = [i \in 1..applied |-> i])
SimulatesAll == [][mode = "book" /\ saw' # saw /\ saw' # <<>> => Clean(saw') = [i \in 1..journal |-> i]]_vars
Next == Count \/ Try \/ Turn \/ End \/ Give \/ Prepare \/ Simulate \/ Analyse \/ Reset
Spec == Init /\ [][Next]_vars /\ WF_vars(Count \/ Try \/ Turn \/ End)
(* shares *)
ASSUME \A p \in 0..20, t \in 1..20 : p <= t => \E x \in 0..1000 : IsShare(x, p, t)
=============================================================================

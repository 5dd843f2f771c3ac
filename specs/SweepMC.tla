---------------------------- MODULE SweepMC ----------------------------
(* The counting procedure of stepped simulations (one counter for each dimension, the last one fastest) makes each
   combination exactly once, in the order of nested loops; iterations that share a sweep do not disturb each other. *)
EXTENDS Sweep, TLC
CONSTANTS MaxDims, MaxVals
VARIABLES dims, ix, at, done, made, its
vars == <<dims, ix, at, done, made, its>>
Names == <<"a", "b", "c">>
DimSets(n) == [1..n -> 0..MaxVals]
Init ==
  /\ \E n \in 0..MaxDims : \E f \in DimSets(n), dup \in BOOLEAN :
       dims = [i \in 1..n |-> [e |-> Names[i], vals |-> [j \in 1..f[i] |-> IF dup THEN (j + 1) \div 2 ELSE j]]]
  /\ ix = [i \in 1..Len(dims) |-> 0] /\ at = [e \in {"z"} |-> 9] /\ done = FALSE /\ made = <<>> /\ its = 1
(* its: the dimension that is to advance *)
Advance ==
  /\ ~done /\ its >= 1 /\ its <= Len(dims) /\ ix[its] < Len(dims[its].vals)
  /\ ix' = [ix EXCEPT ![its] = @ + 1] /\ at' = Put(at, dims[its].e, dims[its].vals[ix[its] + 1])
  /\ its' = its + 1 /\ UNCHANGED <<dims, done, made>>
Exhausted ==
  /\ ~done /\ its >= 1 /\ its <= Len(dims) /\ ix[its] = Len(dims[its].vals)
  /\ ix' = [ix EXCEPT ![its] = 0] /\ its' = its - 1 /\ UNCHANGED <<dims, at, done, made>>
Simulate == ~done /\ its = Len(dims) + 1 /\ made' = Append(made, at) /\ its' = Len(dims) /\ UNCHANGED <<dims, ix, at, done>>
Finish == ~done /\ its = 0 /\ done' = TRUE /\ UNCHANGED <<dims, ix, at, made, its>>
Next == Advance \/ Exhausted \/ Simulate \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InvPrefix == LET all == Runs([e \in {"z"} |-> 9], dims) IN Len(made) <= Len(all) /\ \A i \in 1..Len(made) : made[i] = all[i]
InvAll == done => Len(made) = Total(dims) /\ at = Left([e \in {"z"} |-> 9], dims)
Ends == <>done
(* points *)
Min2OK(x, o) == (o.a <= x /\ x <= o.b) \/ (o.b <= x /\ x <= o.a)
Lins == {[k |-> "lin", a |-> a, b |-> b, c |-> c] : a \in -4..4, b \in -4..4, c \in {-3, -2, -1, 1, 2, 3}}
ASSUME \A o \in Lins : LET p == LinPoints(o) IN
         /\ p # <<>> /\ p[1] \in {o.a, o.b} /\ \A i \in 1..Len(p) : Min2OK(p[i], o)
         /\ (o.c > 0 => p[1] = o.a) /\ \A i \in 1..(Len(p) - 1) : Abs(p[i + 1] - p[i]) = Abs(o.c)
         /\ Abs(p[Len(p)] - p[1]) + Abs(o.c) > Abs(o.b - o.a)
ASSUME \A n \in 2..5, a \in -3..3, b \in -3..3 : LET p == NumPoints([n |-> n, a |-> a, b |-> b]) IN
         Len(p) = n /\ p[1] = a * (n - 1) /\ p[n] = b * (n - 1)
=============================================================================

---------------------------- MODULE Sweep ----------------------------
(* Sweeps: the points of the sweep iterators, iterations over them, and stepped simulations (SimStepper). *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL SX == INSTANCE SequencesExt
LOCAL Min2(a, b) == IF a < b THEN a ELSE b
LOCAL Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

(* ---- points ----
   lin:  from a to b by c, in units of 1/d; downwards when asked for by a negative step or by limits in that order
   num:  n points from a to b, in units of 1/(d*(n-1))
   log:  by a constant ratio; positions are halves of the exponent of that ratio relative to the start, the stop is at
         2*m+h halves above the start (up) or below it (~up); inv: the ratio is given as its inverse
   logn: n points from a to b, position i is the i-th *)
LinPoints(o) ==
  LET down == o.c < 0 \/ o.b < o.a
      first == IF down THEN Max2(o.a, o.b) ELSE Min2(o.a, o.b)
      s == Abs(o.c)
      n == Abs(o.b - o.a) \div s
  IN  [i \in 1..(n + 1) |-> IF down THEN first - (i - 1) * s ELSE first + (i - 1) * s]
NumPoints(o) == IF o.n = 1 THEN <<o.a>> ELSE [i \in 1..o.n |-> o.a * (o.n - 1) + (i - 1) * (o.b - o.a)]
LogPoints(o) ==
  LET far == 2 * o.m + o.h IN
  IF o.up THEN IF o.inv /\ far > 0 THEN [i \in 1..(o.m + 1) |-> far - 2 * (i - 1)] ELSE [i \in 1..(o.m + 1) |-> 2 * (i - 1)]
  ELSE [i \in 1..(o.m + 1) |-> -2 * (i - 1)]
LogNPoints(o) == IF o.a = o.b THEN [i \in 1..o.n |-> 0] ELSE [i \in 1..o.n |-> i - 1]
Points(o) == CASE o.k = "lin" -> LinPoints(o) [] o.k = "num" -> NumPoints(o) [] o.k = "log" -> LogPoints(o) [] o.k = "logn" -> LogNPoints(o)

(* every iteration starts anew and is independent of others, also of those over the same sweep *)
Nested(p, q) == SX!FlattenSeq([i \in 1..Len(p) |-> [j \in 1..Len(q) |-> <<p[i], q[j]>>]])

(* ---- stepped simulations ----
   a setting is [kind, e, v]; the state is what is set in the circuit (at: function of names), the dimensions of the sweep
   in the order they were added, and the simulations made so far (each with what was set by then) *)
RECURSIVE Product(_)
Product(dims) == IF dims = <<>> THEN << <<>> >>
                 ELSE LET r == Product(Tail(dims)) vs == Head(dims).vals
                      IN  SX!FlattenSeq([i \in 1..Len(vs) |-> [j \in 1..Len(r) |-> <<vs[i]>> \o r[j]]])
Total(dims) == IF dims = <<>> THEN 1 ELSE Len(Product(dims))
Put(at, e, v) == [x \in DOMAIN at \cup {e} |-> IF x = e THEN v ELSE at[x]]
RECURSIVE PutAll(_, _, _)
PutAll(at, dims, combo) == IF dims = <<>> THEN at ELSE PutAll(Put(at, Head(dims).e, Head(combo)), Tail(dims), Tail(combo))
Runs(at, dims) == LET P == Product(dims) IN [i \in 1..Len(P) |-> PutAll(at, dims, P[i])]
(* the circuit keeps the values set last: the last value of each dimension tried, however far the combinations went *)
RECURSIVE Left(_, _)
Left(at, dims) == IF dims = <<>> \/ Head(dims).vals = <<>> THEN at
                  ELSE Left(Put(at, Head(dims).e, SX!Last(Head(dims).vals)), Tail(dims))
=============================================================================

---------------------------- MODULE SweepGen ----------------------------
(* Behaviours: iterations over sweeps (Mode "iter") and stepped simulations (Mode "step"). *)
EXTENDS Sweep, TLC, Json, Randomization
CONSTANTS Depth, Mode
VARIABLES objs, its, h, dims, at
vars == <<objs, its, h, dims, at>>
R(S) == {RandomElement(S)}
Lin(d, a, b, c, one) == [k |-> "lin", d |-> d, a |-> IF one THEN 0 ELSE a, b |-> b, c |-> IF one THEN d ELSE c, one |-> one]
MkLin == \E d \in R({1, 1, 2, 3, 5, 10, 10, 100, 1000, 7}), a \in R(-40..60), w \in R(-30..30), c \in R({1, 2, 3, 5, 7, 10, 11}), s \in R({1, 1, -1}), one \in R({FALSE, FALSE, TRUE}), x \in R(BOOLEAN), z \in R({0, 0, 0, 1, 2}) :
           objs' = Append(objs, Lin(d, IF z = 2 THEN 0 ELSE a, IF z = 1 /\ ~one THEN 0 ELSE IF one THEN (IF d = 1 THEN w ELSE d * (w \div 3)) ELSE IF x THEN a + (w \div c) * c ELSE a + w, s * c, one))
MkNum == \E d \in R({1, 2, 10, 10, 3, 100, 7}), a \in R(-20..30), w \in R(-30..30), n \in R(1..12) :
           objs' = Append(objs, [k |-> "num", d |-> d, a |-> a, b |-> a + w, n |-> n])
MkLog == \E s \in R(1..8), r \in R(1..7), m \in R(0..6), hh \in R({0, 0, 1}), up \in R(BOOLEAN), inv \in R({FALSE, FALSE, TRUE}), one \in R({FALSE, FALSE, TRUE}) :
           objs' = Append(objs, [k |-> "log", s |-> IF one THEN 0 ELSE s, r |-> r, m |-> m, h |-> hh, up |-> up, inv |-> inv, one |-> one])
MkLogN == \E a \in R(1..9), b \in R(1..9), n \in R(1..12) : objs' = Append(objs, [k |-> "logn", a |-> a, b |-> b, n |-> n])
Op(o) == h' = Append(h, o)
InitIter == objs = <<>> /\ its = <<>> /\ h = <<>> /\ dims = <<>> /\ at = [x \in {} |-> 0]
Make == Len(objs) < 2 /\ (MkLin \/ MkNum \/ MkLog \/ MkLogN) /\ UNCHANGED <<its, h, dims, at>>
Ready == Len(objs) = 2 /\ Len(h) < Depth
DoList == Ready /\ \E o \in R(1..2), how \in R({"list", "tuple", "star", "in"}) : Op([op |-> "list", o |-> o, how |-> how]) /\ UNCHANGED <<objs, its, dims, at>>
DoOpen == Ready /\ Len(its) < 4 /\ \E o \in R(1..2) : Op([op |-> "open", o |-> o]) /\ its' = Append(its, o) /\ UNCHANGED <<objs, dims, at>>
DoNext == Ready /\ its # <<>> /\ \E i \in R(1..Len(its)), n \in R(1..4) : Op([op |-> "next", i |-> i, n |-> n]) /\ UNCHANGED <<objs, its, dims, at>>
DoNested == Ready /\ \E o \in R(1..2), p \in R(1..2) : Len(Points(objs[o])) * Len(Points(objs[p])) <= 200 /\ Op([op |-> "nested", o |-> o, p |-> p]) /\ UNCHANGED <<objs, its, dims, at>>
NextIter == Make \/ DoList \/ DoOpen \/ DoNext \/ DoNested
Full == Len(h) = Depth
EmitIter == (Mode = "iter" /\ Full) => PrintT(<<"BEH", ToJson([meta |-> [objs |-> objs], ops |-> h])>>)

(* ---- stepped simulations ---- *)
Elems == [param |-> {"p", "temp", "q_2"}, component |-> {"R1", "R2", "C1", "V1", "X2:R3"}, model |-> {"D1", "X1", "D2"}]
ValsOf(k) == IF k = "model" THEN 50..53 ELSE 1..8
DimOf(e) == {i \in 1..Len(dims) : dims[i].e = e}
Size == Total(dims)
DoSet == \E k \in R({"param", "component", "model"}), many \in R(BOOLEAN) : \E e \in R(Elems[k]), v \in R(ValsOf(k)) :
           Op([op |-> "set", kind |-> k, e |-> e, v |-> v, many |-> many]) /\ UNCHANGED <<dims>>
SeqOf(n, S, dup) == [i \in 1..n |-> RandomElement(S)]
DoDim == \E k \in R({"param", "component", "component", "model"}), n \in R({0, 1, 2, 2, 3, 3}), form \in R({"list", "tuple", "gen", "dict", "map", "sweep", "sweepn", "again"}) : \E e \in R(Elems[k]), a \in R(0..6) :
           LET again == form = "again" /\ dims # <<>> /\ dims[Len(dims)].kind = k
               vals == IF again THEN dims[Len(dims)].vals
                       ELSE IF form \in {"sweep", "sweepn"} /\ k # "model" /\ n > 0 THEN [i \in 1..n |-> 100 + a + i]
                       ELSE [i \in 1..n |-> ((a * 3 + i * (1 + (a % 2))) % (IF k = "model" THEN 4 ELSE 8)) + (IF k = "model" THEN 50 ELSE 1)]
               f == IF form = "again" /\ ~again THEN "list" ELSE IF form \in {"sweep", "sweepn"} /\ (k = "model" \/ n = 0) THEN "gen" ELSE form
           IN  IF Len(dims) < 4 /\ Size * Len(vals) <= 24 /\ (Len(vals) > 0 \/ a < 3) /\ (DimOf(e) = {} \/ a < 2)
               THEN dims' = Append(dims, [kind |-> k, e |-> e, vals |-> vals]) /\ Op([op |-> "dim", kind |-> k, e |-> e, vals |-> vals, form |-> f])
               ELSE Op([op |-> "total"]) /\ UNCHANGED <<dims>>
DoBad == \E k \in R({"component", "model"}), e \in R({"R99", "D77", "X7", "X2:R9"}) : Op([op |-> "bad", kind |-> k, e |-> e]) /\ UNCHANGED dims
DoTotal == Op([op |-> "total"]) /\ UNCHANGED dims
DoRun == \E named \in R(BOOLEAN), wait \in R({TRUE, TRUE, FALSE}), cb \in R(BOOLEAN), bad \in R({0, 1, 2, 3, 0}) :
           Op([op |-> "run", named |-> named, wait |-> wait, cb |-> cb, bad |-> bad]) /\ UNCHANGED dims
DoInfo == \E k \in R({"info", "export", "export"}) : Op([op |-> k]) /\ UNCHANGED dims
NextStep == Mode = "step" /\ Len(h) < Depth /\ (DoSet \/ DoDim \/ DoBad \/ DoTotal \/ DoRun \/ DoInfo) /\ UNCHANGED <<objs, its, at>>
Init == InitIter
Next == (Mode = "iter" /\ NextIter) \/ NextStep
EmitStep == (Mode = "step" /\ Full) => PrintT(<<"BEH", ToJson([meta |-> [x |-> 0], ops |-> h])>>)
=============================================================================

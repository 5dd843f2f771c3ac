------------------------------ MODULE NumberGen -----------------------------
(* Behaviours: texts read, compared and refused (Kind "read"); circuits whose places are given numbers and texts, which
   are read, passed on, saved and loaded (Kind "write"). *)
EXTENDS Number, Json, Randomization
CONSTANTS Depth, Kind
VARIABLES cfg, cont, h
vars == <<cfg, cont, h>>
R(S) == {RandomElement(S)}
IPs == {<<>>, <<0>>, <<1>>, <<4>>, <<7>>, <<1, 0>>, <<4, 7>>, <<2, 2, 0>>, <<0, 5>>, <<9, 9, 9>>, <<1, 0, 0, 0>>, <<4, 7, 0, 0>>, <<1, 2, 3, 4>>, <<1, 0, 0>>}
FPs == {<<>>, <<7>>, <<0>>, <<2, 5>>, <<0, 5>>, <<1, 2, 5>>, <<2>>, <<9, 9, 9>>}
Plain == Mus \ {"%", "mu1", "mu2"}
Mk(sg, ip, fp, k0, e, mu, un, sp) ==
  LET k == IF k0 \in {"infix", "r"} /\ (ip = <<>> \/ (k0 = "infix" /\ fp = <<>>)) THEN "mult" ELSE IF mu = "%" /\ k0 = "infix" THEN "mult" ELSE k0
      i == IF ip = <<>> /\ fp = <<>> THEN <<3>> ELSE ip
  IN  [sg |-> sg, ip |-> i, fp |-> fp, k |-> k, e |-> IF k = "exp" THEN e ELSE 0, mu |-> IF k \in {"mult", "infix"} THEN mu ELSE "k",
       un |-> IF k = "r" THEN "" ELSE IF k \in {"mult", "infix"} /\ mu = "%" THEN "" ELSE un, sp |-> sp]
Sgs == {"", "+", "-"}
(* one random text: with any unit and spacing, or one word of ordinary letters *)
Txt(word) == LET S == [sg : R(1..5), ip : R(IPs), fp : R(FPs), k : R({"plain", "exp", "mult", "infix", "r"}), e : R(-15..12), mu : R(IF word THEN (IF RandomElement(1..2) = 1 THEN Plain ELSE {"m", "M"}) ELSE Mus),
                       un : R(IF word THEN {"", "V", "F", "H", "Hz", "Ohm"} ELSE DOMAIN Signs \cup {"", "ohm1", "ohm2", "degC", "Ohm", "Vpk"}), z : R(1..3), sp : R(0..2)]
             IN  {Mk(IF x.sg = 1 THEN "-" ELSE IF x.sg = 2 /\ ~word THEN "+" ELSE "", x.ip, x.fp, x.k, x.e, x.mu, IF x.z = 1 THEN x.un ELSE "", IF word THEN 0 ELSE x.sp) : x \in S}
Nums == {0, 1, 5, 47, -33, 1234, 4700, 999999, 1234567, 99999951, 123456789, -1, 1000, 250, 999, 100000, -68, 12345}
Num == {Norm(x.m, x.e) : x \in [m : R(Nums), e : R(-20..9)]}
Kinds == {"int", "float", "np64", "npf", "npf32", "fu", "fuv"}
Strs == {1, 2, 3}          \* expressions in {}
Bare == {4, 5, 6, 7}       \* expressions without
Names == {11, 12, 13, 14, 15}
Wave == {21, 22}
StrFor(p) == IF p \in Models THEN Names ELSE IF p = "V1" THEN Strs \cup Wave ELSE IF p \in Params THEN Strs \cup (IF cfg.ed = "spice" \/ TRUE THEN Bare ELSE {}) ELSE Strs
AsTxt(t) == [k |-> "txt", t |-> t]
AsStr(i) == [k |-> "str", i |-> i]
Order == <<"R1", "C1", "V1", "D1", "D2", "p", "q", "X1:k", "X1:m">>
Here == {x \in {Order[i] : i \in 1..Len(Order)} : x \in Places(cfg.ed)}
Made == Kind = "read" \/ DOMAIN cont = Here
Init == \E ed \in {"spice", "asc", "qsch"} : cfg = [ed |-> ed, kind |-> Kind, init |-> <<>>] /\ cont = <<>> /\ h = <<>>
Make == /\ ~Made
        /\ LET p == Order[Cardinality(DOMAIN cont) + 1] IN
           \E t \in Txt(TRUE), s \in R(StrFor(p)), z \in R(1..4) :
             LET c == IF p \in Models \/ z = 1 THEN AsStr(s) ELSE AsTxt(t)
             IN  cont' = Put(cont, p, c) /\ cfg' = [cfg EXCEPT !.init = Append(@, [p |-> p, c |-> c])]
        /\ h' = h
Op(o) == h' = Append(h, o)
More == Made /\ Len(h) < Depth
Read == \E t \in Txt(FALSE), via \in R({"scan", "unit", "tofloat", "strict", "try"}) : Op([op |-> "read", t |-> t, via |-> via])
Bad == \E i \in R(0..25), via \in R({"scan", "unit", "tofloat", "strict", "try"}) : Op([op |-> "bad", i |-> i, via |-> via])
Cmp == \E a \in Txt(FALSE), b \in Txt(FALSE), z \in R(1..4), e \in R(-15..12), sp \in R(0..2), via \in R({"unit", "str", "float"}) :
         Op([op |-> "cmp", a |-> a, b |-> IF z = 1 THEN a ELSE IF z = 2 THEN [a EXCEPT !.ip = @ \o <<0>>] ELSE IF z = 3 THEN [a EXCEPT !.sg = IF @ = "-" THEN "" ELSE "-"] ELSE b, via |-> via])
Calc == \E a \in Txt(FALSE), k \in R(-3..9), via \in R({"mul", "rmul", "neg", "abs", "twice", "less"}) : Op([op |-> "calc", a |-> a, k |-> k, via |-> via])
Fmt == \E n \in Num, via \in R({"eng", "str"}) : Op([op |-> "fmt", n |-> n, via |-> via])
Fmt2 == \E t \in Txt(FALSE) : Op([op |-> "clean", t |-> t])
Fits(a, p) == IF p \in Models THEN a \in Models ELSE a \notin Models /\ (p = "V1" \/ ~(cont[a].k = "str" /\ cont[a].i \in Wave)) /\ (p \in Params \/ ~(cont[a].k = "str" /\ cont[a].i \in Bare))
              /\ (cont[a].k = "cx" => p \in Params \cup {"V1"})
Set == \E p \in R(Here), t \in Txt(TRUE), n \in Num, z \in R(1..5), nk \in R(Kinds), via \in R(1..4), re \in R(-9..2000), im \in R(1..2000) :
         \E s \in R(StrFor(p)) :
         LET c == IF p \in Models \/ z = 1 THEN AsStr(s) ELSE IF z = 2 THEN AsTxt(t)
                  ELSE IF z = 3 /\ p \in (Params \cup {"V1"}) THEN [k |-> "cx", re |-> re, im |-> IF via = 1 THEN -im ELSE im] ELSE [k |-> "num", n |-> n]
         IN  Op([op |-> "set", p |-> p, c |-> c, nk |-> nk, via |-> via]) /\ cont' = [cont EXCEPT ![p] = c]
(* a text close to the one that is there *)
Near == \E p \in R(Here \ Models), w \in R(1..6), nk \in R(Kinds), via \in R(1..4) :
          /\ cont[p].k = "txt"
          /\ LET t == cont[p].t
                 c == CASE w \in {1, 2, 6} /\ t.k \in {"mult", "infix"} -> AsTxt([t EXCEPT !.mu = CASE t.mu = "m" -> "M" [] t.mu = "M" -> "m" [] OTHER -> RandomElement({"m", "M"})])
                        [] w = 3 -> AsTxt([t EXCEPT !.ip = @ \o <<0>>])
                        [] w = 4 -> AsTxt([t EXCEPT !.sg = IF @ = "-" THEN "" ELSE "-"])
                        [] OTHER -> [k |-> "num", n |-> Denotes(t)]
             IN  Op([op |-> "set", p |-> p, c |-> c, nk |-> nk, via |-> via]) /\ cont' = [cont EXCEPT ![p] = c]
Copy == \E a \in R(Here), p \in R(Here), via \in R(1..4) : Fits(a, p) /\ Op([op |-> "copy", a |-> a, p |-> p, via |-> via]) /\ cont' = [cont EXCEPT ![p] = cont[a]]
CanScale(a) == a \notin Models /\ (cont[a].k = "txt" \/ (cont[a].k = "num" /\ Digits(Abs(cont[a].n[1])) <= 6))
Scale == \E a \in R({x \in Here \ (IF cfg.ed = "spice" THEN {} ELSE Params) : CanScale(x)} \cup {"R1"}), p \in R(Here \ Models), k \in R({2, 3, 5, 9, 10}) :
           CanScale(a) /\ Op([op |-> "scale", a |-> a, p |-> p, k |-> k])
           /\ cont' = [cont EXCEPT ![p] = [k |-> "num", n |-> Times(IF cont[a].k = "txt" THEN Denotes(cont[a].t) ELSE cont[a].n, k)]]
Get == \E p \in R(Here), via \in R({"text", "val", "float"}) : Op([op |-> "get", p |-> p, via |-> IF via = "float" /\ ((p \in Models) \/ cont[p].k = "cx") THEN "val" ELSE via]) /\ cont' = cont
Save == Op([op |-> "save"]) /\ cont' = cont
Load == Op([op |-> "load"]) /\ cont' = cont
NextRead == (Read \/ Bad \/ Cmp \/ Calc \/ Fmt \/ Fmt2) /\ UNCHANGED <<cfg, cont>>
NextWrite == (Set \/ Near \/ Copy \/ Scale \/ Get \/ (RandomElement(1..2) = 1 /\ Save) \/ (RandomElement(1..3) = 1 /\ Load)) /\ cfg' = cfg
Next == Make \/ (More /\ IF Kind = "read" THEN NextRead ELSE \E z \in R(1..2) : IF z = 1 THEN (Set \/ Near \/ Copy \/ Scale) /\ cfg' = cfg ELSE NextWrite)
Emit == Made /\ Len(h) = Depth => PrintT(<<"BEH", ToJson([meta |-> cfg, ops |-> h])>>)
=============================================================================

------------------------------ MODULE NumberMC ------------------------------
(* Reading a number character by character gives what the text denotes: the notation has one reading. *)
EXTENDS Number
CONSTANTS MaxI, MaxF, Ds
Es == {0, -3, 12}
VARIABLES t, in, st, dg, frac, ex, es, mu, un
vars == <<t, in, st, dg, frac, ex, es, mu, un>>
Dg(ds) == [i \in 1..Len(ds) |-> ToString(ds[i])]
Seqs(n) == UNION {[1..i -> Ds] : i \in 0..n}
Chars(m) == CASE m = "Meg" -> <<"M", "e", "g">> [] m = "MEG" -> <<"M", "E", "G">> [] m = "meg" -> <<"m", "e", "g">> [] m = "mEg" -> <<"m", "E", "g">>
              [] m = "Hz" -> <<"H", "z">> [] m = "" -> <<>> [] OTHER -> <<m>>
Sp(n) == [i \in 1..n |-> " "]
ExpChars(e) == IF e < 0 THEN <<"-", ToString(-e)>> ELSE <<ToString(e)>>
Render(x) == (IF x.sg = "" THEN <<>> ELSE <<x.sg>>) \o Dg(x.ip) \o
  (CASE x.k = "plain" -> (IF x.fp = <<>> THEN <<>> ELSE <<".">> \o Dg(x.fp)) \o Sp(x.sp)
     [] x.k = "exp" -> (IF x.fp = <<>> THEN <<>> ELSE <<".">> \o Dg(x.fp)) \o <<"e">> \o ExpChars(x.e) \o Sp(x.sp)
     [] x.k = "mult" -> (IF x.fp = <<>> THEN <<>> ELSE <<".">> \o Dg(x.fp)) \o Sp(x.sp) \o Chars(x.mu)
     [] x.k = "infix" -> Chars(x.mu) \o Dg(x.fp) \o Sp(x.sp)
     [] x.k = "r" -> <<"R">> \o Dg(x.fp) \o Sp(x.sp)) \o Chars(x.un)
Texts == {x \in [sg : {"", "-", "+"}, ip : Seqs(MaxI), fp : Seqs(MaxF), k : {"plain", "exp", "mult", "infix", "r"}, e : Es, mu : {"m", "M", "k", "meg", "Meg", "n"},
                 un : {"", "V", "F", "Hz"}, sp : 0..1] :
            /\ IsText(x) /\ (x.k # "exp" => x.e = 0) /\ (x.k \notin {"mult", "infix"} => x.mu = "k")}
Init == /\ t \in Texts /\ in = Render(t) /\ st = "int" /\ dg = <<>> /\ frac = 0 /\ ex = 0 /\ es = 1 /\ mu = 0 /\ un = <<>>
D == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "12"}   \* exponents are one token here
Num(c) == CHOOSE n \in 0..12 : ToString(n) = c
H == Head(in)
Starts(w) == Len(in) >= 3 /\ SubSeq(in, 1, 3) \in w
One == [c \in {"m"} |-> -3] @@ [c \in {"M"} |-> 6] @@ [c \in {"k"} |-> 3] @@ [c \in {"n"} |-> -9]
Take(n) == in' = SubSeq(in, n + 1, Len(in))
Sign == st = "int" /\ dg = <<>> /\ in # <<>> /\ H \in {"-", "+"} /\ Take(1) /\ es' = (IF H = "-" THEN -1 ELSE 1) /\ UNCHANGED <<t, st, dg, frac, ex, mu, un>>
Digit == st \in {"int", "frac", "after"} /\ in # <<>> /\ H \in D /\ dg' = Append(dg, Num(H)) /\ frac' = (IF st = "int" THEN frac ELSE frac + 1) /\ Take(1)
         /\ UNCHANGED <<t, st, ex, es, mu, un>>
Dot == st = "int" /\ in # <<>> /\ H = "." /\ st' = "frac" /\ Take(1) /\ UNCHANGED <<t, dg, frac, ex, es, mu, un>>
Exponent == st \in {"int", "frac"} /\ in # <<>> /\ H = "e" /\ st' = "unit"
            /\ (IF in[2] = "-" THEN ex' = -Num(in[3]) /\ Take(3) ELSE ex' = Num(in[2]) /\ Take(2)) /\ UNCHANGED <<t, dg, frac, es, mu, un>>
Space == in # <<>> /\ H = " " /\ Take(1) /\ st' = (IF st \in {"int", "frac"} THEN "gap" ELSE "unit") /\ UNCHANGED <<t, dg, frac, ex, es, mu, un>>
Mult == st \in {"int", "frac", "gap"} /\ in # <<>> /\ H \in (DOMAIN One \cup {"R"})
        /\ (IF Starts({<<"m", "e", "g">>, <<"M", "e", "g">>}) THEN mu' = 6 /\ Take(3) ELSE mu' = (IF H = "R" THEN 0 ELSE One[H]) /\ Take(1))
        /\ st' = (IF st = "int" THEN "after" ELSE "unit") /\ UNCHANGED <<t, dg, frac, ex, es, un>>
Unit == st # "done" /\ in # <<>> /\ H \in {"V", "F", "H", "z"} /\ un' = Append(un, H) /\ st' = "unit" /\ Take(1) /\ UNCHANGED <<t, dg, frac, ex, es, mu>>
End == st # "done" /\ in = <<>> /\ st' = "done" /\ UNCHANGED <<t, in, dg, frac, ex, es, mu, un>>
Next == Sign \/ Digit \/ Dot \/ Exponent \/ Space \/ Mult \/ Unit \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InvRead == st = "done" => Norm(es * DigitsVal(dg), ex + mu - frac) = Denotes(t)
InvUnit == st = "done" => un = Chars(t.un)
InvOne == Cardinality({a \in 1..8 : CASE a = 1 -> ENABLED Sign [] a = 2 -> ENABLED Digit [] a = 3 -> ENABLED Dot [] a = 4 -> ENABLED Exponent
                                     [] a = 5 -> ENABLED Space [] a = 6 -> ENABLED Mult [] a = 7 -> ENABLED Unit [] a = 8 -> ENABLED End}) <= 1
Reads == <>(st = "done")
(* writing with six digits stays within half a unit of the sixth digit, and keeps what needs no rounding *)
InvWrite == st = "done" => Denotes(t) \in Written(Denotes(t))
=============================================================================

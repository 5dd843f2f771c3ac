------------------------------- MODULE Number -------------------------------
(* Numbers in engineering notation and the places of a circuit that hold them. Values are exact decimals: <<m, e>> is
   m * 10^e, with no zero at the end of m. A text is what was written, in parts:
     sg sign, ip digits, fp more digits, k form, e exponent of ten, mu suffix (spelled as written), un unit, sp spaces
   forms: "plain" 12.5, "exp" 12.5e3, "mult" 12.5k, "infix" 12k5, "r" 12R5                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Norm(m \div 10, e + 1) ELSE <<m, e>>
RECURSIVE DigitsVal(_)
DigitsVal(ds) == IF ds = <<>> THEN 0 ELSE 10 * DigitsVal(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
(* the case of the letter matters for m (milli) and M (mega) only *)
MuOf == [x \in {"f"} |-> -15] @@ [x \in {"p", "P"} |-> -12] @@ [x \in {"n", "N"} |-> -9] @@ [x \in {"u", "U", "mu1", "mu2"} |-> -6]
        @@ [x \in {"m"} |-> -3] @@ [x \in {"%"} |-> -2] @@ [x \in {"k", "K"} |-> 3] @@ [x \in {"M", "Meg", "MEG", "meg", "mEg"} |-> 6]
        @@ [x \in {"g", "G"} |-> 9] @@ [x \in {"t", "T"} |-> 12]
Mus == DOMAIN MuOf
Signs == [x \in {"V", "A", "F", "H", "W", "C", "J", "s", "Hz"} |-> x]
UnitOf(t) == IF t.k = "r" \/ t.un \in {"ohm1", "ohm2"} THEN "ohm" ELSE IF t.un = "degC" THEN "degC" ELSE IF t.un \in DOMAIN Signs THEN Signs[t.un] ELSE ""
Shift(t) == CASE t.k = "exp" -> t.e [] t.k \in {"mult", "infix"} -> MuOf[t.mu] [] OTHER -> 0
Denotes(t) == LET m == DigitsVal(t.ip \o t.fp) IN Norm(IF t.sg = "-" THEN -m ELSE m, Shift(t) - Len(t.fp))
IsText(t) == Len(t.ip) + Len(t.fp) > 0 /\ (t.k \in {"infix", "r"} => t.ip # <<>>) /\ (t.k = "infix" => t.fp # <<>>)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Digits(_)
Digits(m) == IF m < 10 THEN 1 ELSE 1 + Digits(m \div 10)
(* n written with at least six significant digits *)
RoundTo(n, k) == LET d == Digits(Abs(n[1])) IN
  IF d <= k THEN {n} ELSE
  LET p == Pow10(d - k) q == Abs(n[1]) \div p r == Abs(n[1]) % p sg == IF n[1] < 0 THEN -1 ELSE 1
  IN  {Norm(sg * x, n[2] + d - k) : x \in (IF 2 * r <= p THEN {q} ELSE {}) \cup (IF 2 * r >= p THEN {q + 1} ELSE {})}
Written(n) == UNION {RoundTo(n, k) : k \in 6..9}
Times(n, k) == Norm(n[1] * k, n[2])
(* order of values *)
Less(a, b) ==
  LET sa == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
      sb == IF b[1] > 0 THEN 1 ELSE IF b[1] < 0 THEN -1 ELSE 0
      da == Digits(Abs(a[1])) db == Digits(Abs(b[1]))
      d == IF da > db THEN da ELSE db
      ma == Abs(a[1]) * Pow10(d - da) mb == Abs(b[1]) * Pow10(d - db)
      smaller(x, y) == x < y
      lessAbs == IF da + a[2] # db + b[2] THEN da + a[2] < db + b[2] ELSE ma < mb
      moreAbs == IF da + a[2] # db + b[2] THEN da + a[2] > db + b[2] ELSE ma > mb
  IN  IF sa # sb THEN sa < sb ELSE IF sa = 0 THEN FALSE ELSE IF sa > 0 THEN lessAbs ELSE moreAbs
(* ---- circuits: what every place holds -------------------------------------------------------------------------
   [k |-> "txt", t |-> text in parts]    a number as it was written
   [k |-> "num", n |-> value]            a number given as a number, written with six digits or more
   [k |-> "cx", re, im]                  a complex number
   [k |-> "str", i |-> index]            any other text (model names, expressions) from the list of the driver      *)
Values == {"R1", "C1", "V1"}
Models == {"D1", "D2"}
Inst == {"X1:k", "X1:m"}
Params == {"p", "q"}
Places(ed) == Values \cup Models \cup Params \cup (IF ed = "spice" THEN Inst ELSE {})
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
IsNumber(c) == c.k \in {"txt", "num"}
ValueSet(c) == IF c.k = "txt" THEN {Denotes(c.t)} ELSE Written(c.n)
=============================================================================

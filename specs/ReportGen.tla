---------------------------- MODULE ReportGen ----------------------------
(* Behaviours: one file of the kind asked for is made up, then asked about. *)
EXTENDS Report, TLC, Json, Randomization, SequencesExt
CONSTANTS Depth, Kind, MaxN
VARIABLES f, h
vars == <<f, h>>
R(S) == {RandomElement(S)}
Init == f = [n |-> -1] /\ h = <<>>
D(c, s, seed) == (((c * 7 + s * 5 + seed) * (s + c + 3)) % 61) - 30
VarNames == <<"a", "ton", "r2">>
MkVars(n, nv, seed) == IF n = 0 THEN <<>> ELSE [k \in 1..nv |-> [name |-> VarNames[k], vals |-> [s \in 1..n |-> IF k = 1 THEN s ELSE (seed \div (k * s + 1)) % 3]]]
SignalNames == <<"V(a)", "V(out)", "I(R1)">>
MkAna(step, sig, nh, seed) ==
  [step |-> step, signal |-> SignalNames[sig], nper |-> IF seed % 3 = 0 THEN -1 ELSE 1 + ((seed + step) % 50), dc |-> D(sig, step + 2, seed),
   phd |-> IF seed % 5 = 0 THEN -1 ELSE (seed * 7 + step) % 90, thd |-> (seed * 3 + step * 11 + sig) % 200,
   harm |-> [k \in 1..nh |-> <<k, k * (1 + (seed % 9)), 1 + ((seed + k * 3) % 40), 1 + ((seed * 5 + k) % 40), D(k, step + 3, seed), D(k + 2, step + 3, seed)>>]]
SetupFour ==
  /\ Kind = "four" /\ f.n = -1
  /\ \E n \in R(0..MaxN), nv \in R(1..3), ns \in R(1..3), nh \in R(1..9), twice \in R(BOOLEAN), seed \in R(1..2000), enc \in R({"utf_8", "utf_16_le", "cp1252"}), crlf \in R(BOOLEAN), head \in R(0..1) :
       f' = [n |-> n, enc |-> enc, crlf |-> crlf, head |-> head, seed |-> seed, vars |-> MkVars(n, nv, seed),
             ana |-> FlattenSeq([s \in 1..(IF n = 0 THEN 1 ELSE n) |->
               FlattenSeq([g \in 1..ns |-> LET st == IF n = 0 THEN -1 ELSE s - 1 IN
                 IF twice /\ g = 1 THEN <<MkAna(st, g, nh, seed), MkAna(st, g, nh, seed + 1)>> ELSE <<MkAna(st, g, nh, seed + g)>>])])]
  /\ UNCHANGED h
Heads == <<"time", "V(out)", "I(R1)", "V(n001,n002)">>
SetupText ==
  /\ Kind = "text" /\ f.n = -1
  /\ \E n \in R(0..MaxN), nv \in R(1..3), nc \in R(1..4), seed \in R(1..2000), ac \in R(BOOLEAN), enc \in R({"utf_8", "utf_16_le", "utf_16", "cp1252"}),
        crlf \in R({TRUE, FALSE, FALSE}), unit \in R({"", "", "m", "K", "e"}), word \in R({"Run", "Run", "Step"}) :
       f' = [n |-> n, enc |-> enc, crlf |-> crlf, seed |-> seed, unit |-> unit, word |-> word, vars |-> MkVars(n, nv, seed),
             heads |-> SubSeq(Heads, 1, nc), forms |-> [c \in 1..nc |-> IF ac /\ c > 1 THEN "db" ELSE "real"],
             rows |-> [r \in 1..(IF n = 0 THEN 1 ELSE n) |-> [i \in 1..(1 + ((seed + r) % 4)) |->
                        [c \in 1..nc |-> IF ac /\ c > 1 THEN <<D(c, i + 4 * r, seed), 2 * D(c + 5, i, seed)>> ELSE <<D(c, i + 4 * r, seed), 0>>]]]]
  /\ UNCHANGED h
Titles == <<"Diodes", "Bipolar Transistors", "MOSFET Transistors">>
Params == <<"Id", "Vd", "Req", "CAP", "Gmb">>
Letters == <<"d", "q", "m">>
MkBlock(s, b, nd, np, seed) ==
  [devs |-> [d \in 1..nd |-> Letters[s] \o ":m" \o ToString(d + 10 * b) \o ":1"],
   params |-> <<[name |-> "Model", vals |-> [d \in 1..nd |-> (seed + d) % 3]]>>
              \o [p \in 1..np |-> [name |-> Params[p], vals |-> [d \in 1..nd |-> D(p + d, s + b, seed)]]]]
SetupOp ==
  /\ Kind = "op" /\ f.n = -1
  /\ \E ns \in R(1..3), nb \in R(1..2), nd \in R(1..6), np \in R(1..5), seed \in R(1..2000), enc \in R({"utf_8", "utf_16_le"}), crlf \in R(BOOLEAN), again \in R(BOOLEAN),
        tail \in R(BOOLEAN), trail \in R({FALSE, FALSE, TRUE}) :
       f' = [n |-> 0, enc |-> enc, crlf |-> crlf, seed |-> seed, again |-> again, tail |-> tail, trail |-> trail,
             secs |-> [s \in 1..ns |-> [title |-> Titles[s], blocks |-> [b \in 1..(IF (seed + s) % 2 = 0 THEN nb ELSE 1) |-> MkBlock(s, b, ((nd + s + b) % 6) + 1, np, seed)]]]]
  /\ UNCHANGED h
Op(o) == h' = Append(h, o) /\ UNCHANGED f
Ready == f.n # -1 /\ Len(h) < Depth
DoFour == Kind = "four" /\ Ready /\ \E k \in R(1..3), s \in R(1..3) : Op([op |-> <<"signals", "analyses", "fexport">>[k], s |-> SignalNames[s]])
DoText == Kind = "text" /\ Ready /\ \E k \in R({"data", "reformat", "tool"} \cup (IF f.n > 0 THEN {"run", "var"} ELSE {})), x \in R(0..99) :
            Op([op |-> k, c |-> IF k = "data" THEN (x % Len(f.heads)) + 1 ELSE IF k = "var" THEN (x % Len(f.vars)) + 1 ELSE 1])
DoOp == Kind = "op" /\ Ready /\ Op([op |-> "points"])
Next == SetupFour \/ SetupText \/ SetupOp \/ DoFour \/ DoText \/ DoOp
Emit == (f.n # -1 /\ Len(h) = Depth) => PrintT(<<"BEH", ToJson([meta |-> f, ops |-> h])>>)
=============================================================================

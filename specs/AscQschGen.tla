------------------------------ MODULE AscQschGen ----------------------------
(* Random LTspice schematics and symbols to convert. *)
EXTENDS AscQsch, Json
CONSTANTS Depth
VARIABLES n, src, how
R(S) == {RandomElement(S)}
Pick(S) == RandomElement(S)
G == {16 * k : k \in -20..30}
P(z) == <<Pick(G), Pick(G)>>
Odd(z) == <<Pick(-90..90), Pick(-90..90)>>
S4(z) == <<4 * Pick(-12..12), 4 * Pick(-12..12)>>
Letters == {"R", "C", "L", "V", "M", "X", "Q"}
PN == <<"A", "B", "+", "-in", "Vdd">>
Perms(k) == {f \in [1..k -> 1..k] : \A i, j \in 1..k : i # j => f[i] # f[j]}
Sym(z) == LET k == Pick(1..4) o == Pick(Perms(k)) l == Pick(Letters) IN
  [typ |-> IF Pick(1..3) = 1 THEN l \o "N" ELSE l, letter |-> l, desc |-> Pick({"a part", "", "no: ~description"}), w0 |-> IF Pick(1..5) = 1 THEN <<0, 0>> ELSE S4(1), w3 |-> IF Pick(1..5) = 1 THEN <<0, 0>> ELSE S4(2),
   lines |-> [i \in 1..Pick(0..2) |-> <<Odd(i), Odd(i)>>], boxes |-> [i \in 1..Pick(0..2) |-> [k |-> Pick({"R", "C"}), p |-> Odd(i), q |-> Odd(i)]],
   pins |-> [i \in 1..k |-> [n |-> PN[Pick({i, i + 1})], p |-> S4(i), o |-> o[i]]], flip |-> Pick(1..2)]
Names == {"res", "my", "opamp2"}
Where(z) == LET S == Pick({{"here"}, {"here"}, {"one"}, {"two"}, {"one", "here"}, {"two", "here"}, {"one", "two"}, {"one", "two", "here"}}) IN [f \in S |-> Sym(f)]
Empty == [syms |-> [s \in Names |-> [f \in {} |-> 0]], comps |-> <<>>, wires |-> <<>>, flags |-> <<>>, texts |-> <<>>, lines |-> <<>>, boxes |-> <<>>]
Init == n = 0 /\ src = Empty /\ how = "func"
Symbols == n = 0 /\ src' = [src EXCEPT !.syms = [s \in Names |-> Where(s)]] /\ how' \in R({"func", "func", "relative", "main", "main out"})
V == {"1k", "4k7", "{x*2}", "BC547", "PULSE(0 1 1u 1n)", "AC 1 0"}
Refs == <<"R1", "R2", "M1", "X3", "V1", "Q7", "C5", "L2">>
Comp0 == \E s \in R(Names), p \in R(G), q \in R(G), rot \in R(0..7), v \in R(V) : Len(src.comps) < 6 /\ src' = [src EXCEPT !.comps = Append(@, [r |-> Refs[Len(src.comps) + 1], s |-> s, v |-> v, p |-> <<p, q>>, rot |-> rot])]
Ends == {src.wires[i][1] : i \in 1..Len(src.wires)} \cup {src.wires[i][2] : i \in 1..Len(src.wires)}
Wire == \E a \in {IF Ends # {} /\ Pick(1..3) > 1 THEN Pick(Ends) ELSE P(1)}, k \in R({16, 32, -48}), z \in R(1..2) : src' = [src EXCEPT !.wires = Append(@, <<a, IF z = 1 THEN <<a[1] + k, a[2]>> ELSE <<a[1], a[2] + k>>>>)]
Flag == \E nm \in R({"0", "in", "out", "Vcc", "N1"}), p \in {IF Ends # {} /\ Pick(1..4) > 1 THEN Pick(Ends) ELSE P(1)} : src' = [src EXCEPT !.flags = Append(@, [n |-> nm, p |-> p])]
Lines == <<".tran 1m", ".step param a 1 5 1", ".param x=3 y=5", "; not this", ".meas m MAX V(out)">>
Text == \E k \in R({1, 1, 2, 3}), note \in R({FALSE, FALSE, TRUE}), p \in {P(1)} : src' = [src EXCEPT !.texts = Append(@, [p |-> p, note |-> note, l |-> [i \in 1..k |-> Lines[Pick({1, 2, 3, 5})]]])]
Line == \E a \in {Odd(1)}, b \in {Odd(2)} : src' = [src EXCEPT !.lines = Append(@, <<a, b>>)]
Box == \E a \in {Odd(1)}, b \in {Odd(2)}, k \in R({"R", "C"}) : src' = [src EXCEPT !.boxes = Append(@, [k |-> k, p |-> a, q |-> b])]
Add == n > 0 /\ UNCHANGED how /\ \E z \in R(1..12) : (z < 5 /\ Comp0) \/ (z \in 5..7 /\ Wire) \/ (z = 8 /\ Flag) \/ (z \in 9..10 /\ Text) \/ (z = 11 /\ Line) \/ (z = 12 /\ Box)
Next == n < Depth /\ n' = n + 1 /\ (Symbols \/ Add)
Emit == n = Depth => PrintT(<<"BEH", ToJson([meta |-> src, ops |-> <<how>>])>>)
=============================================================================

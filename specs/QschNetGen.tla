------------------------------ MODULE QschNetGen ----------------------------
(* Random schematics, built step by step, and edits. *)
EXTENDS QschNet, Json
CONSTANTS Depth
VARIABLES st, sheets, first, h
R(S) == {RandomElement(S)}
Pick(S) == RandomElement(S)
VT == <<<<"1k">>, <<"4k7">>, <<"{x*2}">>, <<"BC547">>, <<"PULSE", "0", "1", "1~", "1n">>, <<"2N2222">>, <<"Td=10n", "Z0=50">>, <<"10">>>>
Order == <<"box2", "box", "main">>
Net == {"A", "B", "C", "out", "GND", "N01", "N03", "N05", "Vdd"}
Grid == (0..6) \X (0..6)
Empty == [c |-> <<>>, w |-> <<>>, n |-> <<>>, t |-> <<>>]
Init == st = [k |-> 1, n |-> 0, goal |-> 4] /\ sheets = [box2 |-> Empty, box |-> Empty, main |-> Empty] /\ first = <<>> /\ h = <<>>
Cur == Order[st.k]
S == sheets[Cur]
Put(x) == sheets' = [sheets EXCEPT ![Cur] = x] /\ UNCHANGED <<first, h>>
Tick == st' = [st EXCEPT !.n = @ + 1]
UsedBy(s, net) == {s.n[j].p : j \in {j \in 1..Len(s.n) : s.n[j].net = net}} \cup UNION {{s.w[j].p, s.w[j].q} : j \in {j \in 1..Len(s.w) : s.w[j].net = net}}
Free(s, p) == NamesAt(s, p) = {}
Near(p) == {q \in Grid : q # p /\ q[1] - p[1] \in -1..1 /\ q[2] - p[2] \in -1..1}
(* a wire goes on from one of the same net, or starts; or a label *)
Wires == /\ st.n < st.goal /\ Tick
         /\ \E net \in R(Net), p \in R(Grid), z \in R(1..4), j \in R(1..9) :
              LET U == UsedBy(S, net)
                  p1 == IF U # {} /\ z > 1 THEN Pick(U) ELSE p
                  Q == {q \in Near(p1) : Free(S, q)}
              IN  IF U = {} /\ ~Free(S, p1) THEN Put(S)
                  ELSE IF z = 2 /\ ~\E i \in 1..Len(S.n) : S.n[i].p = p1 THEN Put([S EXCEPT !.n = Append(@, [p |-> p1, net |-> net])])
                  ELSE IF Q = {} \/ (U # {} /\ p1 \notin U /\ ~Free(S, p1)) THEN Put(S)
                  ELSE \E q \in R(Q) : Put([S EXCEPT !.w = Append(@, [p |-> p1, q |-> q, net |-> net])])
Letters == [res |-> {"R"}, res1 |-> {"R", "A"}, cap |-> {"C"}, src |-> {"V"}, dio |-> {"D", "Z"}, vcvs |-> {"E"}, npn |-> {"Q", "T"}, npns |-> {"Q"}, lpnp |-> {"Q"}, nmos |-> {"M"},
            pmosb |-> {"M", "S"}, njf |-> {"J"}, pjf |-> {"J"}, nmf |-> {"Z"}, trafo |-> {"x"}, tline |-> {"T"}, gate |-> {"yen"}, box |-> {"X", "U"}]
Digit == <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12">>
PN == <<"tol", "m", "Rser", "temp">>
SomePars(z) == LET n == Pick({0, 0, 1, 2}) IN [i \in 1..n |-> IF Pick(1..5) = 1 THEN [n |-> "", v |-> "off"] ELSE [n |-> PN[Pick({2 * i - 1, 2 * i})], v |-> Pick({"1", "2k", "{a+b}"})]]
ValueOf(k) == CASE k = "src" -> VT[Pick({1, 5, 8})] [] k \in {"res", "res1", "cap", "vcvs", "trafo"} -> VT[Pick({1, 2, 3, 8})] [] k = "tline" -> VT[7] [] OTHER -> VT[Pick({4, 6})]
(* boxes only refer to the sheet below *)
Below == CASE Cur = "main" -> "box" [] Cur = "box" -> "box2" [] OTHER -> ""
Comps == /\ st.n >= st.goal /\ st.n < 2 * st.goal /\ Tick
         /\ \E k0 \in R(DOMAIN Kind), x \in R(-1..7), y \in R(-1..7), rot \in R(0..15), on \in R(1..7), lib \in R(1..6), z \in R(1..3) :
              LET k == IF Below # "" /\ z = 1 /\ Len(S.c) < 2 THEN "box" ELSE IF k0 = "box" /\ Below = "" THEN "res" ELSE k0 IN
              \E l \in R(Letters[k]) :
              Put([S EXCEPT !.c = Append(@, [r |-> l \o Digit[1 + Len(S.c)], l |-> l, k |-> k, v |-> IF k = "box" THEN <<Below>> ELSE IF k = "vcvs" /\ lib < 3 THEN VT[4] ELSE ValueOf(k), par |-> SomePars(x),
                                              x |-> x, y |-> y, rot |-> rot, on |-> on > 1,
                                              lib |-> IF k = "dio" /\ l = "D" THEN (IF lib < 3 THEN "model" ELSE IF lib = 3 THEN "" ELSE "Diode.txt")
                                                      ELSE IF k \in {"npn", "nmos", "njf"} THEN <<"Diode.txt", "NPN.txt", "nosuch.txt", "", "", "">>[lib] ELSE IF k = "vcvs" /\ lib < 3 THEN "subckt" ELSE "",
                                              nc |-> IF k = "gate" THEN Pick({{}, {3}, {2, 4}, {1}}) ELSE {}])])
Lines == <<".tran 1m", ".step param a 1 5 1", ".options reltol=1e-4", ".param x=3 y=5", "+ z=4", ".meas m MAX V(out)">>
SomeText(z) == LET n == Pick({1, 1, 2, 3}) IN [k |-> IF Pick(1..4) = 1 THEN "C" ELSE "D", l |-> [i \in 1..n |-> Lines[IF i = 1 THEN Pick({1, 2, 3, 4, 6}) ELSE Pick(1..6)]]]
Text == /\ st.n >= 2 * st.goal /\ st.n < 2 * st.goal + 2 /\ Tick /\ \E z \in R(1..2) : Put(IF z = 1 THEN S ELSE [S EXCEPT !.t = Append(@, SomeText(z))])
NextSheet == /\ st.n = 2 * st.goal + 2
             /\ st' = [st EXCEPT !.k = @ + 1, !.n = 0, !.goal = IF st.k = 2 THEN 9 ELSE IF st.k = 3 THEN -2 ELSE 5]
             /\ first' = (IF st.k = 3 THEN sheets ELSE <<>>) /\ UNCHANGED <<sheets, h>>
(* ---------------------------------------------------------------- edits *)
More == st.k = 4 /\ Len(h) < Depth
(* the instances of a sheet share it: edits go through the only one *)
OneBox(s) == Cardinality({j \in 1..Len(s.c) : s.c[j].k = "box"}) = 1
BoxRef(s) == s.c[CHOOSE j \in 1..Len(s.c) : s.c[j].k = "box"].r
Reach == {<<"main", "">>} \cup (IF OneBox(sheets.main) THEN {<<"box", BoxRef(sheets.main) \o ":">>} \cup (IF OneBox(sheets.box) THEN {<<"box2", BoxRef(sheets.main) \o ":" \o BoxRef(sheets.box) \o ":">>} ELSE {}) ELSE {})
Op(o, k, x) == h' = Append(h, o) /\ sheets' = [sheets EXCEPT ![k] = x] /\ UNCHANGED <<st, first>>
Editable(s) == {c.r : c \in {s.c[j] : j \in {j \in 1..Len(s.c) : s.c[j].k # "box" /\ s.c[j].lib \notin {"model", "subckt"}}}}
Comp(s, r) == s.c[At(s, r)]
Dropable(s) == {s.c[j].r : j \in {j \in 1..Len(s.c) : s.c[j].k # "box"}}
Some(T) == IF T = {} THEN "none" ELSE Pick(T)
Where == IF Pick(1..2) = 1 THEN <<"main", "">> ELSE Pick(Reach)
Set == \E w \in {Where} : \E r \in {Some(Editable(sheets[w[1]]))} : r # "none" /\ \E v \in {ValueOf(Comp(sheets[w[1]], r).k)} :
         Op([op |-> "set", k |-> w[1], r |-> r, ref |-> w[2] \o r, v |-> v], w[1], SetVal(sheets[w[1]], r, v))
Par == \E w \in {Where} : \E r \in {Some(Editable(sheets[w[1]]))}, n \in R(1..4), v \in R({"7", "8k"}) : r # "none" /\
         Op([op |-> "par", k |-> w[1], r |-> r, ref |-> w[2] \o r, n |-> PN[n], v |-> v], w[1], SetPar(sheets[w[1]], r, PN[n], v))
DropC == \E w \in {Where} : \E r \in {Some(Dropable(sheets[w[1]]))} : r # "none" /\ Op([op |-> "drop", k |-> w[1], r |-> r, ref |-> w[2] \o r], w[1], Drop(sheets[w[1]], r))
Add == \E l \in R({".save V(out)", ".ic V(A)=1", ".four 1k V(B)"}) : Op([op |-> "add", l |-> l], "main", AddText(sheets.main, l))
Keep == \E o \in R({"again", "again", "save", "saveload"}) : Op([op |-> o], "main", sheets.main)
Next == Wires \/ Comps \/ Text \/ NextSheet \/ (More /\ \E z \in R(1..7) : (z < 3 /\ Set) \/ (z = 3 /\ Par) \/ (z = 4 /\ DropC) \/ (z = 5 /\ Add) \/ (z > 5 /\ Keep))
Emit == st.k = 4 /\ Len(h) = Depth => PrintT(<<"BEH", ToJson([meta |-> [sheets |-> first], ops |-> h])>>)
=============================================================================

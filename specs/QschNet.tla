------------------------------- MODULE QschNet ------------------------------
(* The netlist of a QSPICE schematic. A sheet has components with pins, wires and labels with the name of their net (on
   a grid), and texts. What is connected follows from the positions alone. A netlist has a line for each component that is
   enabled, with the net of each of its pins, its value and its parameters, the definitions of the sheets below, the
   instructions, and the libraries.                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* ---------------------------------------------------------------- geometry: rotations of 45 degrees, then mirrored *)
Quarter(p) == <<0 - p[2], p[1]>>
RECURSIVE Turn(_, _)
Turn(k, p) == IF k = 0 THEN p ELSE IF k = 1 THEN <<p[1] - p[2], p[1] + p[2]>> ELSE Quarter(Turn(k - 2, p))
Oriented(rot, p) == IF rot < 8 THEN Turn(rot, p) ELSE LET q == Turn(rot - 8, p) IN <<0 - q[1], q[2]>>
(* ---------------------------------------------------------------- kinds of components *)
Two == <<<<0, 2>>, <<0, -2>>>>
Three == <<<<1, 2>>, <<-1, 0>>, <<1, -2>>>>
Four == <<<<1, 2>>, <<-1, 0>>, <<1, -2>>, <<2, 0>>>>
Kind == [res |-> [typ |-> "R", sym |-> "R", pins |-> Two], res1 |-> [typ |-> "R", sym |-> "R1", pins |-> Two], cap |-> [typ |-> "C", sym |-> "C2", pins |-> Two],
         src |-> [typ |-> "V", sym |-> "V", pins |-> Two], dio |-> [typ |-> "D", sym |-> "Zener", pins |-> Two], vcvs |-> [typ |-> "E", sym |-> "E", pins |-> Four],
         npn |-> [typ |-> "QN", sym |-> "NPN", pins |-> Three], npns |-> [typ |-> "QN", sym |-> "NPNS", pins |-> Four],
         lpnp |-> [typ |-> "QP", sym |-> "LPNP", pins |-> Four], nmos |-> [typ |-> "MN", sym |-> "NMOS", pins |-> Three],
         pmosb |-> [typ |-> "MP", sym |-> "PMOSB", pins |-> Four], njf |-> [typ |-> "JN", sym |-> "PwrNJF", pins |-> Three],
         pjf |-> [typ |-> "JP", sym |-> "PJF", pins |-> Three], nmf |-> [typ |-> "ZN", sym |-> "NMF", pins |-> Three],
         trafo |-> [typ |-> "x", sym |-> "Transformer", pins |-> Four], tline |-> [typ |-> "T", sym |-> "T", pins |-> Four],
         gate |-> [typ |-> "yen", sym |-> "AND2", pins |-> Four], box |-> [typ |-> "X", sym |-> "", pins |-> Three]]
PinNames == <<"A", "B", "C">>                       \* of the boxes: the nets of the sheet below that they connect
(* ---------------------------------------------------------------- nets *)
PinAt(c, i) == LET q == Oriented(c.rot, Kind[c.k].pins[i]) IN <<c.x + q[1], c.y + q[2]>>
NamesAt(s, p) == {s.n[j].net : j \in {j \in 1..Len(s.n) : s.n[j].p = p}} \cup {s.w[j].net : j \in {j \in 1..Len(s.w) : s.w[j].p = p \/ s.w[j].q = p}}
Ground(n) == IF n = "GND" THEN "0" ELSE n
Named(s) == {Ground(s.n[j].net) : j \in 1..Len(s.n)} \cup {Ground(s.w[j].net) : j \in 1..Len(s.w)}
Known(s, p) == NamesAt(s, p) # {}
(* the pins of gates that are not used *)
Unused(c, i) == c.k = "gate" /\ i \in c.nc
Tok(t) == [k |-> "t", s |-> t, p |-> <<0, 0>>]
Port(s, c, i) == IF Unused(c, i) THEN Tok("yen") ELSE IF Known(s, PinAt(c, i)) THEN Tok(Ground(CHOOSE n \in NamesAt(s, PinAt(c, i)) : TRUE)) ELSE [k |-> "u", s |-> "", p |-> PinAt(c, i)]
Ports(s, c) == [i \in 1..Len(Kind[c.k].pins) |-> Port(s, c, i)]
Toks(q) == [i \in 1..Len(q) |-> Tok(q[i])]
(* ---------------------------------------------------------------- lines *)
Letter(c) == CASE Kind[c.k].typ \in {"QN", "QP"} -> "Q" [] Kind[c.k].typ \in {"MN", "MP"} -> "M" [] Kind[c.k].typ \in {"JN", "JP"} -> "J" [] Kind[c.k].typ = "ZN" -> "Z" [] OTHER -> Kind[c.k].typ
Ref(c) == IF c.l = Letter(c) THEN c.r ELSE Letter(c) \o "'" \o c.r
Embedded(c) == c.lib \in {"model", "subckt"}
Model(c) == IF Embedded(c) THEN <<Ref(c) \o "~" \o c.v[1]>> ELSE c.v
Params(c) == [i \in 1..Len(c.par) |-> IF c.par[i].n = "" THEN c.par[i].v ELSE c.par[i].n \o "=" \o c.par[i].v]
Line(s, c) ==
  LET P == Ports(s, c) m == Toks(Model(c)) sym == Kind[c.k].sym
      body == CASE c.k = "npns" -> SubSeq(P, 1, 3) \o <<Tok("["), P[4], Tok("]")>> \o m \o <<Tok("NPN")>>
                [] c.k = "lpnp" -> SubSeq(P, 1, 3) \o <<Tok("["), P[4], Tok("]")>> \o m \o <<Tok("PNP")>>
                [] c.k = "npn" -> P \o Toks(<<"[", "0", "]">>) \o m \o <<Tok("NPN")>>
                [] c.k = "nmos" -> P \o <<P[3]>> \o m \o <<Tok("NMOS")>>
                [] c.k = "pmosb" -> P \o m \o <<Tok("PMOS")>>
                [] c.k \in {"njf", "pjf"} -> P \o m \o <<Tok(IF c.k = "njf" THEN "NJF" ELSE "PJF")>>
                [] c.k = "nmf" -> P \o m \o <<Tok("NMF")>>
                [] c.k = "trafo" -> <<Tok("<<")>> \o P \o <<Tok(">>")>> \o m
                [] c.k = "gate" -> P \o [i \in 1..12 |-> Tok("yen")] \o m
                [] OTHER -> P \o m
  IN  <<Tok(Ref(c))>> \o body \o Toks(Params(c))
On(s) == {j \in 1..Len(s.c) : s.c[j].on}
EmbeddedText(c) == IF c.lib = "model" THEN ".model " \o Model(c)[1] \o " D(Is=1e-14)" ELSE ".subckt " \o Model(c)[1] \o " a b|R1 a b 1k|.ends " \o c.v[1]
Embeds(s) == {EmbeddedText(s.c[j]) : j \in {j \in On(s) : Embedded(s.c[j])}}
Libs(s) == {s.c[j].lib : j \in {j \in On(s) : s.c[j].lib # "" /\ ~Embedded(s.c[j])}}
Boxes(s) == {s.c[j].v[1] : j \in {j \in On(s) : s.c[j].k = "box"}}
RECURSIVE Texts(_)
Texts(ts) == IF ts = <<>> THEN <<>> ELSE (IF ts[1].k = "D" THEN ts[1].l ELSE <<>>) \o Texts(Tail(ts))
(* ---------------------------------------------------------------- what a netlist has to be *)
Matches(q, x) == Len(q) = Len(x) /\ \A i \in 1..Len(q) : q[i].k = "u" \/ q[i].s = x[i]
(* the lines of the netlist are those of the components, in some order *)
LinesOf(s, seen) == /\ Cardinality(On(s)) = Len(seen)
                    /\ \A j \in On(s) : \E i \in 1..Len(seen) : Matches(Line(s, s.c[j]), seen[i])
                    /\ \A i, j \in 1..Len(seen) : i # j => seen[i][1] # seen[j][1]
(* the names of nets without one: one for each position, and no other net has it *)
GivenTo(s, seen) == UNION {LET q == Line(s, s.c[j]) IN UNION {{<<q[n].p, seen[i][n]>> : n \in {n \in 1..Len(q) : q[n].k = "u"}} : i \in {i \in 1..Len(seen) : Matches(q, seen[i])}} : j \in On(s)}
Apart(s, seen) == LET G == GivenTo(s, seen) IN /\ \A a, b \in G : (a[1] = b[1]) = (a[2] = b[2])
                                               /\ \A a \in G : a[2] \notin Named(s) \cup {"0", "yen"}
RECURSIVE Wrong(_, _, _, _)
Wrong(sheets, k, f, top) ==
  LET s == sheets[k] IN
    (IF LinesOf(s, f.c) THEN {} ELSE {"lines"}) \cup (IF ~LinesOf(s, f.c) \/ Apart(s, f.c) THEN {} ELSE {"nets"})
    \cup (IF f.t = Texts(s.t) THEN {} ELSE {"instructions"})
    \cup (IF {f.lib[i] : i \in 1..Len(f.lib)} = Libs(s) /\ Len(f.lib) = Cardinality(Libs(s)) THEN {} ELSE {"libraries"})
    \cup (IF {f.emb[i] : i \in 1..Len(f.emb)} = Embeds(s) /\ Len(f.emb) = Cardinality(Embeds(s)) THEN {} ELSE {"embedded"})
    \cup (IF {f.sub[i].name : i \in 1..Len(f.sub)} = Boxes(s) /\ Len(f.sub) = Cardinality(Boxes(s)) THEN {} ELSE {"sheets"})
    \cup UNION {IF f.sub[i].name \in Boxes(s) THEN (IF f.sub[i].ports = PinNames THEN {} ELSE {"sheets"}) \cup Wrong(sheets, f.sub[i].name, f.sub[i].f, FALSE) ELSE {} : i \in 1..Len(f.sub)}
    \cup (IF f.ends = (IF top THEN 1 ELSE 0) THEN {} ELSE {"end"})
(* ---------------------------------------------------------------- edits *)
At(s, r) == CHOOSE j \in 1..Len(s.c) : s.c[j].r = r
Has(s, r) == \E j \in 1..Len(s.c) : s.c[j].r = r
SetVal(s, r, v) == [s EXCEPT !.c[At(s, r)].v = v]
SetPar(s, r, n, v) == LET j == At(s, r) q == s.c[j].par IN
                        [s EXCEPT !.c[j].par = IF \E i \in 1..Len(q) : q[i].n = n THEN [i \in 1..Len(q) |-> IF q[i].n = n THEN [n |-> n, v |-> v] ELSE q[i]] ELSE Append(q, [n |-> n, v |-> v])]
Drop(s, r) == [s EXCEPT !.c = SelectSeq(@, LAMBDA c : c.r # r)]
AddText(s, l) == [s EXCEPT !.t = Append(@, [k |-> "D", l |-> <<l>>])]
=============================================================================

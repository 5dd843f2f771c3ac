------------------------------- MODULE AscQsch ------------------------------
(* What a QSPICE schematic holds that was converted from an LTspice schematic. Lengths: 16 units of LTspice (with Y down)
   are 100 of QSPICE (with Y up); coordinates are cut towards zero.
   A source: components, wires, flags, texts, lines and boxes; the symbols are in the folders that are searched. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cut(n) == IF n < 0 THEN 0 - (((0 - n) * 25) \div 4) ELSE (n * 25) \div 4
At(p) == <<Cut(p[1]), Cut(0 - p[2])>>
(* R0 R90 R180 R270 and the same mirrored (from 4): Y points the other way, so the turns go the other way *)
TurnOf == <<0, 6, 4, 2, 8, 14, 12, 10>>
(* the pins in the order of the netlist *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : \A q \in S : p.o <= q.o IN <<p>> \o Sorted(S \ {p})
Pins(y) == LET s == Sorted({y.pins[i] : i \in 1..Len(y.pins)}) IN [i \in 1..Len(s) |-> <<s[i].n, At(s[i].p)>>]
Flat(q) == [i \in 1..Len(q) |-> <<At(q[i][1]), At(q[i][2])>>]
Kind(q, k) == LET s == SelectSeq(q, LAMBDA b : b.k = k) IN [i \in 1..Len(s) |-> <<At(s[i].p), At(s[i].q)>>]
(* the first folder that has the symbol: those that were given, in their order, and then the one of the schematic *)
Places == <<"one", "two", "here">>
FirstOf(sym) == CHOOSE k \in 1..3 : Places[k] \in DOMAIN sym /\ \A j \in 1..(k - 1) : Places[j] \notin DOMAIN sym
Used(syms, c) == LET s == syms[c.s] IN s[Places[FirstOf(s)]]
Symbol(y) == [typ |-> y.typ, name |-> y.letter, desc |-> y.desc, lines |-> Flat(y.lines), rects |-> Kind(y.boxes, "R"), ellipses |-> Kind(y.boxes, "C"), pins |-> Pins(y),
              texts |-> <<At(y.w0), At(y.w3)>>]
Comp(syms, c) == [r |-> c.r, v |-> c.v, p |-> At(c.p), rot |-> TurnOf[c.rot + 1], sym |-> Symbol(Used(syms, c))]
Comps(src) == [i \in 1..Len(src.comps) |-> Comp(src.syms, src.comps[i])]
Net(f) == <<f.n, At(f.p)>>
Nets(src) == [i \in 1..Len(src.flags) |-> Net(src.flags[i])]
Wires(src) == Flat(src.wires)
Texts(src) == [i \in 1..Len(src.texts) |-> [p |-> At(src.texts[i].p), l |-> src.texts[i].l, note |-> src.texts[i].note]]
(* the net of a wire: the label that is on one of the wires that it is joined to by its ends *)
RECURSIVE Joined(_, _)
Joined(ws, S) == LET N == {i \in 1..Len(ws) : \E j \in S : {ws[i][1], ws[i][2]} \cap {ws[j][1], ws[j][2]} # {}} IN IF N \subseteq S THEN S ELSE Joined(ws, S \cup N)
NamesOf(src, i) == {src.flags[k].n : k \in {k \in 1..Len(src.flags) : \E j \in Joined(src.wires, {i}) : src.flags[k].p \in {src.wires[j][1], src.wires[j][2]}}}
(* ---------------------------------------------------------------- judging a schematic that was read back *)
Bag(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
(* the first component with the symbol of this one *)
Twin(src, i) == CHOOSE j \in 1..i : src.comps[j].s = src.comps[i].s /\ \A k \in 1..(j - 1) : src.comps[k].s # src.comps[i].s
WrongComps(src, got) ==
  IF Len(got) # Len(src.comps) THEN {"components"}
  ELSE UNION {LET w == Comps(src)[i] g == got[i] t == src.comps[Twin(src, i)] IN
        (IF g.p # w.p THEN {"place"} ELSE {}) \cup (IF g.rot # w.rot THEN {"rotation"} ELSE {})
        \cup (IF g.sym.pins # w.sym.pins THEN {"pins"} ELSE {}) \cup (IF [g.sym EXCEPT !.pins = <<>>] # [w.sym EXCEPT !.pins = <<>>] THEN {"symbol"} ELSE {})
        \cup (IF g.r = w.r /\ g.v = w.v THEN {} ELSE IF g.r = t.r /\ g.v = t.v THEN {"twin"} ELSE {"texts of the component"})
      : i \in 1..Len(got)}
WrongTexts(src, got) ==
  IF Len(got) # Len(src.texts) THEN {"texts"}
  ELSE UNION {LET w == Texts(src)[i] g == got[i] IN
        (IF g.p # w.p \/ g.l # w.l THEN {"texts"} ELSE {}) \cup (IF g.note = w.note THEN {} ELSE IF w.note THEN {"note"} ELSE {"instruction"}) : i \in 1..Len(got)}
WrongWires(src, got) ==
  IF Bag([i \in 1..Len(got) |-> <<got[i].p, got[i].q>>]) # Bag(Wires(src)) THEN {"wires"}
  ELSE UNION {LET N == NamesOf(src, i) g == got[i].n IN IF N = {} \/ g \in N THEN {} ELSE IF g = "0" THEN {"wire0"} ELSE {"wire net"} : i \in 1..Len(got)}
Wrong(src, what, got) ==
  CASE what = "comps" -> WrongComps(src, got)
    [] what = "wires" -> WrongWires(src, got)
    [] what = "nets" -> (IF Bag(got) # Bag(Nets(src)) THEN {"labels"} ELSE {})
    [] what = "texts" -> WrongTexts(src, got)
    [] what = "drawing" -> (IF got # [lines |-> Flat(src.lines), rects |-> Kind(src.boxes, "R"), ellipses |-> Kind(src.boxes, "C")] THEN {"drawing"} ELSE {})
    [] what = "files" -> (IF got.source THEN {} ELSE {"source"}) \cup (IF got.only THEN {} ELSE {"files"})
    [] OTHER -> {"converted"}
=============================================================================

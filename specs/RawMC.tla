---------------------------- MODULE RawMC ----------------------------
(* How the data lies in the file, and how the lazy reader gets it: byte offsets and record sizes of both layouts, files
   with several plots, and reading in any order. The reader only ever adds to what it holds, and what it holds is what
   the file stores. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxVars, MaxPoints, MaxPlots, Header
VARIABLES plots, file, held, base, axis
vars == <<plots, file, held, base, axis>>
(* widths: bytes per value; the first variable may be wider *)
PlotKinds == [n : 1..MaxPoints, nv : 1..MaxVars, fast : BOOLEAN, w1 : {1, 2}, w : {1, 2}, ax : BOOLEAN]
Width(p, v) == IF v = 1 THEN p.w1 ELSE p.w
Cell(k, p, v, i) == [b \in 1..Width(p, v) |-> <<k, v, i, b>>]
Body(k, p) == IF p.fast THEN FlattenSeq([v \in 1..p.nv |-> FlattenSeq([i \in 1..p.n |-> Cell(k, p, v, i)])])
              ELSE FlattenSeq([i \in 1..p.n |-> FlattenSeq([v \in 1..p.nv |-> Cell(k, p, v, i)])])
Plot(k, p) == [b \in 1..Header |-> <<k, 0, 0, b>>] \o Body(k, p)
RECURSIVE SumW(_, _)
SumW(p, v) == IF v = 0 THEN 0 ELSE Width(p, v) + SumW(p, v - 1)
(* the positions of the bytes of value i of variable v, as the reader computes them *)
Pos(p, o, v, i) == IF p.fast THEN o + p.n * SumW(p, v - 1) + (i - 1) * Width(p, v)
                   ELSE o + (i - 1) * SumW(p, p.nv) + SumW(p, v - 1)
Read(p, o, v) == FlattenSeq([i \in 1..p.n |-> SubSeq(file, Pos(p, o, v, i) + 1, Pos(p, o, v, i) + Width(p, v))])
RECURSIVE Start(_, _)
Start(ps, k) == IF k = 1 THEN Header ELSE Start(ps, k - 1) + ps[k - 1].n * SumW(ps[k - 1], ps[k - 1].nv) + Header
Init == /\ \E m \in 1..MaxPlots : plots \in [1..m -> PlotKinds]
        /\ file = FlattenSeq([k \in 1..Len(plots) |-> Plot(k, plots[k])])
        /\ base = [k \in 1..Len(plots) |-> Start(plots, k)]
        /\ held = [k \in 1..Len(plots) |-> {}]
        /\ axis = [k \in 1..Len(plots) |-> <<>>]
(* asking for some traces reads them, and the axis with them the first time *)
Ask(k, vs) ==
  LET p == plots[k]
      new == (vs \ {h.v : h \in held[k]}) \ (IF p.ax THEN {1} ELSE {})
      ax == IF p.ax /\ axis[k] = <<>> THEN Read(p, base[k], 1) ELSE axis[k]
  IN /\ axis' = [axis EXCEPT ![k] = ax]
     /\ held' = [held EXCEPT ![k] = @ \cup {[v |-> v, d |-> Read(p, base[k], v)] : v \in new}]
     /\ UNCHANGED <<plots, file, base>>
DoAsk == \E k \in 1..Len(plots) : \E vs \in SUBSET (1..plots[k].nv) : Ask(k, vs)
Next == DoAsk
Spec == Init /\ [][Next]_vars
True(k, v) == FlattenSeq([i \in 1..plots[k].n |-> Cell(k, plots[k], v, i)])
InvHeld == \A k \in 1..Len(plots) : \A h \in held[k] : h.d = True(k, h.v)
InvOnce == \A k \in 1..Len(plots) : \A h, g \in held[k] : h.v = g.v => h = g
InvAxis == \A k \in 1..Len(plots) : axis[k] # <<>> => plots[k].ax /\ axis[k] = True(k, 1)
InvWith == \A k \in 1..Len(plots) : held[k] # {} /\ plots[k].ax => axis[k] # <<>>
Grows == [][\A k \in 1..Len(plots) : held[k] \subseteq held'[k] /\ (axis[k] # <<>> => axis'[k] = axis[k])]_vars
=============================================================================

---------------------------- MODULE RawWriteMC ----------------------------
(* Exhaustive over small axes: whatever the order of imports and saves, a file is sorted, holds no point that no source
   has and loses none before the end, and every trace keeps its values at its own points. *)
EXTENDS RawWrite
CONSTANTS MaxT, MaxOps
VARIABLES w, n, old
vars == <<w, n, old>>
(* axes from 0 to at most 2*MaxT with gaps of 2 or 4 *)
RECURSIVE Axes(_)
Axes(m) == IF m = 0 THEN {<<0>>} ELSE Axes(m - 1) \cup {Append(a, a[Len(a)] + g) : a \in {x \in Axes(m - 1) : Len(x) = m}, g \in {2, 4}}
Good == {a \in Axes(MaxT) : Len(a) >= 3}
Val(k, x) == 2 * ((k * x * x + 3 * x + k) % 7) - 6
File(a, k) == [kind |-> "tran", axis |-> TRUE, lens |-> <<Len(a)>>, stepped |-> FALSE, log |-> "yes", nal |-> 0,
               vals |-> <<a, [i \in 1..Len(a) |-> Val(k, a[i])]>>, pars |-> <<[a |-> 0, b |-> 0]>>]
Init == w = W0 /\ n = 0 /\ old = [ax |-> <<>>, tr |-> <<>>]
Do(s) == w' = s /\ n' = n + 1
DoAdd == n < MaxOps /\ \E a \in Good : \E o \in Add(w, "tran", IF w.kind = "" THEN a ELSE [i \in 1..Len(a) |-> Val(n, a[i])], n) :
           o.r = "ok" /\ Do(o.s) /\ UNCHANGED old
DoImport == n < MaxOps /\ \E a \in Good, al \in BOOLEAN : \E o \in Import(w, File(a, n), 0, <<2>>, 0, n, al) :
              o.r = "ok" /\ Len(o.s.ax) >= 2 /\ Do(o.s) /\ UNCHANGED old
DoSave == n < MaxOps /\ Len(w.tr) > 0 /\ Do(Save(w)) /\ old' = [ax |-> w.ax, tr |-> w.tr]
Next == DoAdd \/ DoImport \/ DoSave
Spec == Init /\ [][Next]_vars
ToSet(q) == {q[i] : i \in 1..Len(q)}
Increasing(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
InvSorted == Increasing(w.ax)
InvOwn == \A t \in ToSet(w.tr) : Len(t.ax) = Len(t.y) /\ Increasing(t.ax)
(* nothing lost before the end, nothing invented *)
InvUnion == \A i \in 1..Len(w.tr) : \A x \in ToSet(w.tr[i].ax) : x <= w.ax[Len(w.ax)] => x \in ToSet(w.ax)
InvValues == w.kind # "" /\ Len(w.tr) > 0 =>
  LET t == Saved(w) IN \A i \in 1..Len(w.tr) : \A j \in 1..Len(w.tr[i].ax) :
     \A k \in 1..Len(w.ax) : w.ax[k] = w.tr[i].ax[j] => t[i + 1].y[k] = w.tr[i].y[j]
(* saving twice saves the same *)
InvAgain == w.kind # "" => Saved(Save(w)) = Saved(w)
=============================================================================

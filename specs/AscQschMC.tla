------------------------------ MODULE AscQschMC -----------------------------
(* TLC shows that the coordinates, the turns and the order of the pins keep every (not mirrored) component joined to what it
   was joined to, and which of the symbols is used.                                                                         *)
EXTENDS AscQsch
CONSTANTS Side
VARIABLES pins, rot, pos, folders
vars == <<pins, rot, pos, folders>>
Grid == {16 * k : k \in (0 - Side)..Side}
Init == pins = <<>> /\ rot = 0 /\ pos = <<0, 0>> /\ folders = {}
AddPin == Len(pins) < 3 /\ folders = {} /\ \E x \in Grid, y \in {0, 16}, o \in 1..3 : (\A i \in 1..Len(pins) : pins[i].o # o) /\ pins' = Append(pins, [n |-> <<"A", "B", "C">>[Len(pins) + 1], p |-> <<x, y>>, o |-> o]) /\ UNCHANGED <<rot, pos, folders>>
Place == pins # <<>> /\ folders = {} /\ \E r \in 0..3, x \in Grid : rot' = r /\ pos' = <<x, 16>> /\ folders' \in (SUBSET {"one", "two", "here"}) \ {{}} /\ UNCHANGED pins
Next == AddPin \/ Place
Spec == Init /\ [][Next]_vars
(* LTspice: Y down, clockwise; QSPICE: Y up, counterclockwise by 45 degrees *)
RECURSIVE Lt(_, _)
Lt(k, p) == IF k = 0 THEN p ELSE LET q == Lt(k - 1, p) IN <<0 - q[2], q[1]>>
RECURSIVE Qs(_, _)
Qs(k, p) == IF k = 0 THEN p ELSE LET q == Qs(k - 2, p) IN <<0 - q[2], q[1]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
InvJoined == \A i \in 1..Len(pins) : Plus(At(pos), Qs(TurnOf[rot + 1], At(pins[i].p))) = At(Plus(pos, Lt(rot, pins[i].p)))
Names == {"A", "B", "C"}
InvOrder == LET P == Pins([pins |-> pins]) IN
  /\ Len(P) = Len(pins) /\ {P[i][1] : i \in 1..Len(P)} = {pins[i].n : i \in 1..Len(pins)}
  /\ \A i, j \in 1..Len(P) : i < j => (CHOOSE k \in 1..3 : \E m \in 1..Len(pins) : pins[m].n = P[i][1] /\ pins[m].o = k) < (CHOOSE k \in 1..3 : \E m \in 1..Len(pins) : pins[m].n = P[j][1] /\ pins[m].o = k)
InvFirst == folders # {} => LET k == FirstOf([f \in folders |-> f]) IN Places[k] \in folders /\ ("one" \in folders => k = 1) /\ (folders = {"here"} <=> k = 3)
=============================================================================

----------------------------- MODULE AscQschTrace ---------------------------
(* Validation of the schematics that the conversion wrote; every aspect is judged by itself. *)
EXTENDS AscQsch, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l
T == Traces[tid]
Wr(e) == IF e.k # e.got.k THEN {"converted"} ELSE Wrong(T.meta, e.k, e.got.x)
Init == tid \in 1..Len(Traces) /\ l = 1
Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] b == Wr(e) bad == b \cap Focus IN
     IF bad # {} THEN \A c \in bad : PrintT(<<"FAIL", tid, l, {c}>>) ELSE TRUE
  /\ l' = l + 1 /\ UNCHANGED tid
EndTrace == l = Len(T.ev) + 1 /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED tid
Next == Step \/ EndTrace
=============================================================================

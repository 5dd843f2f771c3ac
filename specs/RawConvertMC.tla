--------------------------- MODULE RawConvertMC ----------------------------
(* The columns of a converted table: each trace once, the axis always, in the order of the questions, and only what exists. *)
EXTENDS Raw
CONSTANTS MaxAsk, MaxVars
VARIABLES p, ask
Init == \E nv \in 2..MaxVars, ax \in BOOLEAN : p = [axis |-> ax, vals |-> [v \in 1..nv |-> <<0>>], nal |-> 0] /\ ask = <<>>
Ask == Len(ask) < MaxAsk /\ \E v \in Names(p), form \in {"full", "bare", "unknown"} : ask' = Append(ask, [v |-> v, form |-> form]) /\ UNCHANGED p
Next == Ask
Spec == Init /\ [][Next]_<<p, ask>>
C == Converted(p, ask)
InvOnce == \A i, j \in 1..Len(C) : i # j => C[i] # C[j]
InvAxis == p.axis /\ ~Refused(p, ask) => \E i \in 1..Len(C) : C[i] = 1
InvAsked == ask # <<>> => \A i \in 1..Len(C) : (C[i] = 1 /\ p.axis) \/ \E k \in 1..Len(ask) : ask[k].form # "unknown" /\ (ask[k].v = C[i] \/ (C[i] = 3 /\ ask[k].v = 4))
InvAll == \A k \in 1..Len(ask) : ask[k].form = "full" => \E i \in 1..Len(C) : C[i] = ask[k].v
InvRefused == Refused(p, ask) <=> ask # <<>> /\ \A k \in 1..Len(ask) : ask[k].form = "unknown"
(* adding a question never moves what was there *)
Stable == [][~Refused(p, ask) /\ ask # <<>> => LET D == Converted(p, ask') IN
             IF p.axis /\ (\E i \in 1..Len(Found(p, ask')) : Found(p, ask')[i] = 1) # (\E i \in 1..Len(Found(p, ask)) : Found(p, ask)[i] = 1) THEN TRUE
             ELSE SubSeq(D, 1, Len(C)) = C]_<<p, ask>>
=============================================================================

----------------------------- MODULE SimulatorMC ----------------------------
(* Runs that are launched and started at different times while the user goes on adding and clearing switches: each is
   started with the words of the moment of its launch. And every switch of every simulator: automatic ones never give
   words, no answer has a placeholder, the command of a run can be told apart from that of other words.              *)
EXTENDS Simulator
CONSTANT MaxSw
VARIABLES r, mode, wait, done
vars == <<r, mode, wait, done>>
Init == \E s \in Sims : r = Runner(s, "long") /\ mode = "kiltpsa" /\ wait = {} /\ done = {}
Ids == 1..2
Id == Cardinality(wait) + Cardinality(done) + 1
Sw == {"-alt", "-x"}
Add == Len(r.sw) < MaxSw /\ \E w \in Sw, p \in {"", "f"} : r' = Added(r, w, p) /\ UNCHANGED <<mode, wait, done>>
Clear == r.sw # <<>> /\ r' = Cleared(r) /\ UNCHANGED <<mode, wait, done>>
Mode == wait = {} /\ r.sim = "ng" /\ mode' = (IF mode = "" THEN "kiltpsa" ELSE "") /\ UNCHANGED <<r, wait, done>>
Launch == Id \in Ids /\ \E own \in {<<>>, <<"-y">>} : wait' = wait \cup {[id |-> Id, sw |-> Taken(r, own), asked |-> [r |-> r.sw, own |-> own]]} /\ UNCHANGED <<r, mode, done>>
Start == \E w \in wait : done' = done \cup {[id |-> w.id, asked |-> w.asked, sw |-> w.sw, mode |-> mode]} /\ wait' = wait \ {w} /\ UNCHANGED <<r, mode>>
Next == Add \/ Clear \/ Mode \/ Launch \/ Start
Spec == Init /\ [][Next]_vars
Count(q, w) == Cardinality({i \in 1..Len(q) : q[i] = w})
Cmds(d) == Commands(r.sim, d.mode, d.sw)
InvOwn == \A d \in done : \A c \in Cmds(d) :
            IF d.asked.own # <<>> THEN Count(c, "-y") = 1 /\ Count(c, "-x") = 0 ELSE \A w \in Sw : Count(c, w) = Count(d.asked.r, w)
InvNet == \A d \in done : \A c \in Cmds(d) : Count(c, "NET") + Count(c, "Z:NET") = 1 /\ (r.sim = "ng" => Count(c, "-D") = (IF d.mode = "" THEN 0 ELSE 1))
InvApart == \A a, b \in done : (a.mode = b.mode /\ Cmds(a) \cap Cmds(b) # {}) => Taken([r EXCEPT !.sw = a.asked.r], a.asked.own) = Taken([r EXCEPT !.sw = b.asked.r], b.asked.own)
InvTable == (wait = {} /\ done = {}) => \A s \in Sims : \A n \in Names(s) : \A p \in Params :
              LET a == Answer(s, n, p) IN a.k = "ok" /\ (Table(s)[n].k = "auto" => a.q = <<>>) /\ (Table(s)[n].k = "flag" => Len(a.q) = 1) /\ Len(a.q) <= 2
=============================================================================

------------------------------- MODULE Update -------------------------------
(* The runner's bookkeeping under two threads at the granularity at which it can be preempted: a thread looks whether
   the task at its position has ended, and only then takes "the task at that position" out of the list.  With Locked
   the whole pass is one critical section.  TLC finds the lost and misplaced runs without the lock, none with it. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Tasks, Locked, Passes
VARIABLES active, ended, completed, th, lock, failed
vars == <<active, ended, completed, th, lock, failed>>
Threads == 1..2
Init == /\ active = [i \in 1..Tasks |-> i] /\ ended = {} /\ completed = <<>> /\ lock = 0 /\ failed = {}
        /\ th = [t \in Threads |-> [pc |-> "idle", i |-> 1, task |-> 0, left |-> Passes]]
End == \E k \in 1..Tasks : k \notin ended /\ ended' = ended \cup {k} /\ UNCHANGED <<active, completed, th, lock, failed>>
(* where a thread standing at position i of list a goes *)
At(t, a, i) == IF i <= Len(a) THEN [t EXCEPT !.pc = "look", !.i = i, !.task = a[i]]
               ELSE [t EXCEPT !.pc = "idle", !.i = 1, !.task = 0, !.left = @ - 1]
Begin(x) == /\ th[x].pc = "idle" /\ th[x].left > 0 /\ x \notin failed
            /\ (Locked => lock = 0)
            /\ th' = [th EXCEPT ![x] = At(@, active, 1)]
            /\ lock' = IF Locked /\ active # <<>> THEN x ELSE lock
            /\ UNCHANGED <<active, ended, completed, failed>>
Remove(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Look(x) ==
  LET t == th[x] IN
  /\ t.pc = "look"
  /\ IF t.task \notin ended
     THEN /\ th' = [th EXCEPT ![x] = At(t, active, t.i + 1)] /\ UNCHANGED <<active, completed, failed>>
     ELSE IF t.i > Len(active)
     THEN failed' = failed \cup {x} /\ th' = [th EXCEPT ![x].pc = "dead"] /\ UNCHANGED <<active, completed>>
     ELSE /\ completed' = Append(completed, active[t.i]) /\ active' = Remove(active, t.i)
          /\ th' = [th EXCEPT ![x] = At(t, Remove(active, t.i), t.i)] /\ UNCHANGED failed
  /\ lock' = IF Locked /\ th'[x].pc # "look" THEN 0 ELSE lock
  /\ UNCHANGED ended
DoBegin == \E x \in Threads : Begin(x)
DoLook == \E x \in Threads : Look(x)
Next == End \/ DoBegin \/ DoLook
Spec == Init /\ [][Next]_vars
SeqSet(q) == {q[i] : i \in 1..Len(q)}
OnlyEnded == SeqSet(completed) \subseteq ended
Once == Len(completed) = Cardinality(SeqSet(completed))
Kept == SeqSet(active) \cup SeqSet(completed) = 1..Tasks /\ SeqSet(active) \cap SeqSet(completed) = {}
NoFailure == failed = {}
=============================================================================

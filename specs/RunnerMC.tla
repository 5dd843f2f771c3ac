------------------------------ MODULE RunnerMC ------------------------------
(* Exhaustive exploration of the runner within small constants. *)
EXTENDS Runner, TLC
CONSTANTS MaxRuns, MaxPar, Cbs, Outs, MaxNow, WaitedOnly, Acts
VARIABLES s, last
vars == <<s, last>>

Init == \E p \in 1..MaxPar : s = S0(p, 3) /\ last = Rep("init")
Do(outs) == \E o \in outs : s' = o.s /\ last' = o.r
Idle == s.pend.k = "none"
Waits == IF WaitedOnly THEN {TRUE} ELSE BOOLEAN
Launch == Idle /\ Len(s.t) < MaxRuns
RunArg(w, cb, ce) == [src |-> "ed", wait |-> w, cb |-> cb, cberr |-> ce, tmo |-> 0, sw |-> <<>>]

DoRun   == "Run" \in Acts /\ Launch /\ \E w \in Waits, cb \in Cbs, ce \in BOOLEAN : Do(Run(s, RunArg(w, cb, ce)))
DoNow   == "Now" \in Acts /\ Launch /\ Do(RunNow(s, RunArg(FALSE, "fg", FALSE)))
DoRel   == "Rel" \in Acts /\ \E k \in Live(s), o \in Outs : Do(Release(s, k, o))
DoCbEnd == "CbEnd" \in Acts /\ \E k \in InCb(s), h \in {0, 1} : Do(CbEnd(s, k, h))
DoQuery == "Query" \in Acts /\ Idle /\ Do(Query(s))
DoWait  == "Wait" \in Acts /\ Idle /\ \E tm \in {NoTmo, 1} : Do(Wait(s, tm))
DoTick  == "Tick" \in Acts /\ s.now < MaxNow /\ s.pend.k # "none" /\ Do(Tick(s, 3))
DoINew  == "INew" \in Acts /\ Idle /\ Len(s.its) < 1 /\ Do(IterNew(s, [k |-> "all", c |-> <<>>], TRUE))
DoINext == "INext" \in Acts /\ Idle /\ \E i \in 1..Len(s.its) : Do(IterNext(s, i))
DoWRes  == "WRes" \in Acts /\ Idle /\ \E k \in Ids(s) : s.t[k].st # "never" /\ Do(WaitResult(s, k))
DoClean == "Clean" \in Acts /\ Idle /\ Do(Clean(s))

Next == DoRun \/ DoNow \/ DoRel \/ DoCbEnd \/ DoQuery \/ DoWait \/ DoTick \/ DoINew \/ DoINext \/ DoWRes \/ DoClean
Fair == WF_vars(DoRel) /\ WF_vars(DoCbEnd)
Spec == Init /\ [][Next]_vars /\ Fair

InvSlots    == SlotLimit(s, WaitedOnly)
InvOnce     == EachOnce(s)
InvAccount  == Accounted(s)
InvCallback == CallbackRule(s)
InvClean    == CleanRule(s)
InvIter     == IterRule(s)
(* a launch never blocks while a slot is free, a wait never blocks with nothing outstanding *)
InvBlocked  == last.k = "blocked" =>
                 CASE s.pend.k = "run" -> Cardinality(Active(s)) >= s.par
                   [] s.pend.k = "wait" -> Active(s) # {}
                   [] s.pend.k = "next" -> Active(s) # {} /\ ItemsOf(s, s.its[s.pend.i]) = {}
                   [] OTHER -> TRUE
(* when iteration ends, every successful completed run was delivered *)
InvExhaust  == last.k = "stop" => \A i \in 1..Len(s.its) : {k \in Done(s) : Rc0(s.t[k].out)} = s.its[i].seen
InvWaitTrue == last.k = "true" => Active(s) = {} /\ FailN(s) = 0
(* history: completed runs and their results never change or disappear *)
Monotone == [][/\ \A k \in Done(s) : k \in Done(s') /\ s'.t[k].out = s.t[k].out /\ s'.t[k].res = s.t[k].res
               /\ OkN(s') >= OkN(s) /\ FailN(s') >= FailN(s)]_vars
(* liveness: when simulations end, every outstanding call returns *)
Returns == (s.pend.k # "none") ~> (s.pend.k = "none")
=============================================================================

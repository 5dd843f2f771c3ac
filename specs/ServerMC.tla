------------------------------ MODULE ServerMC ------------------------------
(* Exhaustive exploration of the server within small constants. *)
EXTENDS Server, TLC
CONSTANTS MaxRuns, MaxClients, MaxPar, Outs, Acts
VARIABLES s, last
vars == <<s, last>>
Init == \E p \in 1..MaxPar : s = S0(p) /\ last = OkR
Do(outs) == \E o \in outs : s' = o.s /\ last' = o.r
Idle == s.up = "up" /\ s.pend.k = "none"
Others(c) == s.up = "up" /\ (s.pend.k = "none" \/ (s.pend.k = "next" /\ s.pend.c # c))
Room == Len(s.r) < MaxRuns
DoOpen   == "Open" \in Acts /\ Idle /\ Len(s.c) < MaxClients /\ Do(Open(s))
DoLaunch == "Launch" \in Acts /\ Room /\ \E c \in Clients(s) : Others(c)
              /\ (s.pend.k = "none" \/ Cardinality(Live(s)) < s.par) /\ Do(Launch(s, c, 0))
DoEnd    == "End" \in Acts /\ \E k \in Live(s), o \in Outs : Do(End(s, k, o))
DoNext   == "Next" \in Acts /\ Idle /\ \E c \in Clients(s) : s.c[c].st = "open" /\ Do(Next_(s, c))
DoFetch  == "Fetch" \in Acts /\ \E c \in Clients(s) : s.c[c].st = "open" /\ Others(c) /\ \E k \in s.c[c].stored : Do(Fetch(s, c, k))
DoClose  == "Close" \in Acts /\ \E c \in Clients(s) : Others(c) /\ Do(Close(s, c))
DoStop   == "Stop" \in Acts /\ Idle /\ s.c # <<>> /\ Do(Stop(s))
DoGiveUp == "GiveUp" \in Acts /\ s.pend.k = "launch" /\ Do(GiveUp(s))
Next == DoOpen \/ DoLaunch \/ DoEnd \/ DoNext \/ DoFetch \/ DoClose \/ DoStop \/ DoGiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(DoEnd)
InvSlots == SlotsOK(s)
InvOnce  == OnceOK(s)
InvCount == CountOK(s)
InvKept  == KeptOK(s)
InvGone  == GoneOK(s)
InvEnded == EndedOK(s)
InvBlock == BlockOK(s)
(* an iteration ends only when each of the client's runs was handed out *)
InvStop  == last.k = "stop" => \E c \in Clients(s) : s.c[c].started = {}
(* nothing that one session does changes what another session sees *)
Isolated == [][\A c \in Clients(s) : \A k \in StatusOf(s, c) :
                 s'.up = "up" /\ ~(k \in StatusOf(s', c)) => (k \notin s'.c[c].started \cup s'.c[c].stored \/ s'.c[c].st = "closed")]_vars
Returns == (s.pend.k # "none") ~> (s.pend.k = "none")
Drains  == (s.up = "down") ~> Ended(s)
=============================================================================

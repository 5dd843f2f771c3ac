----------------------------- MODULE ServerGen -----------------------------
(* Behaviours of the server specification, printed as scenarios for the real server and clients. *)
EXTENDS Server, TLC, Json, Randomization
CONSTANTS MaxRuns, MaxClients, Depth, Acts, Pars
VARIABLES s, h, meta
vars == <<s, h, meta>>
Init == /\ \E p \in Pars : s = S0(p) /\ meta = [par |-> p]
        /\ h = <<>>
Do(op, outs) == \E o \in outs : s' = o.s /\ h' = Append(h, op) /\ UNCHANGED meta
Idle == s.up = "up" /\ s.pend.k = "none"
Others(c) == s.up = "up" /\ (s.pend.k = "none" \/ (s.pend.k = "next" /\ s.pend.c # c))
Room == Len(s.r) < MaxRuns
Fits == s.pend.k = "none" \/ Cardinality(Live(s)) < s.par
DoOpen == "Open" \in Acts /\ Idle /\ Len(s.c) < MaxClients /\ Do([op |-> "open"], Open(s))
DoLaunch == "Launch" \in Acts /\ Room /\ Fits /\ \E c \in Clients(s) : s.c[c].st = "open" /\ Others(c) /\ \E ck \in 0..1 :
              Do([op |-> "launch", c |-> c, dep |-> 0, ck |-> ck], Launch(s, c, 0))
(* launches come in a row: the limit is reached *)
DoLaunch2 == "Launch2" \in Acts /\ Room /\ Fits /\ s.pend.k = "none" /\ Cardinality(Live(s)) <= s.par /\ \E c \in Clients(s) :
              s.c[c].st = "open" /\ \E x \in 1..3 : Do([op |-> "launch", c |-> c, dep |-> 0, ck |-> 0], Launch(s, c, 0))
DoLaunchD == "LaunchD" \in Acts /\ Room /\ Fits /\ \E c \in Clients(s) : s.c[c].st = "open" /\ Others(c) /\
              LET v == 1 + Len(h) IN Do([op |-> "launch", c |-> c, dep |-> v, ck |-> 0], Launch(s, c, v))
DoLaunchX == "LaunchX" \in Acts /\ \E c \in Clients(s) : s.c[c].st = "closed" /\ Others(c) /\
              Do([op |-> "launch", c |-> c, dep |-> 0, ck |-> 0], Launch(s, c, 0))
DoMissing == "Missing" \in Acts /\ \E c \in Clients(s) : s.c[c].st = "open" /\ Others(c) /\
              Do([op |-> "missing", c |-> c], LaunchMissing(s, c))
DoSources == "Sources" \in Acts /\ \E c \in Clients(s) : Others(c) /\
              LET v == 1 + Len(h) IN Do([op |-> "sources", c |-> c, dep |-> v], Sources(s, c, v))
DoEnd == "End" \in Acts /\ \E k \in Live(s), o \in Outcomes : Do([op |-> "end", k |-> k, o |-> o], End(s, k, o))
DoEndOk == "EndOk" \in Acts /\ \E k \in Live(s) : Do([op |-> "end", k |-> k, o |-> "ok"], End(s, k, "ok"))
(* the interleaving: 1, 2 = one look of the housekeeper / of the launching thread, 0 = the next run ends *)
Scheds == {q \in [1..8 -> 0..2] : TRUE}
DoRace == "Race" \in Acts /\ s.pend.k = "launch" /\ \E ks \in SUBSET Live(s) : ks # {} /\ \E n \in 0..9 :
            LET q == RandomElement(Scheds) IN
            Do([op |-> "race", ks |-> ks, sched |-> q, o |-> "ok"], EndMany(s, ks, "ok"))
DoGiveUp == "GiveUp" \in Acts /\ s.pend.k = "launch" /\ Do([op |-> "giveup"], GiveUp(s))
DoNext == "Next" \in Acts /\ Idle /\ \E c \in Clients(s) : s.c[c].st = "open" /\ Do([op |-> "next", c |-> c], Next_(s, c))
(* which stored run is fetched is chosen on the real client; here any *)
DoFetch == "Fetch" \in Acts /\ \E c \in Clients(s) : s.c[c].st = "open" /\ Others(c) /\ s.c[c].stored # {} /\ \E p \in 0..2 :
              Do([op |-> "fetch", c |-> c, pick |-> p], Fetch(s, c, CHOOSE k \in s.c[c].stored : TRUE))
DoFetchX == "FetchX" \in Acts /\ \E c \in Clients(s) : s.c[c].st = "open" /\ Others(c) /\ \E k \in 0..Len(s.r) :
              k \notin s.c[c].stored /\ Do([op |-> "fetchx", c |-> c, k |-> k], Fetch(s, c, k))
DoForeign == "Foreign" \in Acts /\ Free(s) /\ \E c \in Clients(s) : s.c[c].st = "open" /\ \E k \in Runs(s) :
              (s.r[k].own # c \/ s.r[k].st # "done") /\ Do([op |-> "foreign", c |-> c, k |-> k], Foreign(s, c, k))
DoUnknown == "Unknown" \in Acts /\ Free(s) /\ \E w \in {"run", "status", "files", "sources", "close"} :
              Do([op |-> "unknown", w |-> w], Unknown(s))
DoClose == "Close" \in Acts /\ \E c \in Clients(s) : Others(c) /\ Do([op |-> "close", c |-> c], Close(s, c))
DoStop == "Stop" \in Acts /\ Idle /\ Len(h) > Depth \div 2 /\ \E rpc \in BOOLEAN : Do([op |-> "stop", rpc |-> rpc], Stop(s))
Next == DoOpen \/ DoLaunch \/ DoLaunchD \/ DoLaunch2 \/ DoLaunchX \/ DoMissing \/ DoSources \/ DoEnd \/ DoEndOk \/ DoGiveUp \/ DoRace \/ DoNext
        \/ DoFetch \/ DoFetchX \/ DoForeign \/ DoUnknown \/ DoClose \/ DoStop
Final == Len(h) = Depth \/ (s.up = "down" /\ Live(s) = {})
Emit == Final => PrintT(<<"BEH", ToJson([meta |-> meta, ops |-> h])>>)
=============================================================================

------------------------------- MODULE Server -------------------------------
(* The simulation server and its clients.  Clients open sessions, launch runs, iterate over finished runs, fetch their
   results, close sessions; the server bounds the number of runs in progress, keeps what finished until it is fetched,
   and erases the files of every run that is fetched, whose session is closed, or that is left when it stops.

   s.r    sequence of accepted runs  [own: client, st: "run"|"done"|"gone", out: outcome or "", dep: version]
   s.c    sequence of clients        [st: "open"|"closed", started, stored: sets of run numbers, n: completed, dep]
   s.par  slots;  s.up "up"|"down";  s.pend the call that has not returned yet
   Every operation maps a state to a set of [s, r] (next state, reply). *)
EXTENDS Naturals, Sequences, FiniteSets

NoPend == [k |-> "none", c |-> 0]
S0(par) == [r |-> <<>>, c |-> <<>>, par |-> par, up |-> "up", pend |-> NoPend]
Reply(k, v) == [k |-> k, v |-> v]
OkR == Reply("ok", 0)

Runs(s) == 1..Len(s.r)
Clients(s) == 1..Len(s.c)
Live(s) == {k \in Runs(s) : s.r[k].st = "run"}
Kept(s) == {k \in Runs(s) : s.r[k].st = "done"}
OwnedBy(s, c) == {k \in Runs(s) : s.r[k].own = c}
StatusOf(s, c) == OwnedBy(s, c) \cap Kept(s)
(* files a simulation with this outcome leaves for its owner *)
Outputs(o) == CASE o = "ok" -> {"raw", "log"} [] o = "noraw" -> {"log"} [] o = "nolog" -> {"raw"}
                [] o \in {"fail", "failm"} -> {"fail"} [] OTHER -> {}
Outcomes == {"ok", "noraw", "nolog", "fail", "failm", "exc", "nothing"}

Free(s) == s.up = "up" /\ s.pend.k # "launch"     \* the server answers

Open(s) == {[s |-> [s EXCEPT !.c = Append(@, [st |-> "open", started |-> {}, stored |-> {}, n |-> 0, dep |-> 0])],
             r |-> Reply("client", Len(s.c) + 1)]}

Accept(s, c) ==   \* a run that got its slot
  LET k == Len(s.r) + 1 IN
  [s |-> [s EXCEPT !.r = Append(@, [own |-> c, st |-> "run", out |-> "", dep |-> s.c[c].dep]),
                   !.c[c].started = @ \cup {k}, !.pend = IF @.k = "launch" THEN NoPend ELSE @],
   r |-> Reply("run", k)]
Refused(s) == {[s |-> s, r |-> Reply("refused", 0)]}

(* dep = 0: no dependency sent with this run; otherwise the new version of the client's dependency *)
Launch(s, c, dep) ==
  IF s.c[c].st # "open" THEN Refused(s)
  ELSE LET s1 == IF dep = 0 THEN s ELSE [s EXCEPT !.c[c].dep = dep] IN
       IF Cardinality(Live(s1)) < s1.par THEN {Accept(s1, c)}
       ELSE {[s |-> [s1 EXCEPT !.pend = [k |-> "launch", c |-> c]], r |-> Reply("blocked", 0)]}
LaunchMissing(s, c) == Refused(s)       \* the circuit does not exist
Sources(s, c, dep) ==
  IF s.c[c].st # "open" THEN {[s |-> s, r |-> Reply("false", 0)]}
  ELSE {[s |-> [s EXCEPT !.c[c].dep = dep], r |-> Reply("true", 0)]}

(* what the iteration of client c can answer now *)
Yield(s, c) ==
  LET av == s.c[c].started \cap Kept(s) IN
  IF s.c[c].started = {} THEN {[s |-> [s EXCEPT !.pend = NoPend], r |-> Reply("stop", 0)]}
  ELSE IF av = {} THEN {[s |-> [s EXCEPT !.pend = [k |-> "next", c |-> c]], r |-> Reply("blocked", 0)]}
  ELSE {[s |-> [s EXCEPT !.c[c].started = @ \ {k}, !.c[c].stored = @ \cup {k}, !.pend = NoPend],
         r |-> Reply("run", k)] : k \in av}
Next_(s, c) == Yield(s, c)

(* the pending call looks at the state again *)
Resume(s) ==
  CASE s.pend.k = "none" -> {[s |-> s, r |-> Reply("idle", 0)]}
    [] s.pend.k = "next" -> Yield(s, s.pend.c)
    [] s.pend.k = "launch" -> IF Cardinality(Live(s)) < s.par THEN {Accept(s, s.pend.c)}
                              ELSE {[s |-> s, r |-> Reply("blocked", 0)]}

Closed(s, c) == s.c[c].st = "closed" \/ s.up = "down"
Finish(s, k, o) == [s EXCEPT !.r[k].st = IF Closed(s, s.r[k].own) THEN "gone" ELSE "done", !.r[k].out = o]
End(s, k, o) == Resume(Finish(s, k, o))
RECURSIVE FinishAll(_, _, _)
FinishAll(s, ks, o) == IF ks = {} THEN s ELSE LET k == CHOOSE x \in ks : TRUE IN FinishAll(Finish(s, k, o), ks \ {k}, o)
(* several runs end while both threads of the server look at the runner's lists *)
EndMany(s, ks, o) == Resume(FinishAll(s, ks, o))
GiveUp(s) ==      \* the time a launch may wait for a slot has passed
  {[s |-> [s EXCEPT !.pend = NoPend], r |-> Reply("refused", 0)]}

Fetch(s, c, k) ==
  IF k \notin s.c[c].stored THEN {[s |-> s, r |-> Reply("invalid", k)]}
  ELSE {[s |-> [s EXCEPT !.c[c].stored = @ \ {k}, !.c[c].n = @ + 1, !.r[k].st = "gone"],
         r |-> Reply(IF Outputs(s.r[k].out) = {} THEN "nofile" ELSE "zip", k)]}
(* asking for a run that is not this session's, or has not ended *)
Foreign(s, c, k) == {[s |-> s, r |-> Reply("nothing", 0)]}
(* the session is unknown to the server *)
Unknown(s) == {[s |-> s, r |-> Reply("refused", 0)]}
Close(s, c) ==
  IF s.c[c].st # "open" THEN {[s |-> s, r |-> Reply("false", 0)]}
  ELSE {[s |-> [s EXCEPT !.c[c].st = "closed",
                         !.r = [k \in Runs(s) |-> IF s.r[k].own = c /\ s.r[k].st = "done"
                                                  THEN [s.r[k] EXCEPT !.st = "gone"] ELSE s.r[k]]],
         r |-> Reply("true", 0)]}
Stop(s) == {[s |-> [s EXCEPT !.up = "down",
                             !.r = [k \in Runs(s) |-> IF s.r[k].st = "done" THEN [s.r[k] EXCEPT !.st = "gone"]
                                                      ELSE s.r[k]]],
             r |-> Reply("true", 0)]}
Ended(s) == s.up = "down" /\ Live(s) = {}     \* nothing of the server remains

-----------------------------------------------------------------------------
(* the guarantees, as invariants of the specification *)
SlotsOK(s) == Cardinality(Live(s)) <= s.par
OnceOK(s) == \A k \in Runs(s) : LET c == s.r[k].own IN
               \A d \in Clients(s) : k \in s.c[d].started \cup s.c[d].stored => d = c
CountOK(s) == \A c \in Clients(s) :
                /\ s.c[c].started \cap s.c[c].stored = {}
                /\ Cardinality(s.c[c].started) + Cardinality(s.c[c].stored) + s.c[c].n = Cardinality(OwnedBy(s, c))
KeptOK(s) == \A k \in Runs(s) : LET c == s.r[k].own IN   \* results wait for their owner
               s.c[c].st = "open" /\ s.up = "up" /\ k \in s.c[c].stored => s.r[k].st = "done"
GoneOK(s) == (s.up = "down" => Kept(s) = {}) /\
             \A c \in Clients(s) : s.c[c].st = "closed" => StatusOf(s, c) = {}
EndedOK(s) == Ended(s) => \A k \in Runs(s) : s.r[k].st = "gone"
BlockOK(s) == (s.pend.k = "launch" => Cardinality(Live(s)) >= s.par) /\
              (s.pend.k = "next" => s.c[s.pend.c].started \cap Kept(s) = {} /\ s.c[s.pend.c].started # {})
=============================================================================

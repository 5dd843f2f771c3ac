------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* The batch runner: launching, slot limit, completion bookkeeping,        *)
(* callbacks, result iteration, waiting, timeouts and clean-up.            *)
(*                                                                         *)
(* One abstract state record s; every public call and every environment    *)
(* step (a simulation ends, a callback ends, time passes) is an operator   *)
(* from a state to the SET of allowed [s |-> next, r |-> reply] outcomes.  *)
(* The same operators are used by the exhaustive model (RunnerMC), by the  *)
(* behaviour generator (RunnerGen) and by trace validation (RunnerTrace).  *)
(*                                                                         *)
(* At most one call of the user's thread is outstanding (s.pend): a launch *)
(* waiting for a slot, a synchronous launch, a wait for completion, a wait *)
(* for one result, or a step of a result iterator.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoTmo == -1                      \* "no timeout"
Slack == 2                       \* tolerated lateness of a resource timeout
NoPend == [k |-> "none"]

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE UnionSeq(_)
UnionSeq(q) == IF q = <<>> THEN {} ELSE Head(q) \cup UnionSeq(Tail(q))

S0(par, tmo) ==
  [par |-> par, tmo |-> tmo, now |-> 0, t |-> <<>>, done |-> <<>>,
   pend |-> NoPend, its |-> <<>>, ed |-> <<0, 0>>, edk |-> {}, sw |-> <<>>,
   cleaned |-> {}]

Ids(s)      == 1..Len(s.t)
Active(s)   == {k \in Ids(s) : s.t[k].st \in {"sim", "cb", "dead"} /\ ~s.t[k].mv /\ ~s.t[k].fg}
Busy(s)     == {k \in Ids(s) : s.t[k].st \in {"sim", "cb"}}
Live(s)     == {k \in Ids(s) : s.t[k].st = "sim"}
InCb(s)     == {k \in Ids(s) : s.t[k].st = "cb"}
Done(s)     == UnionSeq(s.done)
Rc0(o)      == o \in {"ok", "noraw", "nolog"}
OkN(s)      == Cardinality({k \in Done(s) : Rc0(s.t[k].out)})
FailN(s)    == Cardinality({k \in Done(s) : ~Rc0(s.t[k].out)})

(* Bookkeeping: finished runs are moved to the completed list, as one batch *)
Update(s) ==
  LET D == {k \in Active(s) : s.t[k].st = "dead"}
  IN IF D = {} THEN s
     ELSE [s EXCEPT !.t = [k \in Ids(s) |-> IF k \in D THEN [s.t[k] EXCEPT !.mv = TRUE] ELSE s.t[k]],
                    !.done = Append(@, D)]

None  == [k |-> "none", v |-> 0]
Res(s, k) ==
  LET t == s.t[k] IN
  IF t.st # "dead" THEN None
  ELSE IF t.cb \in {"none", "fg"} THEN (IF Rc0(t.out) THEN [k |-> "files", v |-> k] ELSE [k |-> "nofiles", v |-> k])
  ELSE t.res

Begin(s, k) == [s EXCEPT !.t[k].st = "sim", !.t[k].start = s.now]

----------------------------------------------------------------------------
(* Iteration *)
Match(s, k, c) ==
  CASE c.k = "all" -> TRUE
    [] OTHER -> \A i \in 1..Len(c.c) : c.c[i].n \in s.t[k].edk /\ s.t[k].ed[c.c[i].n] \in {c.c[i].v[j] : j \in 1..Len(c.c[i].v)}
Cand(s, it, B) == {k \in B : k \notin it.seen /\ Rc0(s.t[k].out) /\ Match(s, k, it.c)}
ItemsOf(s, it) ==
  LET ix == {b \in 1..Len(s.done) : Cand(s, it, s.done[b]) # {}}
  IN IF ix = {} THEN {} ELSE Cand(s, it, s.done[CHOOSE b \in ix : \A x \in ix : b <= x])

MaxStop(s) ==   \* latest moment at which an active run may still legitimately be running; NoTmo if unlimited
  LET A == {k \in Active(s) : s.t[k].tmo # NoTmo} IN
  IF A = {} THEN NoTmo ELSE Max({s.t[k].start + s.t[k].tmo : k \in A})

----------------------------------------------------------------------------
(* Progress of the outstanding call after any step: set of [s, r]; r = "blocked" means still waiting *)
Ret(s, r)  == [s |-> [s EXCEPT !.pend = NoPend], r |-> r]
Rep(k)     == [k |-> k, v |-> 0]
Blocked(s) == [s |-> s, r |-> Rep("blocked")]

Settle(s) ==
  LET p == s.pend IN
  CASE p.k = "none" -> {[s |-> s, r |-> Rep("idle")]}
    [] p.k = "run" ->
         LET u == Update(s) IN
         IF Cardinality(Active(u)) < u.par
         THEN {Ret(Begin(u, p.id), [k |-> "task", v |-> p.id])}
         ELSE LET el == u.now - p.t0
                  never == Ret([u EXCEPT !.t[p.id].st = "never"], Rep("none"))
              IN IF p.tmo = NoTmo \/ el <= p.tmo THEN {Blocked(u)}
                 ELSE IF el > p.tmo + Slack THEN {never} ELSE {Blocked(u), never}
    [] p.k = "now" ->
         IF s.t[p.id].st = "dead"
         THEN {Ret([s EXCEPT !.t[p.id].mv = TRUE, !.done = Append(@, {p.id})], Res(s, p.id))}
         ELSE {Blocked(s)}
    [] p.k = "wait" ->
         LET u  == Update(s)
             \* the countdown restarts whenever a simulation completes
             u2 == IF p.tmo # NoTmo /\ Cardinality(Active(u)) # p.n
                   THEN [u EXCEPT !.pend.t0 = u.now, !.pend.n = Cardinality(Active(u))] ELSE u
             stop == IF p.tmo # NoTmo THEN u2.pend.t0 + p.tmo ELSE MaxStop(u2)
         IN IF Active(u2) = {} THEN {Ret(u2, Rep(IF FailN(u2) = 0 THEN "true" ELSE "false"))}
            ELSE IF stop # NoTmo /\ u2.now > stop THEN {Ret(u2, Rep("false"))}
            ELSE {Blocked(u2)}
    [] p.k = "wres" ->
         IF s.t[p.id].st = "dead" THEN {Ret(s, Res(s, p.id))} ELSE {Blocked(s)}
    [] p.k = "next" ->
         LET u == Update(s)
             it == u.its[p.i]
             C == ItemsOf(u, it)
         IN IF C # {} THEN {Ret([u EXCEPT !.its[p.i].seen = @ \cup {k}],
                                IF it.legacy THEN Res(u, k) ELSE [k |-> "item", v |-> k]) : k \in C}
            ELSE IF Active(u) = {} THEN {Ret(u, Rep("stop"))}
            ELSE IF MaxStop(u) # NoTmo /\ u.now > MaxStop(u) THEN {Ret(u, Rep("timeout"))}
            ELSE {Blocked(u)}

----------------------------------------------------------------------------
(* Calls of the user's thread (s.pend = NoPend) *)
NewTask(s, a) ==
  [st |-> "wait", mv |-> FALSE, fg |-> a.cb = "fg", out |-> "none", cb |-> a.cb, cberr |-> a.cberr, cbn |-> 0,
   res |-> None, src |-> a.src, ed |-> IF a.src = "ed" THEN s.ed ELSE <<0, 0>>,
   edk |-> IF a.src = "ed" THEN s.edk ELSE {}, start |-> 0,
   tmo |-> IF a.tmo = 0 THEN s.tmo ELSE a.tmo, sw |-> IF a.sw = <<>> THEN s.sw ELSE a.sw]

(* a: [src, wait, cb, cberr, tmo (0 = the runner's), sw] *)
Run(s, a) ==
  IF a.cb = "bad" THEN {[s |-> s, r |-> Rep("rejected")]}
  ELSE LET n  == Len(s.t) + 1
           s1 == [s EXCEPT !.t = Append(@, NewTask(s, a))]
       IN IF ~a.wait THEN {Ret(Begin(s1, n), [k |-> "task", v |-> n])}
          ELSE Settle([s1 EXCEPT !.pend = [k |-> "run", id |-> n, t0 |-> s.now, tmo |-> s1.t[n].tmo]])
RunNow(s, a) ==
  LET n  == Len(s.t) + 1
      s1 == Begin([s EXCEPT !.t = Append(@, NewTask(s, a))], n)
  IN {Blocked([s1 EXCEPT !.pend = [k |-> "now", id |-> n]])}
Wait(s, tmo) ==
  LET u == Update(s) IN
  Settle([u EXCEPT !.pend = [k |-> "wait", t0 |-> s.now, tmo |-> tmo, n |-> Cardinality(Active(u))]])
IterNew(s, c, legacy) == {[s |-> [s EXCEPT !.its = Append(@, [c |-> c, seen |-> {}, legacy |-> legacy])], r |-> Rep("ok")]}
IterNext(s, i) == Settle([s EXCEPT !.pend = [k |-> "next", i |-> i]])
WaitResult(s, k) == Settle([s EXCEPT !.pend = [k |-> "wres", id |-> k]])
GetResult(s, k) == {[s |-> s, r |-> Res(s, k)]}
Query(s) == {[s |-> Update(s), r |-> Rep("ok")]}
Clean(s) == LET u == Update(s) IN {[s |-> [u EXCEPT !.cleaned = @ \cup Done(u)], r |-> Rep("ok")]}
Edit(s, n, v) == {[s |-> [s EXCEPT !.ed[n] = v, !.edk = @ \cup {n}], r |-> Rep("ok")]}
SwAdd(s, x) == {[s |-> [s EXCEPT !.sw = Append(@, x)], r |-> Rep("ok")]}
SwClr(s) == {[s |-> [s EXCEPT !.sw = <<>>], r |-> Rep("ok")]}

(* Environment steps *)
WantsCb(t, o) == t.cb \in {"fun", "obj", "proc"} /\ (t.cberr \/ o = "ok")
Release(s, k, o) ==
  LET t == s.t[k]
      s1 == IF WantsCb(t, o)
            THEN [s EXCEPT !.t[k].out = o, !.t[k].st = "cb", !.t[k].cbn = @ + 1]
            ELSE [s EXCEPT !.t[k].out = o, !.t[k].st = "dead"]
  IN Settle(s1)
(* how = 0: the callback raises; how > 0: it returns that value *)
CbEnd(s, k, how) ==
  Settle([s EXCEPT !.t[k].st = "dead", !.t[k].res = IF how = 0 THEN None ELSE [k |-> "cb", v |-> how]])
Tick(s, d) == Settle([s EXCEPT !.now = @ + d])

----------------------------------------------------------------------------
(* Properties of a state (checked by TLC on every reachable state, and on every state of a recorded run) *)
SlotLimit(s, waitedOnly) == waitedOnly => Cardinality({k \in Busy(s) : ~s.t[k].fg}) <= s.par
EachOnce(s) ==  \* every run sits in the completed list at most once, and is never both active and completed
  /\ \A i, j \in 1..Len(s.done) : i # j => s.done[i] \cap s.done[j] = {}
  /\ Done(s) \cap Active(s) = {}
Accounted(s) ==
  /\ OkN(s) + FailN(s) = Cardinality(Done(s))
  /\ Ids(s) = Active(s) \cup Done(s) \cup {k \in Ids(s) : s.t[k].st \in {"wait", "never"} \/ (s.t[k].fg /\ ~s.t[k].mv)}
  /\ \A k \in Done(s) : s.t[k].st = "dead"
CallbackRule(s) ==
  \A k \in Ids(s) : LET t == s.t[k] IN
     /\ t.cbn <= 1
     /\ (t.cbn = 1) => t.st \in {"cb", "dead"}
     /\ (t.st = "dead" /\ t.cb \in {"fun", "obj", "proc"}) => ((t.cbn = 1) <=> (t.cberr \/ t.out = "ok"))
     /\ (t.st \in {"wait", "sim", "never"}) => t.cbn = 0
CleanRule(s) == s.cleaned \subseteq Done(s)
IterRule(s) ==
  \A i \in 1..Len(s.its) : \A k \in s.its[i].seen : k \in Done(s) /\ Rc0(s.t[k].out) /\ Match(s, k, s.its[i].c)
=============================================================================

----------------------------- MODULE RunnerGen -----------------------------
(* Behaviours of the runner specification, printed as scenarios for the real code. *)
EXTENDS Runner, TLC, Json
CONSTANTS MaxRuns, Depth, Acts, Pars, Tmos
VARIABLES s, h, meta
vars == <<s, h, meta>>

Init == /\ \E p \in Pars, tm \in Tmos : /\ s = S0(p, IF tm = 0 THEN NoTmo ELSE tm) /\ meta = [par |-> p, tmo |-> IF tm = 0 THEN NoTmo ELSE tm]
        /\ h = <<>>
Do(op, outs) == \E o \in outs : s' = o.s /\ h' = Append(h, op) /\ UNCHANGED meta
Idle == s.pend.k = "none"
Launch == Idle /\ Len(s.t) < MaxRuns
Rec(op) == [op |-> op]

DoRun == "Run" \in Acts /\ Launch /\ \E w \in {TRUE, TRUE, FALSE}, src \in {"ed", "path"}, cb \in {"none", "fun", "obj", "bad"},
                      ce \in BOOLEAN, tm \in {0, 4}, x \in 0..2 :
           LET a == [src |-> src, wait |-> w, cb |-> cb, cberr |-> ce, tmo |-> tm,
                     sw |-> IF x = 2 THEN <<"-z">> ELSE <<>>]
           IN Do([op |-> "run", a |-> a, nm |-> x = 1], Run(s, a))
DoRun1 == "Run1" \in Acts /\ Launch /\ \E src \in {"ed", "path"}, cb \in {"none", "fun"}, ce \in BOOLEAN :
           LET a == [src |-> src, wait |-> TRUE, cb |-> cb, cberr |-> ce, tmo |-> 0, sw |-> <<>>]
           IN Do([op |-> "run", a |-> a, nm |-> FALSE], Run(s, a))
DoNow == "Now" \in Acts /\ Launch /\ \E src \in {"ed", "path"} :
           LET a == [src |-> src, wait |-> FALSE, cb |-> "fg", cberr |-> FALSE, tmo |-> 0, sw |-> <<>>]
           IN Do([op |-> "now", a |-> a, nm |-> FALSE], RunNow(s, a))
NotProc(k) == s.t[k].cb # "proc"
DoRel == "Rel" \in Acts /\ \E k \in {x \in Live(s) : NotProc(x)}, o \in {"ok", "noraw", "nolog", "fail", "fail2", "failm", "exc"} :
           Do([op |-> "rel", k |-> k, o |-> o], Release(s, k, o))
DoRelOk == "RelOk" \in Acts /\ \E k \in {x \in Live(s) : NotProc(x)} : Do([op |-> "rel", k |-> k, o |-> "ok"], Release(s, k, "ok"))
(* callbacks in a separate process are not gated: the end of the simulation and of the callback are one step *)
RelProc(k, o, hw) == LET m == CHOOSE x \in Release(s, k, o) : TRUE
                     IN IF m.s.t[k].st = "cb" THEN CbEnd(m.s, k, hw) ELSE Release(s, k, o)
DoRelP == "RelP" \in Acts /\ \E k \in {x \in Live(s) : ~NotProc(x)}, o \in {"ok", "ok", "fail", "noraw"}, hw \in {0, 1} :
           LET v == IF hw = 0 THEN 0 ELSE 100 + k IN Do([op |-> "relproc", k |-> k, o |-> o, how |-> v], RelProc(k, o, v))
DoRunP == "RunP" \in Acts /\ Launch /\ \E ce \in BOOLEAN :
           LET a == [src |-> "ed", wait |-> TRUE, cb |-> "proc", cberr |-> ce, tmo |-> 0, sw |-> <<>>]
           IN Do([op |-> "run", a |-> a, nm |-> FALSE], Run(s, a))
DoRunF == "RunF" \in Acts /\ Launch /\ \E cb \in {"fun", "obj"}, ce \in BOOLEAN :
           LET a == [src |-> "ed", wait |-> TRUE, cb |-> cb, cberr |-> ce, tmo |-> 0, sw |-> <<>>]
           IN Do([op |-> "run", a |-> a, nm |-> FALSE], Run(s, a))
DoCbEnd == "CbEnd" \in Acts /\ \E k \in InCb(s), hw \in {0, 1} :
           Do([op |-> "cbend", k |-> k, how |-> IF hw = 0 THEN 0 ELSE 100 + k], CbEnd(s, k, IF hw = 0 THEN 0 ELSE 100 + k))
DoQuery == "Query" \in Acts /\ Idle /\ Do(Rec("query"), Query(s))
DoWait == "Wait" \in Acts /\ Idle /\ \E tm \in {NoTmo, 3} : Do([op |-> "wait", tmo |-> tm], Wait(s, tm))
DoTick == "Tick" \in Acts /\ \E d \in {1, 5, 13} : Do([op |-> "tick", d |-> d], Tick(s, d))
Cond(kind, n1, v1, n2) ==
  CASE kind = 0 -> [k |-> "all", c |-> <<>>]
    [] kind = 1 -> [k |-> "dict", c |-> <<[n |-> n1, v |-> <<v1>>]>>]
    [] kind = 2 -> [k |-> "dict", c |-> <<[n |-> 1, v |-> <<v1, 2>>], [n |-> 2, v |-> <<1, 3>>]>>]
    [] OTHER    -> [k |-> "fun", c |-> <<[n |-> n1, v |-> <<v1, n2>>]>>]
DoINew == "INew" \in Acts /\ Idle /\ Len(s.its) < 3 /\ \E lg \in BOOLEAN, kind \in 0..3, n1 \in 1..2, v1 \in 1..3 :
           LET c == Cond(IF lg THEN 0 ELSE kind, n1, v1, 3)
           IN Do([op |-> "inew", c |-> c, lg |-> lg], IterNew(s, c, lg))
DoINext == "INext" \in Acts /\ Idle /\ \E i \in 1..Len(s.its) : Do([op |-> "inext", i |-> i], IterNext(s, i))
DoWRes == "WRes" \in Acts /\ Idle /\ \E k \in Ids(s) : s.t[k].st # "never" /\ ~s.t[k].fg /\ Do([op |-> "wres", k |-> k], WaitResult(s, k))
DoGRes == "GRes" \in Acts /\ Idle /\ \E k \in Ids(s) : s.t[k].st # "never" /\ ~s.t[k].fg /\ Do([op |-> "gres", k |-> k], GetResult(s, k))
DoClean == "Clean" \in Acts /\ Idle /\ Len(s.t) > 1 /\ Do(Rec("clean"), Clean(s))
DoInfo == "Info" \in Acts /\ Idle /\ Do(Rec("info"), Query(s))
DoEdit == "Edit" \in Acts /\ Idle /\ \E n \in 1..2, v \in 1..3 : Do([op |-> "edit", n |-> n, v |-> v], Edit(s, n, v))
DoSw == "Sw" \in Acts /\ Idle /\ Len(s.sw) < 3 /\ \E x \in {"-a", "-b"} : Do([op |-> "swadd", x |-> x], SwAdd(s, x))
DoSwC == "SwC" \in Acts /\ Idle /\ s.sw # <<>> /\ Do(Rec("swclr"), SwClr(s))

Next == DoRun \/ DoRun1 \/ DoNow \/ DoRel \/ DoRelOk \/ DoCbEnd \/ DoQuery \/ DoWait \/ DoTick \/ DoINew \/ DoINext
        \/ DoWRes \/ DoGRes \/ DoClean \/ DoInfo \/ DoEdit \/ DoSw \/ DoSwC \/ DoRelP \/ DoRunP \/ DoRunF
Emit == Len(h) = Depth => PrintT(<<"BEH", ToJson([meta |-> meta, ops |-> h])>>)
=============================================================================

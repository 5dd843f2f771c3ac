---------------------------- MODULE SimulatorTrace --------------------------
(* Validation of switches that were asked for and of the commands that simulators were started with. *)
EXTENDS Simulator, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, r, mode, exe, ok
T == Traces[tid]
S == T.meta.sim
(* ---------------------------------------------------------------- programs *)
Found(m) == m \in {"path", "str", "spaced", "loader", "which"}
Program(m, n) == [m |-> m, name |-> IF n # "" THEN n ELSE m]
Nothing == [m |-> "none", name |-> ""]
Before(x) == IF x.m = "loader" THEN <<"-x", "EXE">> ELSE <<>>
Whole(x, C) == {Before(x) \o c : c \in C}
(* ---------------------------------------------------------------- what may be seen *)
W(name, cond) == IF cond THEN {} ELSE {name}
Cmds(sw) == Whole(exe, Commands(S, mode, sw))
Console(con, out) == IF con = "none" THEN "" ELSE "out+err"
Started(e, sw, con, cwd) ==
  IF exe.m = "none" THEN W("available", e.a.cmd = <<"not started">>)
  ELSE W("command", e.a.cmd \in Cmds(sw)) \cup W("program", e.a.prog = exe.m) \cup W("console", e.a.con = Console(con, e.out)) \cup W("cwd", e.a.cwd = cwd)
Wrong(e) ==
  CASE e.op = "ask" -> W("switch", e.a = Answer(S, e.n, e.p))
    [] e.op = "create" -> IF Found(e.m) THEN W("create", e.a.k = "ok" /\ e.a.there /\ e.a.words = Len(Before([m |-> e.m])) + 1) \cup W("create.name", e.a.name = Program(e.m, e.n).name)
                          ELSE W("create", e.a.k = "notfound" /\ e.a.same /\ (e.a.there <=> exe.m # "none"))
    [] e.op = "run" -> Started(e, Taken(r, e.own), IF e.log THEN "log" ELSE "none", T.meta.cwd)
                       \cup (IF exe.m = "none" THEN W("result", e.a.ret = "stopped") ELSE W("result", e.a.ret = Result(Limit(r, e.lim), e.out)))
                       \cup W("ended", ~e.a.alive)
    [] e.op = "direct" -> Started(e, e.own, e.con, e.cwd) \cup W("result", e.a.ret = (IF exe.m = "none" THEN "error" ELSE Result("none", e.out)))
    [] e.op = "netlist" -> IF exe.m = "none" THEN W("available", e.a.cmd = <<"not started">> /\ e.a.ret = "error")
                           ELSE W("command", e.a.cmd \in Whole(exe, {<<"-netlist", "CIR">> \o e.own})) \cup W("result", e.a.ret = (IF e.out = "ok" THEN "netlist" ELSE "failed"))
                                \cup W("console", e.a.con = Console(IF e.log THEN "log" ELSE "none", e.out))
    [] e.op = "libs" -> W("libraries", e.a.q = Libs(S, e.exe \in {"wine", "winex"}, {e.have[i] : i \in 1..Len(e.have)}))
    [] OTHER -> {}
Then(q, a) == CASE a = "add" -> Added(q, "-later", "") [] a = "clear" -> Cleared(q) [] OTHER -> q
After(e) ==
  CASE e.op = "add" -> Added(r, e.n, e.p)
    [] e.op = "clear" -> Cleared(r)
    [] e.op = "run" -> Then(r, e.after)
    [] OTHER -> r
Init == tid \in 1..Len(Traces) /\ l = 1 /\ r = Runner(S, T.meta.to) /\ mode = T.meta.mode /\ ok = TRUE
        /\ exe = IF T.meta.made = "none" THEN Nothing ELSE Program(T.meta.made, T.meta.name)
Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] bad == Wrong(e) \cap Focus IN
     /\ r' = After(e)
     /\ mode' = (IF e.op = "mode" THEN e.m ELSE mode)
     /\ exe' = (IF e.op = "create" /\ Found(e.m) THEN Program(e.m, e.n) ELSE exe)
     /\ IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(T.ev) + 2 /\ ok' = FALSE
        ELSE l' = l + 1 /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace == l = Len(T.ev) + 1 /\ ok /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, r, mode, exe, ok>>
Next == Step \/ EndTrace
=============================================================================

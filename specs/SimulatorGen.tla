----------------------------- MODULE SimulatorGen ---------------------------
(* Behaviours: switches asked for, runners with switches, and runs in many ways. *)
EXTENDS Simulator, Json, Randomization
CONSTANT Depth
VARIABLES cfg, own, h
vars == <<cfg, own, h>>
R(S) == {RandomElement(S)}
Init == \E s \in Sims : cfg = [sim |-> s, to |-> "", cwd |-> FALSE, made |-> "", name |-> ""] /\ own = <<>> /\ h = <<>>
Make == /\ cfg.to = ""
        /\ \E to \in R({"long", "long", "short", "nolimit"}), cwd \in R(BOOLEAN), m \in R({"path", "str", "spaced", "loader", "which", "none"}), n \in R({"", "some.exe"}) :
             cfg' = [cfg EXCEPT !.to = to, !.cwd = cwd, !.made = m, !.name = n] /\ UNCHANGED <<own, h>>
Some(s) == {n \in Names(s) : TRUE} \cup {"-nosuch", "-ALT", "--x"}
ParFor(s, n, z) == IF n \in Names(s) /\ z > 1 THEN {p \in Params : Fits(Table(s)[n].k, p) /\ (z = 2 \/ Good(Table(s)[n].k, p))} ELSE {p \in Params : p # ""}
Look == {"plain", "bare", "blank"}
Ask == /\ cfg.to # ""
       /\ \E n \in R(Some(cfg.sim) \cup {"", "None"}), z \in R(2..4), look \in R(Look), m \in R(BOOLEAN) :
            \E p \in R(ParFor(cfg.sim, n, z)) : h' = Append(h, [op |-> "ask", n |-> n, p |-> p, look |-> IF n \in {"", "None", "--x"} \/ (cfg.sim = "ng") THEN "plain" ELSE look, spoil |-> m])
       /\ UNCHANGED <<cfg, own>>
Known(s) == {n \in Names(s) : Table(s)[n].k # "auto"}
Add == /\ cfg.to # ""
       /\ \E n \in R(Known(cfg.sim) \cup {"-mine"}), p \in R({"", "", "f.txt", "d r/f x"}) : h' = Append(h, [op |-> "add", n |-> n, p |-> p])
       /\ UNCHANGED <<cfg, own>>
Clear == cfg.to # "" /\ h # <<>> /\ h' = Append(h, [op |-> "clear"]) /\ UNCHANGED <<cfg, own>>
Mode == cfg.to # "" /\ cfg.sim = "ng" /\ \E m \in R({"", "hs", "psa"}) : h' = Append(h, [op |-> "mode", m |-> m]) /\ UNCHANGED <<cfg, own>>
Own == {<<>>, <<>>, <<"-own">>, <<"-own", "v w">>, <<"-a", "-b2", "x=1">>}
Outs == {"ok", "ok", "ok", "exit3", "slow", "noraw"}
Run == /\ cfg.to # ""
       /\ \E q \in R(Own), lim \in R({"none", "none", "long", "short"}), out \in R(Outs), log \in R(BOOLEAN), now \in R(1..3), after \in R({"", "clear", "add", "spoil"}), nm \in R({"", "a b.net", "top.v1.net"}) :
            h' = Append(h, [op |-> "run", own |-> q, lim |-> IF out = "slow" THEN (IF lim = "none" /\ cfg.to = "short" THEN "none" ELSE "short") ELSE IF lim = "none" /\ cfg.to = "short" THEN "long" ELSE IF lim = "short" THEN "long" ELSE lim,
                            out |-> out, log |-> log, now |-> now = 1, after |-> after, name |-> nm])
       /\ UNCHANGED <<cfg, own>>
Direct == /\ cfg.to # ""
          /\ \E q \in R(Own), str \in R(BOOLEAN), out \in R({"ok", "exit3", "noraw"}), con \in R({"none", "log", "file"}), cwd \in R(BOOLEAN) :
               h' = Append(h, [op |-> "direct", own |-> q, str |-> str /\ Len(q) = 1, out |-> out, con |-> con, cwd |-> cwd])
          /\ UNCHANGED <<cfg, own>>
Netlist == /\ cfg.sim = "lt" /\ cfg.to # ""
           /\ \E q \in R(Own), out \in R({"ok", "exit3", "noraw"}), log \in R(BOOLEAN) : h' = Append(h, [op |-> "netlist", own |-> q, out |-> out, log |-> log])
           /\ UNCHANGED <<cfg, own>>
Create == /\ cfg.to # ""
          /\ \E m \in R({"path", "str", "spaced", "loader", "which", "missing", "missingpath", "empty", "windows"}), n \in R({"", "some.exe"}) : h' = Append(h, [op |-> "create", m |-> m, n |-> n])
          /\ UNCHANGED <<cfg, own>>
Lib == /\ cfg.to # "" /\ cfg.sim \in {"lt", "qs"} /\ ~(\E i \in 1..Len(h) : h[i].op = "libs")
       /\ \E exe \in R({"wine", "winex", "plain", "gone", "none"}), D \in R(SUBSET (1..Len(LibDirs(cfg.sim)))), E \in R(SUBSET (1..Len(LibDirs(cfg.sim)))) :
            \E f \in R(1..Len(LibDirs(cfg.sim))) :
            LET C(x) == cfg.sim = "qs" /\ x = 1
                H == {x \in {<<x, "wine", IF x = f THEN "file" ELSE "dir">> : x \in D} \cup {<<x, "home", "dir">> : x \in E} : ~(C(x[1]) /\ x[2] = "home")}
            IN  h' = Append(h, [op |-> "libs", exe |-> exe, have |-> H])
       /\ UNCHANGED <<cfg, own>>
More == Len(h) < Depth
Next == Make \/ (More /\ (Ask \/ Add \/ Run \/ Run \/ Direct \/ Mode \/ Clear \/ Netlist \/ Create \/ Lib))
Emit == Len(h) = Depth => PrintT(<<"BEH", ToJson([meta |-> cfg, ops |-> h])>>)
=============================================================================

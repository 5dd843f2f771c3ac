------------------------------ MODULE Simulator -----------------------------
(* How simulators are started. A switch that the user asks for becomes words of the command line, or nothing, or is
   refused. A runner keeps the words that were added until they are cleared; a run takes those that were there when it was
   launched, or those that were given for it. The command of a simulator is its program with the netlist, the files that
   it shall write, and these words.                                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sims == {"lt", "ng", "qs", "xy"}
(* ---------------------------------------------------------------- switches: name |-> <<kind, word>> *)
Flag(w) == [k |-> "flag", w |-> w]
Arg(w) == [k |-> "arg", w |-> w]
Of(k, w) == [k |-> k, w |-> w]
Auto == [k |-> "auto", w |-> ""]
Table(s) ==
  CASE s = "lt" -> ("-alt" :> Flag("-alt")) @@ ("-ascii" :> Flag("-ascii")) @@ ("-encrypt" :> Flag("-encrypt")) @@ ("-fastaccess" :> Flag("-FastAccess"))
                   @@ ("-FixUpSchematicFonts" :> Flag("-FixUpSchematicFonts")) @@ ("-FixUpSymbolFonts" :> Flag("-FixUpSymbolFonts")) @@ ("-netlist" :> Flag("-netlist"))
                   @@ ("-norm" :> Flag("-norm")) @@ ("-SOI" :> Flag("-SOI")) @@ ("-sync" :> Flag("-sync")) @@ ("-ini" :> Arg("-ini")) @@ ("-I" :> Of("join", "-I"))
                   @@ ("-Run" :> Auto) @@ ("-b" :> Auto)
    [] s = "ng" -> ("-c" :> Arg("-c")) @@ ("--circuitfile" :> Arg("--circuitfile")) @@ ("-D" :> Of("define", "-D")) @@ ("--define" :> Of("define", "--define"))
                   @@ ("-n" :> Flag("-n")) @@ ("--no-spiceinit" :> Flag("--no-spiceinit")) @@ ("-q" :> Flag("-q")) @@ ("--completion" :> Flag("--completion"))
                   @@ ("--soa-log" :> Arg("--soa-log")) @@ ("-s" :> Flag("-s")) @@ ("--server" :> Flag("--server")) @@ ("-t" :> Arg("-t")) @@ ("--term" :> Arg("--term"))
                   @@ ("-b" :> Auto) @@ ("-o" :> Auto) @@ ("-r" :> Auto) @@ ("-a" :> Auto)
    [] s = "qs" -> ("-ASCII" :> Flag("-ASCII")) @@ ("-ascii" :> Flag("-ASCII")) @@ ("-binary" :> Flag("-binary")) @@ ("-BSIM1" :> Flag("-BSIM1")) @@ ("-Meyer" :> Flag("-Meyer"))
                   @@ ("-ProtectSelections" :> Arg("-ProtectSelections")) @@ ("-ProtectSubcircuits" :> Arg("-ProtectSubcircuits")) @@ ("-r" :> Arg("-r")) @@ ("-o" :> Auto)
    [] s = "xy" -> ("-capabilities" :> Flag("-capabilities")) @@ ("-license" :> Flag("-license")) @@ ("-param" :> Arg("-param")) @@ ("-doc" :> Arg("-doc")) @@ ("-doc_cat" :> Arg("-doc_cat"))
                   @@ ("-count" :> Flag("-count")) @@ ("-syntax" :> Flag("-syntax")) @@ ("-norun" :> Flag("-norun")) @@ ("-namesfile" :> Arg("-namesfile"))
                   @@ ("-noise_names_file" :> Arg("-noise_names_file")) @@ ("-quiet" :> Flag("-quiet")) @@ ("-jacobian_test" :> Flag("-jacobian_test"))
                   @@ ("-hspice-ext" :> Arg("-hspice-ext")) @@ ("-redefined_params" :> Of("redef", "-redefined_params")) @@ ("-subckt_multiplier" :> Of("bool", "-subckt_multiplier"))
                   @@ ("-local_variation" :> Of("bool", "-local_variation")) @@ ("-delim" :> Arg("-delim")) @@ ("-o" :> Arg("-o")) @@ ("-per-processor" :> Flag("-per-processor"))
                   @@ ("-remeasure" :> Arg("-remeasure")) @@ ("-nox" :> Of("onoff", "-nox")) @@ ("-linsolv" :> Of("any", "-linsolv")) @@ ("-maxord" :> Of("int", "-maxord"))
                   @@ ("-max-warnings" :> Of("int", "-max-warnings")) @@ ("-prf" :> Arg("-prf")) @@ ("-rsf" :> Arg("-rsf")) @@ ("-a" :> Flag("-a"))
                   @@ ("-randseed" :> Of("int", "-randseed")) @@ ("-plugin" :> Arg("-plugin")) @@ ("-l" :> Auto) @@ ("-r" :> Auto)
Names(s) == DOMAIN Table(s)
(* ---------------------------------------------------------------- parameters, by what they are *)
Params == {"f.txt", "d r/f x", "12", "-3", "true", "False", "on", "OFF", "usefirst", "warn", "a=1", "filetype=ascii", "ngbehavior=hs", "KLU", ""}
Good(k, p) ==
  CASE k = "int" -> p \in {"12", "-3"}
    [] k = "bool" -> p \in {"true", "False"}
    [] k = "onoff" -> p \in {"on", "OFF"}
    [] k = "redef" -> p \in {"usefirst", "warn"}
    [] k = "define" -> p \in {"a=1", "filetype=ascii"}
    [] OTHER -> p # ""
Fits(k, p) == k \in {"flag", "auto"} \/ (IF k = "define" THEN p \in {"a=1", "filetype=ascii", "ngbehavior=hs"} ELSE p # "")
No == <<>>
Refused == [k |-> "refused", q |-> <<>>]
Words(q) == [k |-> "ok", q |-> q]
(* the answer to a switch, written with or without its dash, with blanks around it *)
Answer(s, n, p) ==
  IF n \in {"", "None"} THEN Words(No)
  ELSE IF n \notin Names(s) THEN Refused
  ELSE LET t == Table(s)[n] IN
       CASE t.k = "auto" -> Words(No)
         [] t.k = "flag" -> Words(<<t.w>>)
         [] t.k = "join" -> Words(<<t.w \o p>>)
         [] OTHER -> IF Good(t.k, p) THEN Words(<<t.w, p>>) ELSE Words(No)
(* ---------------------------------------------------------------- the command *)
(* groups of words that belong together; NET, LOG and RAW stand for the files *)
Groups(s, mode) ==
  CASE s = "lt" -> {<<"-Run">>, <<"-b">>, <<"Z:NET">>}
    [] s = "ng" -> {<<"-b">>, <<"-o", "LOG">>, <<"-r", "RAW">>} \cup (IF mode = "" THEN {} ELSE {<<"-D", "ngbehavior=" \o mode>>})
    [] s = "qs" -> {<<"-o", "LOG">>, <<"NET">>}
    [] s = "xy" -> {<<"-l", "LOG">>, <<"-r", "RAW">>}
RECURSIVE Orders(_)
Orders(G) == IF G = {} THEN {<<>>} ELSE UNION {{g \o q : q \in Orders(G \ {g})} : g \in G}
Fixed(s, mode) == {q \in Orders(Groups(s, mode)) : s # "lt" \/ \E i \in 1..Len(q) - 1 : q[i] = "-b" /\ q[i + 1] = "Z:NET"}
(* the words of the user are where they do their work: LTspice and QSPICE take them after the netlist, the others before *)
Last(s) == s \in {"ng", "xy"}
Commands(s, mode, sw) ==
  IF Last(s) THEN {f \o <<"NET">> : f \in {sw \o q : q \in Fixed(s, mode)} \cup {q \o sw : q \in Fixed(s, mode)}}
  ELSE {q \o sw : q \in Fixed(s, mode)}
(* ---------------------------------------------------------------- libraries: the folders that exist, in the order of preference *)
LibDirs(s) == CASE s = "lt" -> <<"~/AppData/Local/LTspice/lib", "~/Documents/LTspiceXVII/lib/", "~/Documents/LTspice/lib/", "~/My Documents/LTspiceXVII/lib/", "~/My Documents/LTspice/lib/",
                                 "~/Local Settings/Application Data/LTspice/lib">>
                [] s = "qs" -> <<"C:/Program Files/QSPICE", "~/Documents/QSPICE">>
                [] OTHER -> <<>>
(* those of a program in a wine folder are in there; have: what exists, as <<number, "wine" or "home", "dir" or "file">> *)
Libs(s, wine, have) == LET D == LibDirs(s) w == IF wine THEN "wine" ELSE "home"
                       IN  [i \in 1..Len(SelectSeq([j \in 1..Len(D) |-> j], LAMBDA j : <<j, w, "dir">> \in have)) |->
                              <<w, D[SelectSeq([j \in 1..Len(D) |-> j], LAMBDA j : <<j, w, "dir">> \in have)[i]]>>]
(* ---------------------------------------------------------------- the runner *)
Runner(s, to) == [sim |-> s, sw |-> <<>>, to |-> to]
Added(r, w, p) == [r EXCEPT !.sw = @ \o (IF p = "" THEN <<w>> ELSE <<w, p>>)]
Cleared(r) == [r EXCEPT !.sw = <<>>]
Taken(r, own) == IF own = <<>> THEN r.sw ELSE own
Limit(r, to) == IF to = "none" THEN r.to ELSE to
(* what is left of a run: its return code and its files *)
Result(limit, out) == IF out = "slow" /\ limit = "short" THEN "stopped" ELSE IF out = "exit3" THEN "3" ELSE "0"
=============================================================================

------------------------------- MODULE Editor -------------------------------
(* Editing of a SPICE netlist, as its users see it.

   A netlist is a tree of definitions.  A definition is addressed by the sequence of the names that enclose it: <<>>
   is the main circuit, <<"AMP">> a subcircuit defined in it, <<"AMP","INNER">> one nested in AMP, <<"#LIB","OPA">> one
   found in a library file and <<"#INC","F">> one found in an included file.  Its content is a record
     c : reference -> [t type letter, n node sequence, v value, k : parameter -> value]      (components)
     p : name -> value                                                                        (.param)
     i : sequence of [t text, q command]                                                      (other directives)
     m : sequence of remarks
   State s:  d : address -> content (the netlist as it would be saved now, plus library definitions)
             own : <<address, X reference>> -> address of the private copy made for that instance
             j : journal, sequence of [n, v, t]
             d0, c0 : the netlist as loaded, for reset                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Emp == [x \in {} |-> ""]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Last1(q) == q[Len(q)]
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
S0(d) == [d |-> d, own |-> Emp, j |-> <<>>, d0 |-> d]
Ext(key) == Len(key) > 0 /\ key[1] \in {"#LIB", "#INC"}

(* ------------------------------------------------------------ name resolution *)
RECURSIVE Look(_, _, _)
Look(d, key, name) ==
  IF Append(key, name) \in DOMAIN d THEN Append(key, name)
  ELSE IF key # <<>> THEN Look(d, Front(key), name)
  ELSE IF <<"#INC", name>> \in DOMAIN d THEN <<"#INC", name>>
  ELSE IF <<"#LIB", name>> \in DOMAIN d THEN <<"#LIB", name>>
  ELSE <<"?", name>>

(* where the instance r of the definition at address key finds its content *)
Target(s, key, r) == IF <<key, r>> \in DOMAIN s.own THEN s.own[<<key, r>>] ELSE Look(s.d, key, s.d[key].c[r].v)
IsInst(s, key, r) == r \in DOMAIN s.d[key].c /\ s.d[key].c[r].t = "X"

RECURSIVE Walk(_, _, _)
Walk(s, key, path) ==        \* address of the content that the instance path leads to, or <<"?">>
  IF path = <<>> THEN key
  ELSE IF ~IsInst(s, key, Head(path)) THEN <<"?">>
  ELSE LET k2 == Target(s, key, Head(path))
       IN IF k2 \notin DOMAIN s.d THEN <<"?">> ELSE Walk(s, k2, Tail(path))
AddrOf(s, path) == Walk(s, <<>>, path)
Found(s, path) == AddrOf(s, path) \in DOMAIN s.d
ContentAt(s, path) == s.d[AddrOf(s, path)]

RECURSIVE PathsFrom(_, _, _)
PathsFrom(s, path, depth) ==
  {path} \cup (IF depth = 0 THEN {} ELSE
    UNION {PathsFrom(s, Append(path, r), depth - 1) :
           r \in {x \in DOMAIN ContentAt(s, path).c : IsInst(s, AddrOf(s, path), x) /\ Found(s, Append(path, x))}})
Paths(s) == PathsFrom(s, <<>>, 4)

(* ------------------------------------------------------------ journal *)
RECURSIVE Pfx(_)
Pfx(path) == IF path = <<>> THEN "" ELSE Head(path) \o ":" \o Pfx(Tail(path))
Log(j, n, v, t, instr) ==
  LET hit == {i \in 1..Len(j) : j[i].n = n /\ j[i].t = t /\ (instr => j[i].v = v)}
  IN IF hit = {} THEN Append(j, [n |-> n, v |-> v, t |-> t])
     ELSE [j EXCEPT ![CHOOSE i \in hit : \A k \in hit : i <= k] = [n |-> n, v |-> v, t |-> t]]
Note(s, path, n, v, t) == [s EXCEPT !.j = Log(@, Pfx(path) \o n, v, t, n = "INSTRUCTION")]

(* ------------------------------------------------------------ private copies *)
CopyTree(d, from, to) ==
  LET src == {x \in DOMAIN d : IsPre(from, x)}
      new == [x \in {to \o SubSeq(y, Len(from) + 1, Len(y)) : y \in src} |-> d[from \o SubSeq(x, Len(to) + 1, Len(x))]]
  IN [x \in DOMAIN d \cup DOMAIN new |-> IF x \in DOMAIN new THEN new[x] ELSE d[x]]
DropTree(d, k) == Without(d, {x \in DOMAIN d : IsPre(k, x)})
DropOwn(s, key, r) ==       \* the instance no longer has a private copy
  IF <<key, r>> \notin DOMAIN s.own THEN s
  ELSE LET k == s.own[<<key, r>>]
       IN [s EXCEPT !.d = DropTree(@, k), !.own = Without(@, {x \in DOMAIN @ : x = <<key, r>> \/ IsPre(k, x[1])})]

RECURSIVE Fresh(_, _, _)
Fresh(d, key, name) == IF Look(d, key, name) \in DOMAIN d THEN Fresh(d, key, name \o "_") ELSE name
(* Makes every instance along the path use its private copy, outermost first *)
RECURSIVE Own(_, _, _, _)
Own(s, key, done, path) ==
  IF path = <<>> THEN s
  ELSE LET r == Head(path)
           has == <<key, r>> \in DOMAIN s.own
           old == s.d[key].c[r].v
           nm == Fresh(s.d, key, old \o "_" \o r)
           from == Target(s, key, r)
           to == IF has THEN s.own[<<key, r>>] ELSE Append(key, nm)
           s1 == IF has THEN s
                 ELSE [s EXCEPT !.d = [CopyTree(@, from, to) EXCEPT ![key] = [@ EXCEPT !.c[r].v = nm]],
                                !.own = With(@, <<key, r>>, to)]
           s2 == IF has THEN s1
                 ELSE Note(Note(s1, done, "CLONE(" \o old \o ")", old, "CloneSubcircuit"), done, r, nm, "UpdateComponentValue")
       IN Own(s2, to, Append(done, r), Tail(path))
Owned(s, path) == Own(s, <<>>, <<>>, path)
Put(s, path, c) == [s EXCEPT !.d[AddrOf(s, path)] = c]

(* ------------------------------------------------------------ operations: each yields [s, r] *)
Ok(s, r) == [s |-> s, r |-> r]
HasComp(s, path, ref) == Found(s, path) /\ ref \in DOMAIN ContentAt(s, path).c

SetValue(s, path, ref, v) ==
  IF ~HasComp(s, path, ref) THEN Ok(s, "notfound")
  ELSE LET s1 == Owned(s, path)
           key == AddrOf(s1, path)
           s2 == IF IsInst(s1, key, ref) THEN DropOwn(s1, key, ref) ELSE s1
       IN Ok(Note([s2 EXCEPT !.d[key].c[ref].v = v], path, ref, v, "UpdateComponentValue"), "ok")

SetCompPar(s, path, ref, k, v) ==
  IF ~HasComp(s, path, ref) THEN Ok(s, "notfound")
  ELSE LET s1 == Owned(s, path)
           key == AddrOf(s1, path)
           old == s1.d[key].c[ref].k
           t == IF v = "None" THEN "DeleteComponentParameter"
                ELSE IF k \in DOMAIN old THEN "UpdateComponentParameter" ELSE "AddComponentParameter"
           new == IF v = "None" THEN Without(old, {k}) ELSE With(old, k, v)
       IN Ok(Note([s1 EXCEPT !.d[key].c[ref].k = new], path, ref \o ":" \o k, v, t), "ok")

(* reconnecting a component; not part of the journal *)
SetNodes(s, ref, n) == IF ~HasComp(s, <<>>, ref) THEN Ok(s, "notfound") ELSE Ok([s EXCEPT !.d[<<>>].c[ref].n = n], "ok")

RECURSIVE SetMany(_, _, _)
SetMany(s, path, kv) ==
  IF kv = <<>> THEN Ok(s, "ok")
  ELSE LET o == SetValue(s, path, Head(kv).ref, Head(kv).v)
       IN IF o.r # "ok" THEN o ELSE SetMany(o.s, path, Tail(kv))

(* a parameter that is not in the circuit itself but in a file it includes is changed in place *)
SetPar(s, path, n, v) ==
  IF ~Found(s, path) THEN Ok(s, "notfound")
  ELSE LET has == n \in DOMAIN ContentAt(s, path).p
       IN IF v = "None" /\ ~has THEN Ok(s, "ok")
          ELSE LET s1 == Owned(s, path)
                   key == AddrOf(s1, path)
                   old == s1.d[key].p
                   t == IF v = "None" THEN "DeleteParameter" ELSE IF has THEN "UpdateParameter" ELSE "AddParameter"
                   new == IF v = "None" THEN Without(old, {n}) ELSE With(old, n, v)
               IN Ok(Note([s1 EXCEPT !.d[key].p = new], path, n, v, t), "ok")

Unique == {".AC", ".DC", ".TRAN", ".NOISE", ".TF"}
InsAt(q, e) ==              \* a new directive goes before .backanno
  LET b == {i \in 1..Len(q) : q[i].q = ".BACKANNO"}
  IN IF b = {} THEN Append(q, e)
     ELSE LET k == CHOOSE x \in b : \A y \in b : x <= y IN SubSeq(q, 1, k - 1) \o <<e>> \o SubSeq(q, k, Len(q))
AddInstr(s, path, e) ==
  IF ~Found(s, path) THEN Ok(s, "notfound")
  ELSE IF e.q = ".PARAM" THEN Ok(s, "runtime")
  ELSE IF e.q \in Unique /\ path # <<>> THEN Ok(s, "runtime")
  ELSE LET q == ContentAt(s, path).i
           u == {x \in 1..Len(q) : q[x].q \in Unique}
           same == {x \in 1..Len(q) : q[x].t = e.t}
       IN IF e.q \in Unique /\ u # {}
          THEN LET k == CHOOSE x \in u : \A y \in u : x <= y
               IN Ok(Note([s EXCEPT !.d[<<>>].i[k] = e], path, "INSTRUCTION", e.t, "UpdateInstruction"), "ok")
          ELSE IF same # {} THEN Ok(s, "ok")
          ELSE LET s1 == Owned(s, path)
                   key == AddrOf(s1, path)
               IN Ok(Note([s1 EXCEPT !.d[key].i = InsAt(@, e)], path, "INSTRUCTION", e.t, "AddInstruction"), "ok")

DelAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
RemInstr(s, path, t) ==
  IF ~Found(s, path) THEN Ok(s, "notfound")
  ELSE LET q == ContentAt(s, path).i
           hit == {x \in 1..Len(q) : q[x].t = t}
       IN IF hit = {} THEN Ok(s, "false")
          ELSE LET s1 == Owned(s, path)
                   key == AddrOf(s1, path)
                   k == CHOOSE x \in hit : \A y \in hit : x <= y
               IN Ok(Note([s1 EXCEPT !.d[key].i = DelAt(@, k)], path, "INSTRUCTION", t, "DeleteInstruction"), "true")

RECURSIVE RemAll(_, _, _, _)
RemAll(s, path, cmds, n) ==   \* directives whose command is one of cmds, in order
  LET q == ContentAt(s, path).i
      hit == {x \in 1..Len(q) : q[x].q \in cmds}
  IN IF hit = {} THEN Ok(s, IF n = 0 THEN "false" ELSE "true")
     ELSE LET s1 == Owned(s, path)
              key == AddrOf(s1, path)
              k == CHOOSE x \in hit : \A y \in hit : x <= y
          IN RemAll(Note([s1 EXCEPT !.d[key].i = DelAt(@, k)], path, "INSTRUCTION", q[k].t, "DeleteInstruction"), path, cmds, n + 1)
RemPattern(s, path, cmds) == IF ~Found(s, path) THEN Ok(s, "notfound") ELSE RemAll(s, path, cmds, 0)

AddComp(s, path, ref, comp) ==
  IF ~Found(s, path) THEN Ok(s, "notfound")
  ELSE LET s1 == Owned(s, path)
           key == AddrOf(s1, path)
           s2 == IF IsInst(s1, key, ref) THEN DropOwn(s1, key, ref) ELSE s1
       IN Ok(Note([s2 EXCEPT !.d[key].c = With(@, ref, comp)], path, ref, comp.v, "AddComponent"), "ok")

RemComp(s, path, ref) ==
  IF ~HasComp(s, path, ref) THEN Ok(s, "notfound")
  ELSE LET s1 == Owned(s, path)
           key == AddrOf(s1, path)
           s2 == IF IsInst(s1, key, ref) THEN DropOwn(s1, key, ref) ELSE s1
       IN Ok(Note([s2 EXCEPT !.d[key].c = Without(@, {ref})], path, ref, "delete", "DeleteComponent"), "ok")

Reset(s) == Ok([s EXCEPT !.d = s.d0, !.own = Emp, !.j = <<>>], "ok")

(* the saved text: the included content takes the place of the .include statement, libraries stay outside *)
Merge(a, b) == [c |-> b.c @@ a.c, p |-> b.p @@ a.p, i |-> b.i \o a.i, m |-> b.m \o a.m]
TextOf(s) ==
  LET keys == {x \in DOMAIN s.d : ~Ext(x)}
      inc == {x \in DOMAIN s.d : Len(x) > 1 /\ x[1] = "#INC"}
      t == [x \in keys \cup {Tail(x) : x \in inc} |-> IF x \in keys THEN s.d[x] ELSE s.d[<<"#INC">> \o x]]
  IN IF <<"#INC">> \in DOMAIN s.d THEN [t EXCEPT ![<<>>] = Merge(s.d[<<>>], s.d[<<"#INC">>])] ELSE t

(* saving and opening the saved netlist with another editor *)
Reopen(s) ==
  LET t == TextOf(s)
      lib == {x \in DOMAIN s.d : Len(x) > 0 /\ x[1] = "#LIB"}
  IN Ok(S0([x \in DOMAIN t \cup lib |-> IF x \in DOMAIN t THEN t[x] ELSE s.d[x]]), "ok")

Read(s, path, ref) == Ok(s, IF HasComp(s, path, ref) THEN "ok" ELSE "notfound")

Outcome(s, e) ==
  CASE e.op = "val"  -> SetValue(s, e.path, e.ref, e.v)
    [] e.op = "prm"  -> SetCompPar(s, e.path, e.ref, e.k, e.v)
    [] e.op = "nodes" -> SetNodes(s, e.ref, e.nodes)
    [] e.op = "vals" -> SetMany(s, e.path, e.kv)
    [] e.op = "par"  -> SetPar(s, e.path, e.k, e.v)
    [] e.op = "addi" -> AddInstr(s, e.path, e.ins)
    [] e.op = "remi" -> RemInstr(s, e.path, e.v)
    [] e.op = "remx" -> RemPattern(s, e.path, {e.cmds[i] : i \in 1..Len(e.cmds)})
    [] e.op = "addc" -> AddComp(s, e.path, e.ref, e.comp)
    [] e.op = "remc" -> RemComp(s, e.path, e.ref)
    [] e.op = "reset" -> Reset(s)
    [] e.op = "reopen" -> Reopen(s)
    [] e.op = "save" -> Ok(s, "ok")
    [] e.op = "read" -> Read(s, e.path, e.ref)
=============================================================================

---------------------------- MODULE SweepTrace ----------------------------
EXTENDS Sweep, TLC, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, its, at, known, dims, runs, ok
vars == <<tid, l, its, at, known, dims, runs, ok>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ its = <<>> /\ at = T.init /\ known = {} /\ dims = <<>> /\ runs = <<>> /\ ok = TRUE
If(c, name) == IF c THEN {} ELSE {name}
Is(e, v) == e.r.k = "seq" /\ e.r.v = v
Sub(s, a, b) == IF a > Len(s) THEN <<>> ELSE SubSeq(s, a, IF b > Len(s) THEN Len(s) ELSE b)
P(o) == Points(T.objs[o])
Known(x, ks) == [e \in ks |-> x[e]]
(* the simulations that a run makes, with what was set when each was made *)
New(e) == LET rs == Runs(at, dims) IN [i \in 1..Len(rs) |-> [at |-> rs[i], known |-> known \cup {dims[j].e : j \in 1..Len(dims)}, bad |-> e.bad # 0 /\ rs[i]["R1"] = e.bad]]
Infos(rs) == [i \in 1..Len(rs) |-> Known(rs[i].at, rs[i].known)]
Good(rs) == SelectSeq(rs, LAMBDA x : ~x.bad)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Columns(rs) == UNION {rs[i].known : i \in 1..Len(rs)}
Right(e) ==
  CASE e.op = "list" -> Is(e, P(e.o))
    [] e.op \in {"new", "open"} -> Is(e, <<>>)
    [] e.op = "next" -> Is(e, Sub(P(its[e.i].o), its[e.i].pos + 1, its[e.i].pos + e.n))
    [] e.op = "nested" -> Is(e, Nested(P(e.o), P(e.p)))
    [] e.op \in {"set", "dim"} -> Is(e, <<>>)
    [] e.op = "bad" -> e.r.k = "err" /\ e.r.e = "ComponentNotFoundError"
    [] e.op = "total" -> Is(e, <<Total(dims)>>)
    [] e.op = "run" -> LET n == New(e) IN
         /\ e.r.k = "runs" /\ e.r.circuits = [i \in 1..Len(n) |-> n[i].at]
         /\ (e.named => e.r.names = Infos(n) /\ e.r.files)
         /\ (e.cb => \A i \in 1..Len(n) : (i \in SetOf(e.r.called)) = ~n[i].bad) /\ (e.cb => Len(e.r.called) = Len(Good(n)))
         /\ e.r.runno = Len(runs) + Len(n)
         /\ e.r.ok = Len(Good(runs)) + Len(Good(n)) /\ e.r.fail = Len(runs) + Len(n) - e.r.ok
    [] e.op = "info" -> Is(e, Infos(runs))
    [] e.op = "export" -> e.r.k = "table" /\ SetOf(e.r.cols) = Columns(runs) /\ Len(e.r.cols) = Cardinality(Columns(runs))
                          /\ e.r.v = Infos(runs) /\ e.r.runnos = [i \in 1..Len(runs) |-> i]
Step ==
  /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] bad == If(Right(e), e.op) \cap Focus IN
     /\ its' = IF e.op = "open" THEN Append(its, [o |-> e.o, pos |-> 0])
               ELSE IF e.op = "next" THEN [its EXCEPT ![e.i].pos = @ + e.n] ELSE its
     /\ dims' = IF e.op = "dim" THEN Append(dims, [e |-> e.e, vals |-> e.vals]) ELSE dims
     /\ at' = IF e.op = "set" THEN Put(at, e.e, e.v) ELSE IF e.op = "run" THEN Left(at, dims) ELSE at
     /\ known' = IF e.op = "set" THEN known \cup {e.e}
                 ELSE IF e.op = "run" THEN known \cup {dims[j].e : j \in 1..Len(dims)} ELSE known
     /\ runs' = IF e.op = "run" THEN runs \o New(e) ELSE runs
     /\ IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(T.ev) + 2 /\ ok' = FALSE
        ELSE l' = l + 1 /\ UNCHANGED ok
  /\ UNCHANGED tid
EndTrace == l = Len(T.ev) + 1 /\ ok /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, its, at, known, dims, runs, ok>>
Next == Step \/ EndTrace
=============================================================================

---------------------------- MODULE ReportMC ----------------------------
(* How exported waveforms and operating points lie in lines, and how they are read back line by line. *)
EXTENDS Report, SequencesExt
CONSTANTS MaxRuns, MaxRows, Val, MaxDevs
VARIABLES f, g, lines, pos, run, got, points, sec, devs
vars == <<f, g, lines, pos, run, got, points, sec, devs>>
Texts == UNION {{[n |-> n, vars |-> <<[name |-> "a", vals |-> v]>>, rows |-> [r \in 1..n |-> [i \in 1..k[r] |-> <<<<x, 0>>>>]]] :
                  v \in [1..n -> 1..Val], k \in [1..n -> 1..MaxRows], x \in 1..Val} : n \in 1..MaxRuns}
Names == <<"d1", "d2">>
Ops == {[secs |-> [s \in 1..ns |-> [title |-> s, blocks |-> [b \in 1..nb |->
          [devs |-> [d \in 1..nd |-> IF same \/ b = 1 THEN Names[d] ELSE <<"e1", "e2">>[d]],
           params |-> <<[name |-> "p", vals |-> [d \in 1..nd |-> (s + b + d + x) % 3]]>>]]]]] :
          ns \in 1..2, nb \in 1..2, nd \in 1..MaxDevs, same \in {TRUE, FALSE}, x \in 0..1}
Line(k, s, v) == [k |-> k, s |-> s, v |-> v]
TextLines(t) == FlattenSeq([r \in 1..t.n |-> <<Line("info", r, <<>>)>> \o [i \in 1..Len(t.rows[r]) |-> Line("row", 0, t.rows[r][i])]])
OpLines(o) == FlattenSeq([s \in 1..Len(o.secs) |-> FlattenSeq([b \in 1..Len(o.secs[s].blocks) |->
   LET bl == o.secs[s].blocks[b] IN
   <<Line("title", o.secs[s].title, <<>>), Line("name", 0, bl.devs)>> \o [p \in 1..Len(bl.params) |-> Line("param", bl.params[p].name, bl.params[p].vals)]])])
Init == /\ f \in Texts /\ g \in Ops
        /\ lines = TextLines(f) \o OpLines(g)
        /\ pos = 1 /\ run = 0 /\ got = <<>> /\ points = {} /\ sec = 0 /\ devs = <<>>
L == lines[pos]
Go(k) == pos <= Len(lines) /\ L.k = k /\ pos' = pos + 1 /\ UNCHANGED <<f, g, lines>>
ReadInfo == Go("info") /\ run' = L.s /\ UNCHANGED <<got, points, sec, devs>>
ReadRow == Go("row") /\ got' = Append(got, [run |-> run, row |-> L.v]) /\ UNCHANGED <<run, points, sec, devs>>
ReadTitle == Go("title") /\ sec' = L.s /\ UNCHANGED <<run, got, points, devs>>
ReadName == Go("name") /\ devs' = L.v /\ UNCHANGED <<run, got, points, sec>>
ReadParam == /\ Go("param")
             /\ points' = {x \in points : ~(x.t = sec /\ x.p = L.s /\ x.d \in ToSet(devs))}
                          \cup {[t |-> sec, d |-> devs[i], p |-> L.s, v |-> L.v[i]] : i \in 1..Len(devs)}
             /\ UNCHANGED <<run, got, sec, devs>>
Next == ReadInfo \/ ReadRow \/ ReadTitle \/ ReadName \/ ReadParam
Spec == Init /\ [][Next]_vars
InvPart == Len(got) <= Len(Flat(f)) /\ got = SubSeq(Flat(f), 1, Len(got))
InvAll == pos > Len(lines) => got = Flat(f) /\ points = Points(g)
InvLines == pos = 1 => Len(Lines(f)) = Len(DataColumn(f, 1)) /\ \A i \in 1..Len(Lines(f)) : Lines(f)[i].run = RunColumn(f)[i] /\ Lines(f)[i].vs[1] = VarColumn(f, 1)[i]
=============================================================================

---------------------------- MODULE RawGen ----------------------------
(* Behaviours: a file is made up, then asked about in some order. *)
EXTENDS Raw, TLC, Json, Randomization
CONSTANTS Depth, Acts, Kinds, Dialects, Storages, MaxPlots, MaxSteps, Logs, Cuts
VARIABLES f, h
vars == <<f, h>>
R(S) == {RandomElement(S)}
Init == f = [plots |-> <<>>] /\ h = <<>>
RECURSIVE AxisOf(_, _, _)
AxisOf(a0, n, seed) == IF n = 1 THEN <<a0>>
                       ELSE LET q == AxisOf(a0, n - 1, seed) IN Append(q, q[n - 1] + (IF (n * seed) % 3 = 0 THEN 4 ELSE 2))
Data(v, i, seed) == 2 * (((v * 7 + i * 5 + seed * 3) * (i + v + 1)) % 13) - 12
MkPlot(kind, neg, lens, stepped, nv, nal, log, seed) ==
  LET a0 == IF kind = "tran" THEN 0 ELSE 2
      ax == [k \in 1..Len(lens) |-> AxisOf(a0, lens[k], seed + k)]
      at(i) == CHOOSE z \in {<<k, j>> : k \in 1..Len(lens), j \in 1..50} : z[2] <= lens[z[1]] /\ Sum(lens, z[1] - 1) + z[2] = i
      axv == [i \in 1..Sum(lens, Len(lens)) |->
                LET z == at(i) x == ax[z[1]][z[2]] IN IF neg /\ z[2] > 1 /\ (i + seed) % 3 = 0 THEN -x ELSE x]
  IN [kind |-> kind, axis |-> kind # "op", lens |-> lens, stepped |-> stepped, log |-> log, nal |-> nal,
      vals |-> [v \in 1..nv |-> IF v = 1 /\ kind # "op" THEN axv
                                ELSE [i \in 1..Sum(lens, Len(lens)) |-> Data(v, i, seed)]],
      pars |-> IF log = "no" THEN [s \in 1..Len(lens) |-> [a |-> s, b |-> 0]]
               ELSE [s \in 1..Len(lens) |-> [a |-> (s + seed) % 2, b |-> ((s - 1) \div 2) + 1]]]
MkSome(q, dia, kind, steps, log, seed, nv) ==
  LET stepped == steps > 1 \/ (seed % 7 = 0 /\ dia \in {"ltspice", "qspice"} /\ q = 1)
      lens == IF kind = "op" THEN [i \in 1..steps |-> 1] ELSE IF ~stepped /\ seed % 5 = 0 THEN <<40 + (seed % 7)>>   (* data longer than a header *)
              ELSE [i \in 1..steps |-> 1 + ((seed \div i) % 4)]
  IN MkPlot(kind, dia = "ltspice" /\ kind = "tran", lens, stepped, nv, IF dia = "qspice" /\ nv > 2 THEN 3 ELSE 0, IF stepped THEN log ELSE "yes", seed)
Setup ==
  /\ f.plots = <<>>
  /\ \E dia \in R(Dialects), sto \in R(Storages), np \in R(1..MaxPlots), ns \in R(1..MaxSteps), seed \in R(1..1000),
        k1 \in R(Kinds), k2 \in R(Kinds), k3 \in R(Kinds), log \in R(Logs), nv \in R(1..4), enc \in R({"utf_8", "utf_16_le"}),
        dbl \in R(BOOLEAN), pre \in R({"none", "all", "some", "one"}), cmd \in R(BOOLEAN), cut \in R(Cuts) :
     LET steps == IF dia \in {"ltspice", "qspice"} /\ np = 1 THEN ns ELSE 1
         short == steps > 1 /\ k1 # "op"
         ks == <<k1, k2, k3>>
     IN f' = [plots |-> [q \in 1..np |-> MkSome(q, dia, ks[q], steps, IF log = "short" /\ ~short THEN "yes" ELSE log,
                                             seed * q, IF nv = 1 THEN 2 ELSE nv)],
              dia |-> dia, sto |-> IF sto = "fast" /\ dia # "ltspice" THEN "normal" ELSE sto,
              enc |-> IF sto = "ascii" \/ dia # "ltspice" THEN "utf_8" ELSE enc, dbl |-> dbl, pre |-> pre,
              cmd |-> cmd \/ dia \in {"ltspice", "qspice"}, seed |-> seed, cut |-> cut]
  /\ UNCHANGED h
Op(o) == h' = Append(h, o) /\ UNCHANGED f
P(q) == f.plots[q]
Ready == f.plots # <<>> /\ Len(h) < Depth
Qs == 1..Len(f.plots)
AnyStep(q) == R(0..(Steps(P(q)) - 1))
DoWave == "wave" \in Acts /\ Ready /\ \E q \in Qs : \E v \in R(Names(P(q))), s \in AnyStep(q), how \in R(0..6) :
            Op([op |-> "wave", q |-> q, v |-> v, s |-> s, how |-> how])
DoAxis == "axis" \in Acts /\ Ready /\ \E q \in Qs : \E s \in AnyStep(q) : Op([op |-> "axis", q |-> q, s |-> s])
DoLen == "len" \in Acts /\ Ready /\ \E q \in Qs : \E s \in AnyStep(q) : Op([op |-> "len", q |-> q, s |-> s])
DoTLen == "len" \in Acts /\ Ready /\ \E q \in Qs : \E v \in R(Names(P(q))), s \in AnyStep(q) : Op([op |-> "tlen", q |-> q, v |-> v, s |-> s])
DoPoint == "point" \in Acts /\ Ready /\ \E q \in Qs : \E v \in R(Names(P(q))), s \in AnyStep(q) : \E n \in R(0..(Length(P(q), s) - 1)) :
             Op([op |-> "point", q |-> q, v |-> v, s |-> s, n |-> n])
(* at the points, half way between them, and outside *)
Places(xs) == {xs[i] : i \in 1..Len(xs)} \cup {(xs[i] + xs[i + 1]) \div 2 : i \in 1..(Len(xs) - 1)} \cup {xs[1] - 1, xs[Len(xs)] + 1}
DoAt == "at" \in Acts /\ Ready /\ \E q \in Qs : P(q).axis /\ NVars(P(q)) > 1 /\ \E v \in R(2..NVars(P(q))), s \in AnyStep(q) :
          \E t \in R(Places(Wave(P(q), 1, s))) : Op([op |-> "at", q |-> q, v |-> v, s |-> s, t |-> t])
DoRead == "read" \in Acts /\ Ready /\ \E q \in Qs : \E vs \in R(SUBSET (1..NVars(P(q)))) : Op([op |-> "read", q |-> q, vs |-> vs])
DoExport == "export" \in Acts /\ Ready /\ \E q \in Qs : \E cs \in R(SUBSET Names(P(q))), m \in R(0..2), s \in AnyStep(q), csv \in R({0, 0, 1}) :
              \E z \in AnyStep(q) :
              Op([op |-> IF csv = 1 THEN "csv" ELSE "export", q |-> q, cs |-> cs,
                  ss |-> IF m = 0 THEN <<>> ELSE IF m = 1 THEN <<s>> ELSE <<s, z>>])
DoConvert == "convert" \in Acts /\ Ready /\ \E n \in R(0..4), out \in R({"print", "csv", "csv", "other"}), z \in R(1..9) :
               Op([op |-> "convert", q |-> 1, out |-> out, sep |-> z, ask |-> [i \in 1..n |-> [v |-> RandomElement(Names(P(1))), form |-> RandomElement(IF z = 9 THEN {"unknown"} ELSE {"full", "full", "bare", "unknown"})]]])
DoSteps == "steps" \in Acts /\ Ready /\ \E q \in Qs : \E a \in R(-1..2), b \in R({-1, -1, 1, 2}), z \in R({FALSE, FALSE, FALSE, TRUE}) :
             Op([op |-> "steps", q |-> q, a |-> a, b |-> b, z |-> z])
DoHold == "hold" \in Acts /\ Ready /\ \E q \in Qs : \E v \in R(Names(P(q))) : Op([op |-> "hold", q |-> q, v |-> v])
Held == {i \in 1..Len(h) : h[i].op = "hold"}
DoHWave == "hold" \in Acts /\ Ready /\ Held # {} /\ \E i \in R(Held) : \E s \in AnyStep(h[i].q) :
             Op([op |-> "hwave", at |-> i, q |-> h[i].q, v |-> h[i].v, s |-> s])
DoMissing == "missing" \in Acts /\ Ready /\ \E q \in Qs, how \in R(0..2) : Op([op |-> "missing", q |-> q, how |-> how])
DoNames == "names" \in Acts /\ Ready /\ \E q \in Qs : Op([op |-> "names", q |-> q])
Next == Setup \/ DoWave \/ DoAxis \/ DoLen \/ DoTLen \/ DoPoint \/ DoAt \/ DoRead \/ DoExport \/ DoSteps \/ DoHold \/ DoHWave
        \/ DoMissing \/ DoNames \/ DoConvert
Emit == (f.plots # <<>> /\ Len(h) = Depth) => PrintT(<<"BEH", ToJson([meta |-> f, ops |-> h])>>)
=============================================================================

---------------------------- MODULE RawWriteGen ----------------------------
EXTENDS RawWrite, TLC, Json, Randomization
CONSTANTS Depth, Acts, Kinds, Dialects, MaxSources
VARIABLES f, w, h
vars == <<f, w, h>>
R(S) == {RandomElement(S)}
Init == f = [src |-> <<>>, ready |-> FALSE] /\ w = W0 /\ h = <<>>
RECURSIVE AxisOf(_, _, _)
AxisOf(a0, n, seed) == IF n = 1 THEN <<a0>>
                       ELSE LET q == AxisOf(a0, n - 1, seed) IN Append(q, q[n - 1] + (IF ((seed \div n) + n) % 3 = 0 THEN 4 ELSE 2))
Data(v, i, seed) == 4 * (((v * 7 + i * 5 + seed * 3) * (i + v + 1)) % 9) - 16
Start(kind) == IF kind = "tran" THEN 0 ELSE 2
MkFile(kind, dia, lens, seed, sto, dbl, neg) ==
  LET ax == [k \in 1..Len(lens) |-> AxisOf(Start(kind), lens[k], seed * k)]
      at(i) == CHOOSE z \in {<<k, j>> : k \in 1..Len(lens), j \in 1..12} : z[2] <= lens[z[1]] /\ Sum(lens, z[1] - 1) + z[2] = i
      n == Sum(lens, Len(lens))
  IN [plots |-> <<[kind |-> kind, axis |-> TRUE, lens |-> lens, stepped |-> Len(lens) > 1, log |-> "yes", nal |-> IF dia = "qspice" THEN 3 ELSE 0,
        vals |-> <<[i \in 1..n |-> LET z == at(i) x == ax[z[1]][z[2]] IN IF neg /\ kind = "tran" /\ z[2] > 1 /\ (i + seed) % 3 = 0 THEN -x ELSE x],
                   [i \in 1..n |-> Data(2, i, seed)], [i \in 1..n |-> Data(3, i, seed)]>>,
        pars |-> [s \in 1..Len(lens) |-> [a |-> s, b |-> 1]]]>>,
      dia |-> dia, sto |-> sto, enc |-> "utf_8", dbl |-> dbl, pre |-> "none", cmd |-> TRUE, seed |-> seed, cut |-> 0]
Setup ==
  /\ ~f.ready
  /\ \E seed \in R(1..1000), fast \in R(BOOLEAN), enc \in R({"utf_8", "utf_16_le"}), k1 \in R(Kinds), k2 \in R(Kinds), mix \in R({FALSE, FALSE, FALSE, TRUE}),
        l1 \in R(4..8), l2 \in R(4..8), l3 \in R(4..8), d1 \in R(Dialects), d2 \in R(Dialects), d3 \in R(Dialects), st \in R({"normal", "ascii"}),
        dbl \in R(BOOLEAN), steps \in R(1..2), near \in R(BOOLEAN) :
       LET m == MaxSources
           ls == <<l1, l2, l3>> ds == <<d1, d2, d3>>
           ks == <<k1, IF mix THEN k2 ELSE k1, k1>>
       IN f' = [ready |-> TRUE, fast |-> fast, enc |-> enc, kind |-> k1, seed |-> seed,
                src |-> [i \in 1..m |-> MkFile(ks[i], ds[i],
                            IF steps = 2 /\ ds[i] \in {"ltspice", "qspice"} THEN <<ls[i], ls[(i % m) + 1]>> ELSE <<ls[i]>>, seed * i, st, dbl, ds[i] = "ltspice")]]
  /\ UNCHANGED <<w, h>>
Ready == f.ready /\ Len(h) < Depth
Op(o, outs) == \E x \in outs : w' = x.s /\ h' = Append(h, o) /\ UNCHANGED f
Pl(i) == f.src[i].plots[1]
DoAdd == "add" \in Acts /\ Ready /\ Len(w.tr) < 6 /\ \E n \in R(1..8), num \in R({"real", "double"}), bad \in R({0, 0, 0, 0, 1}), pass \in {1} :
           LET kind == IF w.kind = "" THEN f.kind ELSE w.kind
               y == IF w.kind = "" THEN (IF HasAxis(kind) THEN AxisOf(Start(kind), IF "align" \in Acts THEN (n % 4) + 4 ELSE n, f.seed)
                                         ELSE [i \in 1..n |-> Data(7, i, f.seed)])
                    ELSE [i \in 1..(Len(w.ax) + bad) |-> Data(Len(h) + 3, i, f.seed)]
           IN ~w.pend /\ Op([op |-> "add", kind |-> kind, y |-> y, n |-> 1000 + Len(h), num |-> num], Add(w, kind, y, 1000 + Len(h)))
DoImport == "import" \in Acts /\ Ready /\ Len(w.tr) < 6 /\ \E i \in R(1..Len(f.src)), al \in R(BOOLEAN), two \in R(BOOLEAN), tag \in R(0..2) :
              Pl(i).kind # "op" /\ \E s \in R(0..(Steps(Pl(i)) - 1)), v \in R(2..(NVars(Pl(i)) + Pl(i).nal)) :
              LET align == al /\ "align" \in Acts
                  vs == IF two THEN <<v, IF v = 2 THEN 3 ELSE 2>> ELSE <<v>>
                  outs == Import(w, Pl(i), s, vs, tag, i, align)
              IN /\ \A t \in {w.tr[j] : j \in 1..Len(w.tr)} : t.n < 1000 => \A j \in 1..Len(vs) : <<t.n % 100, t.tag>> # <<vs[j], tag>>
                 /\ (w.kind # "" /\ align /\ Complex(w.kind) = Complex(Pl(i).kind) => w.kind = Pl(i).kind /\ \A o \in outs : Len(o.s.ax) >= 3)
                 /\ (w.kind # "" => w.kind = Pl(i).kind \/ Complex(w.kind) # Complex(Pl(i).kind))
                 /\ (w.pend => align)
                 /\ Op([op |-> "import", src |-> i, s |-> s, vs |-> vs, tag |-> tag, align |-> align], outs)
DoSave == Ready /\ w.kind # "" /\ (HasAxis(w.kind) => Len(w.tr) > 0) /\ \E fast \in R(BOOLEAN) :
            Op([op |-> "save", fast |-> fast], {Outcome(Save(w), "ok")})
DoSource == "import" \in Acts /\ Ready /\ \E i \in R(1..Len(f.src)) : \E v \in R(Names(Pl(i))), s \in R(0..(Steps(Pl(i)) - 1)) :
              Op([op |-> "source", src |-> i, v |-> v, s |-> s], {Outcome(w, "ok")})
Next == Setup \/ DoAdd \/ DoImport \/ DoSave \/ DoSource
Emit == (f.ready /\ Len(h) = Depth) => PrintT(<<"BEH", ToJson([meta |-> f, ops |-> h])>>)
=============================================================================

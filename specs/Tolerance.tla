---------------------------- MODULE Tolerance ----------------------------
(* Tolerance analyses (worst case, fast worst case, quick sensitivity, Monte Carlo): what each of their simulations is.
   A circuit has components (in the order of the netlist) and parameters; values are integers, 0 stands for an expression
   ({2*p1}). The nominal circuit is the one in the file with the changes the user gave to the analysis. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL SX == INSTANCE SequencesExt
Prefixes == <<"R", "C", "L", "V", "I">>
Abs(x) == IF x < 0 THEN -x ELSE x
SetOf(s) == {s[i] : i \in 1..Len(s)}
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

(* st: val (of components), par (of parameters), dev (devices with a deviation of their own, in the order given),
   def (deviation of a kind of component), pdev (deviations of parameters, in the order given)
   a deviation: [typ |-> "tol", lo |-> percent, hi |-> 0, dist], [typ |-> "mm", lo, hi, dist] or [typ |-> "none", ...] *)
None == [typ |-> "none", lo |-> 0, hi |-> 0, dist |-> "uniform"]
Put(s, n, d) == IF \E i \in 1..Len(s) : s[i].n = n THEN [i \in 1..Len(s) |-> IF s[i].n = n THEN [n |-> n, d |-> d] ELSE s[i]]
                ELSE Append(s, [n |-> n, d |-> d])
Has(s, n) == \E i \in 1..Len(s) : s[i].n = n
Of(s, n) == s[IndexOf([i \in 1..Len(s) |-> s[i].n], n)].d
Start(cfg) == [val |-> [r \in {cfg.comps[i].ref : i \in 1..Len(cfg.comps)} |-> (CHOOSE i \in 1..Len(cfg.comps) : cfg.comps[i].ref = r)],
               par |-> [p \in {cfg.pars[i].n : i \in 1..Len(cfg.pars)} |-> cfg.pars[IndexOf([i \in 1..Len(cfg.pars) |-> cfg.pars[i].n], p)].val],
               dev |-> <<>>, def |-> [p \in SetOf(Prefixes) |-> None], pdev |-> <<>>]
Begin(cfg) == LET s == Start(cfg) IN [s EXCEPT !.val = [r \in DOMAIN s.val |-> cfg.comps[s.val[r]].val]]

Low(v, d) == IF d.typ = "tol" THEN (v * (100 - d.lo)) \div 100 ELSE d.lo
High(v, d) == IF d.typ = "tol" THEN (v * (100 + d.lo)) \div 100 ELSE d.hi
Elem(n, v, d) == [n |-> n, nom |-> v, lo |-> Low(v, d), hi |-> High(v, d), dist |-> d.dist]
(* the elements that vary: with a deviation and a numeric value; a deviation of its own goes before that of its kind *)
DevOf(cfg, st, c) == IF st.val[c.ref] = 0 THEN None ELSE IF Has(st.dev, c.ref) THEN Of(st.dev, c.ref)
                     ELSE IF c.pre \in DOMAIN st.def THEN st.def[c.pre] ELSE None
All(cfg, st) == LET cs == SelectSeq(cfg.comps, LAMBDA c : DevOf(cfg, st, c).typ # "none") IN
                [i \in 1..Len(cs) |-> Elem(cs[i].ref, st.val[cs[i].ref], DevOf(cfg, st, cs[i]))] \o
                [i \in 1..Len(st.pdev) |-> Elem(st.pdev[i].n, st.par[st.pdev[i].n], st.pdev[i].d)]
Elems(cfg, st) == SelectSeq(All(cfg, st), LAMBDA e : e.lo # e.hi)
Names(es) == {es[i].n : i \in 1..Len(es)}
ElemOf(es, n) == es[IndexOf([i \in 1..Len(es) |-> es[i].n], n)]

(* the values in a simulation: over is a function of the names of some of the elements *)
Nominal(st) == [n \in DOMAIN st.val \cup DOMAIN st.par |-> IF n \in DOMAIN st.par THEN st.par[n] ELSE st.val[n]]
Values(st, over) == LET raw == [n \in DOMAIN st.val \cup DOMAIN st.par |-> IF n \in DOMAIN over THEN over[n] ELSE Nominal(st)[n]]
                    IN  [n \in DOMAIN raw |-> IF n \in DOMAIN st.val /\ raw[n] = 0 THEN 2 * raw["p1"] ELSE raw[n]]
NomValues(st) == Values(st, [n \in {} |-> 0])
RECURSIVE Sum(_, _)
Sum(ts, v) == IF ts = <<>> THEN 0 ELSE Head(ts).a * (v[Head(ts).n] \div 10) + Sum(Tail(ts), v)
(* the measurement of the stand-in simulator *)
RECURSIVE Products(_, _)
Products(ts, v) == IF ts = <<>> THEN 0 ELSE LET t == Head(ts) IN t.w * ((v[t.p] - t.d) \div 10) * ((v[t.q] - t.d) \div 10) + Products(Tail(ts), v)
F(cfg, v) == LET s == Sum(cfg.f, v) + Products(cfg.x, v) IN IF cfg.m = 0 THEN s ELSE s % cfg.m
AtBounds(es, up) == [n \in Names(es) |-> IF n \in up THEN ElemOf(es, n).hi ELSE ElemOf(es, n).lo]

(* worst case: the nominal circuit and every combination of bounds, from all minimal to all maximal, each element
   controlled by a bit of the number of the run *)
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Bit(k, i) == (k \div Pow(i)) % 2
IsWorstCase(st, es, rs) ==
  LET n == Len(es) IN
  /\ Len(rs) = Pow(n) + 1 /\ \A i \in 1..Len(rs) : rs[i].run = i - 2
  /\ rs[1].vals = NomValues(st)
  /\ \A i \in 2..Len(rs) : \A e \in SetOf(es) : rs[i].vals[e.n] \in {e.lo, e.hi}
  /\ \A i \in 2..Len(rs) : rs[i].vals = Values(st, [x \in Names(es) |-> rs[i].vals[x]])
  /\ \A e \in SetOf(es) : \E b \in 0..(n - 1) : \A i \in 2..Len(rs) : rs[i].vals[e.n] = IF Bit(i - 2, b) = 1 THEN e.hi ELSE e.lo
  /\ Cardinality({rs[i].vals : i \in 2..Len(rs)}) = Pow(n)
(* quick sensitivity: the nominal circuit and each element alone at one and the same of its bounds; elements without
   tolerance (all: elements, es: those that vary) may be there or not *)
IsOneAtATime(st, all, es, rs, which) ==
  /\ Len(rs) >= Len(es) + 1 /\ Len(rs) <= Len(all) + 1 /\ \A i \in 1..Len(rs) : rs[i].run = i - 2
  /\ rs[1].vals = NomValues(st)
  /\ \A i \in 2..Len(rs) : \E e \in SetOf(all), up \in which : rs[i].vals = Values(st, [x \in {e.n} |-> IF up THEN e.hi ELSE e.lo])
  /\ \A e \in SetOf(es) : LET k == Cardinality({i \in 2..Len(rs) : rs[i].vals[e.n] # e.nom})
                          IN  k <= 1 /\ (e.lo # e.nom /\ e.hi # e.nom => k = 1)
(* Monte Carlo by formulas: nominal in run -1; otherwise with the random function of its distribution at -1, 0, 1 *)
IsMonteCarloRun(st, all, r) ==
  IF r.run < 0 THEN \A j \in 1..5 : r.draws[j] = NomValues(st)
  ELSE \A j \in 1..5 : r.draws[j] = Values(st, [x \in Names(all) |->
         LET e == ElemOf(all, x) u == IF e.dist = "uniform" THEN <<0, -1, 1, 0, 0>>[j] ELSE <<0, 0, 0, -1, 1>>[j]
         IN  IF u = 0 THEN (e.lo + e.hi) \div 2 ELSE IF u = 1 THEN e.hi ELSE e.lo])
(* sensitivities: the share of an element in the sum of the changes it makes *)
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
(* worst case: for each pair of runs that differ in that element only *)
Diffs(rs, es, n) ==
  LET low == {i \in 2..Len(rs) : rs[i].vals[n] = ElemOf(es, n).lo}
      mate(i) == CHOOSE j \in 2..Len(rs) : rs[j].vals[n] # rs[i].vals[n] /\ \A x \in Names(es) \ {n} : rs[j].vals[x] = rs[i].vals[x]
  IN  [i \in low |-> Abs(rs[mate(i)].m - rs[i].m)]
Squares(f) == [x \in DOMAIN f |-> f[x] * f[x]]
(* percent in tenths *)
IsShare(p, part, total) == IF total = 0 THEN p = 0 ELSE Abs(p * total - 1000 * part) <= total
(* standard deviation of the changes d over the total of the means (total: of the sums), in tenths of percent *)
IsDeviation(s, d, total) ==
  LET S == SumOver(DOMAIN d, d) Q == SumOver(DOMAIN d, Squares(d)) L == Cardinality(DOMAIN d)
      w == (s * total) \div 1000 e == total \div 1000 + 2 v == L * Q - S * S
  IN  IF total = 0 THEN s = 0 ELSE /\ (w + e) * (w + e) >= v /\ (w <= e \/ (w - e) * (w - e) <= v)
=============================================================================

---------------------------- MODULE ToleranceGen ----------------------------
(* Behaviours: a circuit, one analysis object and what is done with it. *)
EXTENDS Tolerance, TLC, Json, Randomization
CONSTANTS Depth, Class, Big
VARIABLES cfg, st, h, prep, fresh, meas, last
vars == <<cfg, st, h, prep, fresh, meas, last>>
R(S) == {RandomElement(S)}
Refs == {"R1", "R2", "R3", "R10", "C1", "C2", "L1", "V1", "I1"}
PreOf(r) == IF r \in {"R1", "R2", "R3", "R10"} THEN "R" ELSE IF r \in {"C1", "C2"} THEN "C" ELSE IF r = "L1" THEN "L" ELSE IF r = "V1" THEN "V" ELSE "I"
Init == /\ cfg = [cls |-> Class, comps |-> <<>>, pars |-> <<>>, f |-> <<>>, x |-> <<>>, m |-> 0, builtin |-> FALSE]
        /\ st = Begin(cfg) /\ h = <<>> /\ prep = FALSE /\ fresh = 0 /\ meas = FALSE /\ last = 0
Used == {cfg.comps[i].ref : i \in 1..Len(cfg.comps)}
Val == {100, 200, 300}
(* elements that change the direction in which others act *)
Term == [p |-> cfg.comps[RandomElement(1..Len(cfg.comps))].ref, q |-> cfg.comps[RandomElement(1..Len(cfg.comps))].ref, w |-> RandomElement({1, -1, 2, -3}), d |-> RandomElement({90, 100, 110, 200, 190, 300, 310})]
Cross == [i \in 1..RandomElement(1..4) |-> Term]
Most == IF Class = "fwc" THEN 5 ELSE 6
MkComp == /\ cfg.pars = <<>> /\ Len(cfg.comps) < Most
          /\ \E r \in R(Refs \ Used), v \in R(Val), z \in R(1..8), u \in R(1..5), s \in R(1..5), a \in R(-3..3) :
               cfg' = [cfg EXCEPT !.comps = Append(@, [ref |-> r, pre |-> PreOf(r), val |-> IF z = 1 THEN 0 ELSE v, u |-> u, s |-> s]), !.f = Append(@, [n |-> r, a |-> a])]
MkPar == /\ Len(cfg.comps) >= 3 /\ Len(cfg.pars) < 2 /\ (Len(cfg.comps) = Most \/ cfg.pars # <<>> \/ RandomElement(1..3) = 1)
         /\ \E v \in R(Val), a \in R(-3..3), x \in R(1..3), y \in R(1..2), z \in R(1..3), b \in R(BOOLEAN) : LET n == IF cfg.pars = <<>> THEN "p1" ELSE "p2" IN
              cfg' = [cfg EXCEPT !.pars = Append(@, [n |-> n, val |-> v]), !.f = Append(@, [n |-> n, a |-> a]),
                                 !.x = IF z = 1 THEN <<[p |-> cfg.comps[x].ref, q |-> IF y = 1 THEN "p1" ELSE cfg.comps[(x % Len(cfg.comps)) + 1].ref, w |-> 1, d |-> 0]>> ELSE IF Class = "fwc" THEN Cross ELSE <<>>, !.m = IF Class = "fwc" THEN RandomElement({0, 13, 29, 97}) ELSE 0, !.builtin = b]
Made == Len(cfg.pars) = 2
Make == ~Made /\ (MkComp \/ MkPar) /\ st' = Begin(cfg') /\ UNCHANGED <<h, prep, fresh, last>> /\ meas' = cfg'.builtin
Op(o) == h' = Append(h, o)
More == Made /\ Len(h) < Depth
E == Elems(cfg, st)
MaxE == IF Class = "wc" THEN 5 ELSE 6
Fits(s) == Len(Elems(cfg, s)) <= MaxE
Tols == {10, 20, 30, 0}
Dist == IF Class = "mc" THEN {"uniform", "uniform", "normal"} ELSE {"uniform"}
SetTol == ~prep /\ \E r \in R(Used \cup SetOf(Prefixes)), t \in R(Tols), d \in R(Dist), many \in R(BOOLEAN) :
            LET v == [typ |-> "tol", lo |-> t, hi |-> 0, dist |-> d]
                s == IF r \in SetOf(Prefixes) THEN [st EXCEPT !.def[r] = v] ELSE [st EXCEPT !.dev = Put(@, r, v)]
            IN  /\ IF Fits(s) THEN st' = s /\ Op([op |-> "settol", n |-> r, t |-> t, dist |-> d, many |-> many])
                   ELSE UNCHANGED st /\ Op([op |-> "addins", i |-> t % 10])
                /\ UNCHANGED <<cfg, prep, meas, last>> /\ fresh' = 0
SetDev == ~prep /\ \E r \in R(Used \cup {"p1", "p2"}), lo \in R((4..20) \cup {1001, 1234, 2222}), w \in R(1..15), d \in R(Dist) :
            LET p == r \in {"p1", "p2"} now == IF p THEN st.par[r] ELSE st.val[r]
                v == IF w = 15 /\ now > 0 THEN [typ |-> "mm", lo |-> now, hi |-> now + 10 * w, dist |-> d]
                     ELSE IF w = 14 /\ now > 0 THEN [typ |-> "mm", lo |-> now - 10 * ((lo % 9) + 1), hi |-> now, dist |-> d]
                     ELSE [typ |-> "mm", lo |-> 10 * lo, hi |-> 10 * (lo + w), dist |-> d]
                s == IF p THEN [st EXCEPT !.pdev = Put(@, r, v)] ELSE [st EXCEPT !.dev = Put(@, r, v)]
            IN  /\ IF Fits(s) THEN st' = s /\ Op([op |-> IF p THEN "setpar" ELSE "setdev", n |-> r, lo |-> v.lo, hi |-> v.hi, dist |-> d])
                   ELSE UNCHANGED st /\ Op([op |-> "addins", i |-> w % 10])
                /\ UNCHANGED <<cfg, prep, meas, last>> /\ fresh' = 0
SetVal == ~prep /\ \E r \in R(Used \cup {"p1", "p2"}), v \in R(Val), s \in R(1..5), z \in R(1..8) :
            LET p == r \in {"p1", "p2"} x == IF z = 1 /\ ~p THEN 0 ELSE v
                n == IF p THEN [st EXCEPT !.par[r] = x] ELSE [st EXCEPT !.val[r] = x]
            IN  /\ IF Fits(n) THEN st' = n /\ Op([op |-> IF p THEN "setparam" ELSE "setval", n |-> r, v |-> x, s |-> s])
                   ELSE UNCHANGED st /\ Op([op |-> "addins", i |-> s])
                /\ UNCHANGED <<cfg, prep, meas, last>> /\ fresh' = 0
AddIns == \E i \in R(1..9) : Op([op |-> "addins", i |-> i]) /\ UNCHANGED <<cfg, st, prep, meas, fresh, last>>
RemIns == \E i \in R({0, 0, 1, 2, 3}) : Op([op |-> "remins", i |-> i]) /\ UNCHANGED <<cfg, st, prep, meas, fresh, last>>
Meas == ~meas /\ Op([op |-> "meas"]) /\ meas' = TRUE /\ UNCHANGED <<cfg, st, prep, fresh, last>>
(* the number of runs of a Monte Carlo testbench is kept *)
Prep == ~prep /\ E # <<>> /\ Class # "fwc" /\ (Class = "mc" \/ RandomElement(1..3) = 1) /\ \E n \in R(1..9), m \in R(BOOLEAN) : Op([op |-> "prep", n |-> n, min |-> m]) /\ prep' = TRUE /\ fresh' = 0 /\ UNCHANGED <<cfg, st, meas>>
          /\ last' = IF Class = "mc" THEN n ELSE last
CanPrep == prep \/ (E # <<>> /\ (Class = "mc" => last > 0))
Save == CanPrep /\ Op([op |-> "save"]) /\ prep' = TRUE /\ fresh' = (IF prep THEN fresh ELSE 0) /\ UNCHANGED <<cfg, st, meas, last>>
Bench == CanPrep /\ meas /\ Class # "fwc" /\ \E r \in R({2, 3, 4, 5, 8, 512, 512}), cb \in R(1..3), f \in R({0, 0, 0, 1, 2, 3}) :
           Op([op |-> "bench", rps |-> r, cb |-> cb = 1, fail |-> IF cb = 1 THEN 0 ELSE f, named |-> FALSE]) /\ prep' = TRUE /\ fresh' = (IF f = 0 \/ cb = 1 THEN 1 ELSE 3) /\ UNCHANGED <<cfg, st, meas, last>>
NoBench == Class = "fwc" /\ RandomElement(1..6) = 1 /\ Op([op |-> "nobench"]) /\ UNCHANGED <<cfg, st, prep, fresh, meas, last>>
Analysis == meas /\ (Class # "fwc" \/ Len(E) > 2 \/ RandomElement(1..6) = 1) /\ (E # <<>> \/ (Class # "fwc" /\ RandomElement(1..5) = 1)) /\ \E cb \in R(1..3), f \in R({0, 0, 1, 2, 3, 4}), m \in R({0, 0, 1, 2, 3, 5}), n \in R(IF Big THEN {300} ELSE 6..9) :
              LET clean == Class = "fwc" \/ cb = 1 \/ Len(E) < 2 IN
              Op([op |-> "analysis", cb |-> cb = 1, fail |-> IF clean THEN 0 ELSE f, miss |-> IF clean THEN 0 ELSE m, n |-> n])
              /\ prep' = FALSE /\ fresh' = (IF Class = "fwc" THEN 0 ELSE IF clean \/ (f = 0 /\ m = 0) THEN 2 ELSE 4) /\ UNCHANGED <<cfg, st, meas, last>>
(* fresh: 1 results of a testbench, 2 of an analysis, 3 and 4 the same with failures *)
Asking == fresh > 0 /\ ~(Len(h) > 1 /\ h[Len(h)].op = "value" /\ h[Len(h) - 1].op = "value")
Query == Asking /\ \E q \in R({"value", "sens", "sens", "minmax", "all"}), k \in R(-1..12), n \in R({"*"} \cup Names(E)) :
           LET o == IF q = "sens" /\ (\A x \in SetOf(E) : x.hi < 1000) /\ fresh \in {1, 2} /\ Class \in {"wc", "qs"} /\ E # <<>> THEN [op |-> "sens", n |-> n]
                    ELSE IF q = "minmax" /\ Class = "wc" /\ fresh \in {2, 4} THEN [op |-> "minmax"]
                    ELSE IF q = "all" /\ Class = "mc" /\ fresh \in {2, 4} THEN [op |-> "all"]
                    ELSE [op |-> "value", k |-> k]
           IN Op(o) /\ UNCHANGED <<cfg, st, prep, fresh, meas, last>>
Reset == /\ Op([op |-> "reset"]) /\ st' = [st EXCEPT !.val = Begin(cfg).val, !.par = Begin(cfg).par] /\ Fits(st')
         /\ prep' = FALSE /\ fresh' = 0 /\ meas' = cfg.builtin /\ UNCHANGED <<cfg, last>>
ResetTol == (\A p \in SetOf(Prefixes) : st.def[p].typ = "none" \/ st.def[p].lo = 0) /\ (st.dev # <<>> \/ st.pdev # <<>>) /\ Op([op |-> "resettol"])
            /\ st' = [st EXCEPT !.dev = <<>>, !.pdev = <<>>] /\ prep' = FALSE /\ fresh' = 0 /\ last' = 0 /\ UNCHANGED <<cfg, meas>>
Few(n) == RandomElement(1..n) = 1
Next == \/ Make
        \/ \E z \in R(1..3) : More /\ IF Asking /\ z > 1 THEN Query
                     ELSE IF Class = "fwc" /\ meas /\ Len(E) > 2 /\ z > 1 THEN (IF h[Len(h)].op = "analysis" THEN (SetVal \/ SetDev) ELSE Analysis)
                     ELSE (SetTol \/ SetDev \/ SetVal \/ (Few(2) /\ AddIns) \/ (Few(3) /\ RemIns) \/ Meas \/ Prep \/ Save \/ Bench \/ NoBench \/ Analysis
                           \/ Query \/ (Few(3) /\ Reset) \/ (Few(4) /\ ResetTol))
Emit == Made /\ Len(h) = Depth => PrintT(<<"BEH", ToJson([meta |-> cfg, ops |-> h])>>)
=============================================================================

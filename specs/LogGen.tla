---------------------------- MODULE LogGen ----------------------------
(* Behaviours: a log is made up, then asked about in some order. *)
EXTENDS Log, TLC, Json, Randomization, SequencesExt
CONSTANTS Depth, Acts, Dialects, Forms, MaxN, Gaps
VARIABLES f, h
vars == <<f, h>>
R(S) == {RandomElement(S)}
Init == f = [n |-> -1] /\ h = <<>>
MeasNames == <<"vout_rms", "gain", "t1", "fcut">>
VarNames == <<"a", "r1", "temp2">>
Data(c, s, seed) == (((c * 7 + s * 5 + seed) * (s + c + 3)) % 61) - 30
Same(c, s, seed) == (seed \div (c * s + 1)) % 3
Suffix(dia, kind, j) == IF j = 1 THEN "" ELSE IF dia = "qspice" THEN (IF j = 2 THEN "_1" ELSE "_2")
                        ELSE IF kind = "at" THEN "_at" ELSE IF j = 2 THEN "_from" ELSE "_to"
Width(kind) == CASE kind = "" -> 1 [] kind = "at" -> 2 [] OTHER -> 3
(* values that repeat in some columns, so that they serve as conditions *)
Value(form, c, j, s, seed) ==
  IF form = "real" THEN <<IF (c + j + seed) % 3 = 0 THEN Same(c + j, s, seed) ELSE Data(c + 4 * j, s, seed), 0>>
  ELSE IF form = "cart" THEN <<Data(c, s, seed), Data(c + 5, s, seed)>>
  ELSE IF form = "db" THEN <<Data(c, s, seed), 2 * Data(c + 5, s, seed)>>
  ELSE <<1 + Data(c, s, seed) * Data(c, s, seed), 2 * Data(c + 5, s, seed)>>
Gap(gaps, c, s, n, seed) == gaps /\ n > 1 /\ (seed + c) % 4 < 2 /\ (seed * (c + 2) + s * 3) % 3 = 0 /\ s # (seed % n) + 1
MkMeas(dia, kinds, forms, c, n, gaps, seed) ==
  LET kind == kinds[((seed + c) % Len(kinds)) + 1] form == forms[((seed \div 3 + c) % Len(forms)) + 1] IN
  [name |-> MeasNames[c], kind |-> kind, form |-> form,
   cols |-> [j \in 1..Width(kind) |->
     [name |-> MeasNames[c] \o Suffix(dia, kind, j), form |-> IF j = 1 THEN form ELSE "real",
      vals |-> [s \in 1..(IF n = 0 THEN 1 ELSE n) |->
                 IF Gap(gaps, c, s, n, seed) THEN <<>> ELSE Value(IF j = 1 THEN form ELSE "real", c, j, s, seed)]]]]
Setup ==
  /\ f.n = -1
  /\ \E dia \in R(Dialects), n \in R(0..MaxN), nm \in R(1..4), nv \in R(1..3), seed \in R(1..2000), gaps \in R(Gaps),
        form \in R(Forms), enc \in R({"utf_8", "utf_16", "utf_16_le", "cp1252"}), crlf \in R(BOOLEAN), head \in R(0..3),
        how \in R(0..9), unit \in R(0..3) :
     LET m == IF dia = "mout" /\ n = 0 THEN 2 ELSE n
         forms == IF dia = "qspice" THEN <<"real">> ELSE <<form, "real", form>>
         ms == [c \in 1..nm |-> MkMeas(dia, <<"", "at", "ft">>, forms, c, m, gaps, seed)]
     IN f' = [n |-> m, dia |-> dia, enc |-> IF dia = "qspice" THEN "utf_8" ELSE enc, crlf |-> crlf, head |-> head, how |-> how, unit |-> unit,
              vars |-> IF m = 0 THEN <<>>
                       ELSE [k \in 1..nv |-> [name |-> VarNames[k], vals |-> [s \in 1..m |-> IF k = 1 /\ seed % 2 = 0 THEN s ELSE Same(k, s, seed)]]],
              meas |-> [c \in 1..nm |-> [name |-> ms[c].name, kind |-> ms[c].kind, form |-> ms[c].form, w |-> Len(ms[c].cols)]],
              cols |-> FlattenSeq([c \in 1..nm |-> ms[c].cols])]
  /\ UNCHANGED h
Op(o) == h' = Append(h, o) /\ UNCHANGED f
Ready == f.n # -1 /\ Len(h) < Depth
Meas == 1..Len(f.cols)
All == 1..(Len(f.cols) + Len(f.vars))
AnyOf == R(0..(Rows(f) - 1))
Reals == {c \in All : Col(f, c).form = "real"}
DoNames == "names" \in Acts /\ Ready /\ Op([op |-> "names"])
DoCol == "col" \in Acts /\ Ready /\ \E c \in R(All) : Op([op |-> "col", c |-> c])
DoValue == "value" \in Acts /\ Ready /\ \E c \in R(Meas), s \in R(-1..Rows(f)) : Op([op |-> "value", c |-> c, s |-> s])
(* a condition that some step meets, most of the time *)
DoCond == "cond" \in Acts /\ Ready /\ Reals # {} /\ \E c \in R(Meas), d \in R(Reals), e \in R(Reals), s \in AnyOf, z \in AnyOf, two \in R(BOOLEAN), val \in R(BOOLEAN), vv \in R(0..9) :
    LET of(x, t) == LET q == Col(f, x).vals[t + 1] IN IF q = <<>> THEN 1 ELSE q[1]
        k1 == [c |-> d, v |-> of(d, s)]
        k2 == [c |-> e, v |-> IF vv = 0 THEN 77 ELSE of(e, IF vv < 6 THEN s ELSE z)]
    IN Op([op |-> IF val THEN "vcond" ELSE "cond", c |-> c, cs |-> IF two /\ d # e THEN <<k1, k2>> ELSE <<IF vv = 1 THEN k2 ELSE k1>>])
DoAt == "at" \in Acts /\ Ready /\ \E c \in R(Meas), m \in R(0..3), s \in AnyOf, z \in AnyOf :
    Op([op |-> "at", c |-> c, all |-> m = 0, ss |-> IF m = 0 THEN Steps(f) ELSE IF m = 1 THEN <<s>> ELSE <<s, z>>])
DoStat == "stat" \in Acts /\ Ready /\ Reals \cap Meas # {} /\ \E c \in R(Reals \cap Meas), m \in R(0..3), s \in AnyOf, z \in AnyOf, w \in R({"max", "min", "avg"}) :
    Op([op |-> "stat", w |-> w, c |-> c, all |-> m = 0, ss |-> IF m = 0 THEN Steps(f) ELSE IF m = 1 THEN <<s>> ELSE <<s, z>>])
DoExport == "export" \in Acts /\ Ready /\ \E x \in R(1..2), p \in R(0..3), sep \in R({"tab", "tab", "semi", "bar"}), term \in R({"lf", "lf", "crlf"}) :
    Op([op |-> "export", x |-> x, p |-> p, sep |-> sep, term |-> term])
DoScript == "script" \in Acts /\ Ready /\ f.dia # "qspice" /\ \E z \in R(0..4) : z = 0 /\ Op([op |-> "script"])
DoSplit == "split" \in Acts /\ Ready /\ \E z \in R(0..2) : z = 0 /\ Op([op |-> "split"])
DoUnknown == "unknown" \in Acts /\ Ready /\ \E k \in R(0..4) : Op([op |-> "unknown", k |-> k])
DoSteps == "steps" \in Acts /\ Ready /\ Op([op |-> "steps"])
Next == Setup \/ DoNames \/ DoCol \/ DoValue \/ DoCond \/ DoAt \/ DoStat \/ DoExport \/ DoScript \/ DoSplit \/ DoUnknown \/ DoSteps
Emit == (f.n # -1 /\ Len(h) = Depth) => PrintT(<<"BEH", ToJson([meta |-> f, ops |-> h])>>)
=============================================================================

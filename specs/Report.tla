---------------------------- MODULE Report ----------------------------
(* Three more kinds of text that LTspice writes, and what their readers answer.

   Fourier analyses in a log. The content: n steps (0 = not stepped), vars as in Log, and a sequence of analyses
     [step, signal, nper (-1 = all), dc, phd, thd (-1 = not printed), harm: sequence of <<number, frequency, component,
      normalised component, phase, normalised phase>>]
   Waveforms exported as text. The content: n runs (0 = not stepped), vars, heads (names of the columns), forms, and for
   every run its rows, each a sequence of values <<x, y>>.
   Operating points of semiconductors. The content: sections [title, blocks], blocks [devs, params: name and one value
   per device]; a later value for the same parameter of the same device replaces an earlier one. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL SX == INSTANCE SequencesExt


(* ---- Fourier *)
Signals(f) == {f.ana[i].signal : i \in 1..Len(f.ana)}
Of(f, s) == SelectSeq(f.ana, LAMBDA a : a.signal = s)
Fundamental(a) == a.harm[1][2]
VarsAt(f, step) == IF f.n = 0 THEN <<>> ELSE [k \in 1..Len(f.vars) |-> f.vars[k].vals[step + 1]]
Summary(f) == {[vs |-> VarsAt(f, a.step), signal |-> a.signal, nper |-> a.nper, dc |-> a.dc, fund |-> Fundamental(a),
                n |-> Len(a.harm), phd |-> a.phd, thd |-> a.thd] : a \in SX!ToSet(f.ana)}
Harmonics(f) == UNION {{[vs |-> VarsAt(f, a.step), signal |-> a.signal, nper |-> a.nper, h |-> a.harm[i]] : i \in 1..Len(a.harm)} : a \in SX!ToSet(f.ana)}

(* ---- exported waveforms *)
Runs(f) == IF f.n = 0 THEN 1 ELSE f.n
Flat(f) == SX!FlattenSeq([r \in 1..Runs(f) |-> [i \in 1..Len(f.rows[r]) |-> [run |-> r, row |-> f.rows[r][i]]]])
DataColumn(f, c) == [i \in 1..Len(Flat(f)) |-> Flat(f)[i].row[c]]
RunColumn(f) == [i \in 1..Len(Flat(f)) |-> Flat(f)[i].run]
VarColumn(f, k) == [i \in 1..Len(Flat(f)) |-> f.vars[k].vals[Flat(f)[i].run]]
(* the reformatted table: the step information as columns of every line *)
Lines(f) == [i \in 1..Len(Flat(f)) |-> [run |-> IF f.n = 0 THEN 0 ELSE Flat(f)[i].run, vs |-> VarsAt(f, Flat(f)[i].run - 1), row |-> Flat(f)[i].row]]

(* ---- operating points *)
Entries(f) == SX!FlattenSeq([s \in 1..Len(f.secs) |-> SX!FlattenSeq([b \in 1..Len(f.secs[s].blocks) |->
                LET bl == f.secs[s].blocks[b] IN
                SX!FlattenSeq([p \in 1..Len(bl.params) |-> [d \in 1..Len(bl.devs) |->
                  [t |-> f.secs[s].title, d |-> bl.devs[d], p |-> bl.params[p].name, v |-> bl.params[p].vals[d]]]])])])
LastOne(q, i) == \A j \in (i + 1)..Len(q) : ~(q[j].t = q[i].t /\ q[j].d = q[i].d /\ q[j].p = q[i].p)
Points(f) == LET q == Entries(f) IN {q[i] : i \in {i \in 1..Len(q) : LastOne(q, i)}}
=============================================================================

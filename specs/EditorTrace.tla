----------------------------- MODULE EditorTrace -----------------------------
(* Recorded editing sessions on the real editor, validated against Editor.  After every operation the driver records
   the saved text (read by an independent parser), everything the API reports, and the journal. *)
EXTENDS Editor, Json
CONSTANT Focus
Traces == JsonDeserialize("traces.json")
VARIABLES tid, l, s, ok
vars == <<tid, l, s, ok>>

ToD(q) == [x \in {q[i].key : i \in 1..Len(q)} |->
             LET e == q[CHOOSE i \in 1..Len(q) : q[i].key = x] IN [c |-> e.c, p |-> e.p, i |-> e.i, m |-> e.m]]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
        /\ s = S0(ToD(Traces[tid].init))

If(c, name) == IF c THEN {} ELSE {name}
Cnt(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cnt(a, a[i]) = Cnt(b, a[i])
SameContent(a, b) == a.c = b.c /\ a.p = b.p /\ SameBag([i \in 1..Len(a.i) |-> a.i[i].t], [i \in 1..Len(b.i) |-> b.i[i].t])
                     /\ SameBag(a.m, b.m)
TextOK(u, e) ==
  LET want == TextOf(u) got == ToD(e.text)
  IN DOMAIN want = DOMAIN got /\ \A k \in DOMAIN want : SameContent(want[k], got[k])
ApiOK(u, e) ==
  LET ps == Paths(u)
  IN {e.api[i].path : i \in 1..Len(e.api)} = ps /\ Len(e.api) = Cardinality(ps)
     /\ \A i \in 1..Len(e.api) :
          LET x == e.api[i]
              w == ContentAt(u, x.path)
              vis == IF x.path = <<>> /\ <<"#INC">> \in DOMAIN u.d THEN u.d[<<"#INC">>].p @@ w.p ELSE w.p
          IN x.c = w.c /\ x.p = vis
JOK(u, e) == e.j = u.j
Kind(e) == e.op \o (IF "path" \in DOMAIN e /\ e.path # <<>> THEN ".sub" ELSE "")

Fails(e) ==
  LET o == IF e.op = "load" THEN Ok(s, "ok") ELSE Outcome(s, e)
      u == o.s k == Kind(e)
  IN [s |-> u,
      f |-> If(e.r = o.r, "reply." \o k) \cup If(e.wf, "text." \o k)
            \cup (IF e.wf THEN If(TextOK(u, e), "text." \o k) ELSE {}) \cup If(ApiOK(u, e), "api." \o k)
            \cup If(JOK(u, e), "journal." \o k) \cup If(e.stable, "stable") \cup If(e.orig, "orig") \cup If(e.misc, "api." \o k)]

Hit(f) == {c \in f : c \in Focus}
Step ==
  /\ l <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l] v == Fails(e) bad == Hit(v.f) IN
       IF bad # {} THEN PrintT(<<"FAIL", tid, l, bad>>) /\ l' = Len(Traces[tid].ev) + 2 /\ ok' = FALSE /\ s' = v.s
       ELSE IF v.f # {} THEN PrintT(<<"CUT", tid, l, v.f>>) /\ l' = Len(Traces[tid].ev) + 1 /\ s' = v.s /\ UNCHANGED ok
       ELSE l' = l + 1 /\ s' = v.s /\ UNCHANGED ok
  /\ UNCHANGED tid
Finish ==
  /\ l = Len(Traces[tid].ev) + 1 /\ ok
  /\ PrintT(<<"DONE", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, s, ok>>
Next == Step \/ Finish
=============================================================================

---------------------------- MODULE RawWrite ----------------------------
(* A RAW file being composed: from user data and from traces of files that were read.

   w = [kind, ax, tr, wait]   kind: kind of the plot ("" until the first trace), ax: the axis as it will be saved,
   tr: the traces [n, tag, ax, y]: origin n with a tag, their own axis and their values there;
   pend: some import asked for axis alignment and nothing was saved since.
   Every trace is the piecewise linear function through its points; saving writes its values on the common axis. *)
EXTENDS Raw
W0 == [kind |-> "", ax |-> <<>>, tr |-> <<>>, pend |-> FALSE]
HasAxis(k) == k # "op"
(* numbers are real, or complex for AC *)
Complex(k) == k = "ac"
(* "op" plots have a first variable, not an axis *)
New(w, kind, y, n) ==
  [w EXCEPT !.kind = kind, !.ax = y, !.tr = IF HasAxis(kind) THEN <<>> ELSE <<[n |-> n, tag |-> 0, ax |-> y, y |-> y]>>]
Fits(w, n) == Len(w.ax) = n
Outcome(s, r) == [s |-> s, r |-> r]
(* the first trace a user adds is the axis *)
Add(w, kind, y, n) ==
  IF w.kind = "" THEN {Outcome(New(w, kind, y, n), "ok")}
  ELSE IF ~Fits(w, Len(y)) THEN {Outcome(w, "IndexError")}
  ELSE {Outcome([w EXCEPT !.tr = Append(@, [n |-> n, tag |-> 0, ax |-> w.ax, y |-> y])], "ok")}
Sorted(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => q[i] < q[j]
RECURSIVE Merge(_, _)
Merge(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
               ELSE IF a[1] = b[1] THEN <<a[1]>> \o Merge(Tail(a), Tail(b))
               ELSE IF a[1] < b[1] THEN <<a[1]>> \o Merge(Tail(a), b) ELSE <<b[1]>> \o Merge(a, Tail(b))
Until(q, x) == SelectSeq(q, LAMBDA z : z <= x)
Min(a, b) == IF a < b THEN a ELSE b
(* the points of both axes, as far as the shorter one goes. The implementation leaves the very end out (its reference
   files are made that way): both are accepted *)
Aligned(a, b) == LET u == Merge(a, b) IN
  {Until(u, Min(a[Len(a)], b[Len(b)])), Until(u, Min(a[Len(a) - 1], b[Len(b) - 1]))}
Imported(p, step, vs, tag, src) ==
  [i \in 1..Len(vs) |-> [n |-> 100 * src + vs[i], tag |-> tag, ax |-> Wave(p, 1, step), y |-> Wave(p, vs[i], step)]]
Import(w, p, step, vs, tag, src, align) ==
  LET new == Imported(p, step, vs, tag, src) ax == Wave(p, 1, step)
  IN IF w.kind = ""
     THEN {Outcome([kind |-> p.kind, ax |-> ax, tr |-> new, pend |-> FALSE], "ok")}
     ELSE IF Complex(w.kind) # Complex(p.kind) THEN {Outcome(w, "ValueError")}
     ELSE IF ~align THEN
       IF w.pend THEN {}   \* not used
       ELSE IF ~Fits(w, Len(ax)) THEN {Outcome(w, "AssertionError")}
       ELSE {Outcome([w EXCEPT !.tr = @ \o [i \in 1..Len(new) |-> [new[i] EXCEPT !.ax = w.ax]]], "ok")}
     ELSE {Outcome([w EXCEPT !.tr = @ \o new, !.ax = a, !.pend = TRUE], "ok") : a \in Aligned(w.ax, ax)}
(* the saved file: a table, the axis first *)
OnAxis(w, t) == [i \in 1..Len(w.ax) |-> Interp(t.ax, t.y, w.ax[i])]
Saved(w) == (IF HasAxis(w.kind) THEN <<[n |-> 0, tag |-> 0, y |-> w.ax]>> ELSE <<>>)
            \o [i \in 1..Len(w.tr) |-> [n |-> w.tr[i].n, tag |-> w.tr[i].tag,
                                         y |-> IF HasAxis(w.kind) THEN OnAxis(w, w.tr[i]) ELSE w.tr[i].y]]
Save(w) == [w EXCEPT !.tr = [i \in 1..Len(w.tr) |-> [w.tr[i] EXCEPT !.ax = w.ax,
                                                       !.y = IF HasAxis(w.kind) THEN OnAxis(w, w.tr[i]) ELSE @]], !.pend = FALSE]
=============================================================================

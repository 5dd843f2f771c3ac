------------------------------ MODULE QschNetMC -----------------------------
(* The nets without a name get one, pin after pin: TLC shows for every small sheet that the names are apart exactly when
   the positions are. Turning a component eight times by 45 degrees, or mirroring it twice, puts its pins where they were
   (with the size of the diagonals).                                                                                  *)
EXTENDS QschNet
CONSTANTS Side, Rots
VARIABLES s, todo, given, next
vars == <<s, todo, given, next>>
Grid == (0..Side) \X (0..Side)
C(r, x, y, rot) == [r |-> r, l |-> "R", k |-> "res", v |-> <<"1k">>, par |-> <<>>, x |-> x, y |-> y, rot |-> rot, on |-> TRUE, lib |-> "", nc |-> {}]
Empty == [c |-> <<>>, w |-> <<>>, n |-> <<>>, t |-> <<>>]
Init == s = Empty /\ todo = <<>> /\ given = {} /\ next = 0
Label == Len(s.n) < 1 /\ s.c = <<>> /\ \E p \in Grid, n \in {"GND", "N01", "out"} : s' = [s EXCEPT !.n = Append(@, [p |-> p, net |-> n])] /\ UNCHANGED <<todo, given, next>>
Place == Len(s.c) < 3 /\ todo = <<>> /\ given = {} /\ \E p \in Grid, rot \in Rots : s' = [s EXCEPT !.c = Append(@, C(<<"R1", "R2", "R3">>[Len(s.c) + 1], p[1], p[2], rot))] /\ UNCHANGED <<todo, given, next>>
Begin == Len(s.c) = 3 /\ todo = <<>> /\ given = {} /\ todo' = [i \in 1..6 |-> <<1 + ((i - 1) \div 2), 1 + (i % 2)>>]
         /\ next' = 1 + (IF "N01" \in Named(s) THEN 1 ELSE 0) /\ UNCHANGED <<s, given>>
Take(p) == CASE Known(s, p) -> <<given \cup {<<p, Ground(CHOOSE n \in NamesAt(s, p) : TRUE)>>}, next>>
             [] \E g \in given : g[1] = p -> <<given, next>>
             [] OTHER -> <<given \cup {<<p, <<"N01", "N02", "N03", "N04", "N05", "N06", "N07">>[next]>>}, next + 1>>
Name == todo # <<>> /\ LET t == Take(PinAt(s.c[todo[1][1]], todo[1][2])) IN given' = t[1] /\ next' = t[2] /\ todo' = Tail(todo) /\ UNCHANGED s
Next == Label \/ Place \/ Begin \/ Name
Spec == Init /\ [][Next]_vars
Done == todo = <<>> /\ given # {}
NameOf(p) == CHOOSE n \in {g[2] : g \in {g \in given : g[1] = p}} : TRUE
Seen == [j \in 1..3 |-> <<s.c[j].r, NameOf(PinAt(s.c[j], 1)), NameOf(PinAt(s.c[j], 2)), "1k">>]
InvRight == Done => Wrong([main |-> s], "main", [c |-> Seen, t |-> <<>>, lib |-> <<>>, emb |-> <<>>, sub |-> <<>>, ends |-> 1], TRUE) = {}
InvOne == \A a, b \in given : a[1] = b[1] => a = b
InvTurn == \A p \in (-2..2) \X (-2..2), k \in 0..7 : /\ Turn(4, Turn(4, p)) = p /\ Turn(2, Turn(6, p)) = p
                                                     /\ (k < 6 => Turn(2, Turn(k, p)) = Turn(k + 2, p))
                                                     /\ Turn(1, Turn(1, p)) = <<2 * Quarter(p)[1], 2 * Quarter(p)[2]>>
                                                     /\ Oriented(k + 8, p) = <<0 - Oriented(k, p)[1], Oriented(k, p)[2]>>
=============================================================================

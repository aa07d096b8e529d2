------------------------------ MODULE ReadingMC ------------------------------
(* All short uses of a reader. *)
EXTENDS Reading, TLC, Json, IOUtils

Length == atoi(IOEnv.MAXLEN)

Atoms == {<<"eof">>, <<"exact", 1>>, <<"exact", 2>>, <<"tag">>, <<"skip", 2>>, <<"all">>}
Seqs(X, n) == UNION {[1..k -> X] : k \in 0..n}

(* A borrowed reader must not be given up between looking ahead and reading. *)
Sound(s) == s = <<>> \/ s[Len(s)] # <<"eof">>
Scopes == {s \in Seqs(Atoms, 2) : Sound(s) /\ s # <<>>}
Deeper == {<<"sub", s>> : s \in Scopes} \cup {<<"nest", s>> : s \in Scopes}
Sources == {<<>>, <<1>>, <<2, 10, 0, 3>>, <<10, 2, 8, 1, 7>>}

VARIABLES src, ops, rfail
vars == <<src, ops, rfail>>

Init ==
  /\ src \in Sources
  /\ rfail \in {-1, 1, 2}
  /\ rfail <= Len(src)
  /\ ops = <<>>
Next ==
  /\ Len(ops) < Length
  /\ \E o \in Atoms \cup Deeper : ops' = Append(ops, o)
  /\ UNCHANGED <<src, rfail>>
  /\ IF rfail = -1 /\ Len(src) = 5 THEN PrintT(<<"SCRIPT", ToJson(ops')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars

Run(o, f) == Steps(src, IF f < 0 THEN Never ELSE f + 1, o, 1, Never - 1)
Here1 == Run(ops, rfail)

RECURSIVE Inlined(_)
(* Without borrowing. *)
Inlined(o) ==
  IF o = <<>> THEN <<>>
  ELSE (IF Head(o)[1] = "sub" THEN <<<<"exact", 0>>>> \o Inlined(Head(o)[2]) ELSE <<Head(o)>>) \o Inlined(Tail(o))
BorrowingChangesNothing == Run(Inlined(ops), rfail) = Here1

RECURSIVE Unseen(_)
(* Without looking ahead. *)
Unseen(o) ==
  IF o = <<>> THEN <<>>
  ELSE <<CASE Head(o)[1] = "eof" -> <<"exact", 0>>
           [] Head(o)[1] \in {"sub", "nest"} -> <<Head(o)[1], Unseen(Head(o)[2])>>
           [] OTHER -> Head(o)>> \o Unseen(Tail(o))
LookingTakesNothing ==
  rfail = -1 =>
    LET u == Run(Unseen(ops), rfail) IN
    /\ u.ok = Here1.ok /\ u.pos = Here1.pos /\ Len(u.out) = Len(Here1.out)
    /\ \A i \in DOMAIN u.out : u.out[i] # Here1.out[i] => u.out[i] = <<>> /\ Here1.out[i] \in {<<0>>, <<1>>}

(* A source which fails is not mistaken for one which ends: what is read of it is what would have been. *)
FailuresSurface ==
  LET w == Run(ops, -1) IN
  /\ Here1.ok => Here1 = w
  /\ \A i \in DOMAIN Here1.out : Here1.out[i] # <<-1>> => i \in DOMAIN w.out /\ w.out[i] = Here1.out[i]

(* Nothing is read beyond the source. *)
WithinSource == Here1.pos <= Len(src) + 1
=============================================================================

------------------------------- MODULE Threads -------------------------------
(* Threads which change disjoint parts of one state, step by step.

   A thread is [at, ops]: it runs operations on the nested state at `at`. An operation whose value is
   built in a callback is gated: it takes two steps, as others may go on while it is in the callback. *)
EXTENDS State

Gated(op) == "gate" \in DOMAIN op
AtStart == [k |-> 1, in |-> FALSE]
Over1(t, pc) == pc.k > Len(t.ops)

(* One step of a thread: the value, the logged batches, where the thread is then, and its result. *)
Token(ty, v, t, pc) ==
  LET op == t.ops[pc.k]
      res == Do(ty, v, t.at, op, <<>>, TRUE)
      n == Len(res.b)
      next == [k |-> pc.k + 1, in |-> FALSE]
  IN IF Gated(op) /\ ~pc.in
       THEN [v |-> IF n > 1 THEN res.b[n - 1].v ELSE v, b |-> SubSeq(res.b, 1, n - 1), pc |-> [pc EXCEPT !.in = TRUE],
             ret |-> None]
       ELSE [v |-> res.v, b |-> res.b, pc |-> next, ret |-> Some(res.ret)]

EntriesOf(b) == Flat([i \in DOMAIN b |-> b[i].es])

(* A thread on its own, from some value to its end: all its batches, and the results. *)
RECURSIVE Alone(_, _, _, _)
Alone(ty, v, t, pc) ==
  IF Over1(t, pc) THEN [v |-> v, b |-> <<>>, rets |-> <<>>]
  ELSE LET x == Token(ty, v, t, pc)
           rest == Alone(ty, x.v, t, x.pc)
       IN [v |-> rest.v, b |-> x.b \o rest.b, rets |-> x.ret \o rest.rets]

(* All of them one after the other: as they are disjoint, so does any interleaving end. *)
RECURSIVE AllAlone(_, _, _, _)
AllAlone(ty, v, ts, i) ==
  IF i > Len(ts) THEN [v |-> v, bs |-> <<>>, rets |-> <<>>]
  ELSE LET a == Alone(ty, v, ts[i], AtStart)
           rest == AllAlone(ty, a.v, ts, i + 1)
       IN [v |-> rest.v, bs |-> <<a.b>> \o rest.bs, rets |-> <<a.rets>> \o rest.rets]

(* Is a log an interleaving of what the threads log, with the entries of a batch together?
   It was taken out in chunks: `cuts` are the positions between them, none of which may be within a batch. *)
RECURSIVE Interleaves(_, _, _, _)
IsNext(log, pos, es) == pos + Len(es) <= Len(log) /\ SubSeq(log, pos + 1, pos + Len(es)) = es
(* Threads log at different addresses, so at most one of them can come next. *)
Interleaves(log, pos, cuts, bs) ==
  LET rest == [i \in DOMAIN bs |-> IF bs[i] # <<>> /\ Head(bs[i]).es = <<>> THEN Tail(bs[i]) ELSE bs[i]]
      next == {i \in DOMAIN bs : bs[i] # <<>> /\ IsNext(log, pos, Head(bs[i]).es)}
  IN IF rest # bs THEN Interleaves(log, pos, cuts, rest)
     ELSE IF pos = Len(log) THEN \A i \in DOMAIN bs : bs[i] = <<>>
     ELSE IF next = {} THEN FALSE
     ELSE LET i == CHOOSE j \in next : TRUE
              end == pos + Len(Head(bs[i]).es)
          IN /\ \A c \in (pos + 1)..(end - 1) : c \notin cuts
             /\ Interleaves(log, end, cuts, [bs EXCEPT ![i] = Tail(@)])
=============================================================================

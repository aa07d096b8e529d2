-------------------------------- MODULE Repl --------------------------------
(* A state, its log, and followers which began from snapshots and lag behind.

   The log may refuse entries and be paused; deliveries may be cut at any byte, in which case what
   was not applied is delivered again; a follower may take over.

   Actions are records, as the driver of the implementation executes them:

     op {at, op, fail, atomic}   pause   unpause   snap {f}   deliver {f, n}   cut {f, n}   failover {f}

   Acts lists those which are enabled, and Apply yields the state after one. *)
EXTENDS Small, FiniteSets

MaxLog == atoi(IOEnv.MAXLOG)
Followers == 1..atoi(IOEnv.FOLLOWERS)
MaxDepth == 2

VARIABLE s
(* s: [v     the value of the source
       base  the value its log begins with
       log   its entries since then
       depth how often it is paused
       gap   whether it changed while it was paused
       fol   its followers: [on, v, at, gap], where `at` counts the delivered entries] *)

Off == [on |-> FALSE, v |-> Default(Ty), at |-> 0, gap |-> FALSE]
Start == [v |-> Default(Ty), base |-> Default(Ty), log |-> <<>>, depth |-> 0, gap |-> FALSE,
          fol |-> [f \in Followers |-> Off]]

Behind(f) == SubSeq(s.log, s.fol[f].at + 1, Len(s.log))
BehindBytes(f) == LogBytes(Behind(f))

---------------------------------------------------------------------------
Plain1(x) == [a |-> "op", at |-> x.at, op |-> x.op, fail |-> -1, atomic |-> TRUE]
Refused(x) ==
  <<[a |-> "op", at |-> x.at, op |-> x.op, fail |-> 0, atomic |-> TRUE],
    [a |-> "op", at |-> x.at, op |-> x.op, fail |-> 1, atomic |-> TRUE]>>

FollowerActs(f) ==
  IF ~s.fol[f].on THEN <<[a |-> "snap", f |-> f]>>
  ELSE LET n == Len(s.log) - s.fol[f].at
           all == Len(BehindBytes(f))
       IN [i \in 1..n |-> [a |-> "deliver", f |-> f, n |-> i]]
          \o [i \in 1..(IF all = 0 THEN 0 ELSE all - 1) |-> [a |-> "cut", f |-> f, n |-> i]]
          \o (IF s.fol[f].gap \/ s.depth > 0 THEN <<[a |-> "snap", f |-> f]>> ELSE <<>>)
          \o (IF n = 0 /\ ~s.fol[f].gap THEN <<[a |-> "failover", f |-> f]>> ELSE <<>>)

Acts ==
  LET ops == Ops(Ty, s.v, <<>>) IN
  (IF Len(s.log) < MaxLog
     THEN Each(ops, Plain1) \o Flat(Each(ops, Refused)) ELSE <<>>)
  \o (IF s.depth < MaxDepth THEN <<[a |-> "pause"]>> ELSE <<>>)
  \o <<[a |-> "unpause"]>>
  \o Flat([f \in Followers |-> FollowerActs(f)])

---------------------------------------------------------------------------
(* How many of some entries are complete within their first n bytes. *)
Complete(es, n) ==
  LET ms == {m \in 0..Len(es) : Len(LogBytes(SubSeq(es, 1, m))) <= n}
  IN CHOOSE m \in ms : \A k \in ms : k <= m

Apply(a) ==
  CASE a.a = "op" ->
         LET res == Do(Ty, s.v, a.at, a.op, <<>>, TRUE)
             out == Steps(IF s.depth > 0 THEN Quiet(res.b) ELSE res.b, s.v, <<>>, a.fail, a.atomic)
             v2 == IF out.refused THEN out.v ELSE res.v
             gap == s.depth > 0 /\ ~SameTracked(Ty, v2, s.v)
         IN [s EXCEPT !.v = v2, !.log = @ \o out.es, !.gap = @ \/ gap,
                      !.fol = [f \in Followers |-> [s.fol[f] EXCEPT !.gap = @ \/ gap]]]
    [] a.a = "pause" -> [s EXCEPT !.depth = @ + 1]
    [] a.a = "unpause" -> [s EXCEPT !.depth = IF @ > 0 THEN @ - 1 ELSE 0]
    [] a.a = "snap" ->
         [s EXCEPT !.fol[a.f] = [on |-> TRUE, v |-> De(Ty, Ser(Ty, s.v)).v, at |-> Len(s.log), gap |-> FALSE]]
    [] a.a = "deliver" ->
         LET r == Replay(Ty, s.fol[a.f].v, LogBytes(SubSeq(Behind(a.f), 1, a.n)))
         IN [s EXCEPT !.fol[a.f].v = r.v, !.fol[a.f].at = @ + a.n]
    [] a.a = "cut" ->
         LET r == Replay(Ty, s.fol[a.f].v, SubSeq(BehindBytes(a.f), 1, a.n))
         IN [s EXCEPT !.fol[a.f].v = r.v, !.fol[a.f].at = @ + Complete(Behind(a.f), a.n)]
    [] a.a = "failover" ->
         [Start EXCEPT !.v = s.fol[a.f].v, !.base = s.fol[a.f].v]

---------------------------------------------------------------------------
Init == s = Start
Next == \E acts \in {Acts} : \E i \in DOMAIN acts : s' = Apply(acts[i])
Spec == Init /\ [][Next]_s

(* The log describes the state, as long as it did not change behind its back. *)
FullLog == s.gap \/ LET r == ReplayEntries(Ty, s.base, s.log) IN r.ok /\ SameTracked(Ty, r.v, s.v)

(* Every follower is at some point of the past, and what it is yet to receive brings it up to date. *)
CatchUp ==
  \A f \in Followers :
    (s.fol[f].on /\ ~s.fol[f].gap) =>
       LET r == ReplayEntries(Ty, s.fol[f].v, Behind(f)) IN r.ok /\ SameTracked(Ty, r.v, s.v)

Depth == s.depth >= 0

(* What was logged stays, unless a follower takes over. *)
AppendOnly ==
  [][(Len(s'.log) >= Len(s.log) /\ SubSeq(s'.log, 1, Len(s.log)) = s.log) \/ (s'.log = <<>> /\ s'.base = s'.v)]_s

(* Nothing is logged while the log is paused, and nothing else changes without being logged. *)
Silent == [][s.depth > 0 => (s'.log = s.log \/ s'.log = <<>>)]_s
Loud == [][(s.depth = 0 /\ ~SameTracked(Ty, s.v, s'.v)) => (s'.log # s.log \/ s'.base # s.base)]_s
=============================================================================

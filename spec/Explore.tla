------------------------------- MODULE Explore -------------------------------
(* Every reachable value of a small type, and every operation on it.

   What the listed properties demand of the design is checked on each of these transitions: by
   induction it then holds of histories of any length. The transitions are also printed: the driver
   makes the implementation take every one of them. *)
EXTENDS Small, Client

VARIABLE v

---------------------------------------------------------------------------
(* Entries which may or may not fit: every kind at every short address, with good and bad payloads. *)

Steps012 == <<0, 1, 2>>
RECURSIVE Addresses(_)
Addresses(n) ==
  IF n = 0 THEN <<<<>>>>
  ELSE LET shorter == Addresses(n - 1)
       IN shorter \o Flat([i \in DOMAIN shorter |->
            IF Len(shorter[i]) = n - 1 THEN [j \in 1..3 |-> Append(shorter[i], Steps012[j])] ELSE <<>>])

Payloads == <<<<>>, <<1>>, <<2>>, <<8, 1>>, <<1, 8, 1>>, <<255>>, <<2, 10, 1, 1>>, <<10, 2, 1>>>>
Misfits(n) ==
  LET ps == Addresses(n) IN
  Over(Len(ps), LAMBDA i :
    Each(Payloads, LAMBDA b : [k |-> UpdateKind, p |-> ps[i], b |-> b, key |-> 0])
    \o Each(Payloads, LAMBDA b : [k |-> PushKind, p |-> ps[i], b |-> b, key |-> 0])
    \o <<Pop(ps[i])>>
    \o Each(Steps012, LAMBDA k : Remove(ps[i], k)))

---------------------------------------------------------------------------
(* What is demanded of a transition. *)

Prefixes(B) == 0..Len(B)

StepOk(x, res) ==
  LET es == Entries(res)
      B == LogBytes(es)
      all == ReplayEntries(Ty, x, es)
      steps == Steps(res.b, x, <<>>, -1, TRUE)
  IN
  /\ Assert(all.ok, <<"C01: an entry is rejected", x, es>>)
  /\ Assert(SameTracked(Ty, all.v, res.v), <<"C01: the replica differs", x, es, all.v, res.v>>)
  /\ Assert(ParseLog(B) = [ok |-> TRUE, es |-> es], <<"C22: an entry does not survive", es>>)
  /\ Assert(SameTracked(Ty, x, res.v) \/ es # <<>>, <<"C04: a change is not logged", x, res.v>>)
  /\ Assert(Len(res.b) = 0 => Same(Ty, x, res.v), <<"C04: a change without a step", x, res.v>>)
  /\ Assert(steps.v = res.v /\ steps.es = es, <<"C04: the steps do not add up", x>>)
  (* So does what a client makes of it, without the order of maps. *)
  /\ LET c == ClientReplay(Ty, x, es)
     IN Assert(c.r = "ok" /\ SameTrackedContent(Ty, c.v, res.v), <<"C24: the client differs", x, es, c, res.v>>)
  (* Cut anywhere, a log applies its complete entries. *)
  /\ \A n \in Prefixes(B) :
       LET cut == Replay(Ty, x, SubSeq(B, 1, n))
           whole == {m \in 0..Len(es) : Len(LogBytes(SubSeq(es, 1, m))) <= n}
           m == CHOOSE m \in whole : \A k \in whole : k <= m
       IN /\ Assert(cut.ok = (Len(LogBytes(SubSeq(es, 1, m))) = n), <<"C09: outcome of a cut", x, es, n>>)
          /\ Assert(Same(Ty, cut.v, ReplayEntries(Ty, x, SubSeq(es, 1, m)).v), <<"C09: value after a cut", x, es, n>>)
  (* Refused at any entry, nothing happens which is not logged. *)
  /\ \A f \in 0..(Len(es) - 1) : \A atomic \in BOOLEAN :
       LET out == Steps(res.b, x, <<>>, f, atomic)
       IN /\ Assert(out.refused, <<"C05: not refused", x, f>>)
          /\ Assert(out.torn \/ SameTracked(Ty, out.v, ReplayEntries(Ty, x, out.es).v), <<"C05: refused", x, es, f>>)
          /\ Assert(out.torn => ~atomic, <<"C05: torn", x, es, f>>)

(* What is demanded of any value. *)
ValueOk(x) ==
  LET B == Ser(Ty, x)
      d == De(Ty, B)
      m == MergeBytes(Ty, x, <<>>)
      ps == Paths(Ty, x, <<>>)
  IN
  /\ Assert(Distinct(ps), <<"C03: two states share an address", x>>)
  /\ Assert(Size(Ty, x) = Len(B), <<"C14: size", x>>)
  (* An empty message does not say which variant it is: enums always name theirs. *)
  /\ Assert(d.ok /\ Same(Ty, d.v, x), <<"C12: round trip", x, B>>)
  /\ Assert(Ser(Ty, d.v) = B, <<"C12: bytes again", x, B>>)
  /\ Assert(IsEnum(Unbox(Ty)) \/ (m.ok /\ Same(Ty, m.v, x)), <<"C15: nothing is merged", x>>)

(* Entries which do not fit leave everything alone; those which do end in a value of the type. *)
MisfitsOk(x, n) ==
  LET es == Misfits(n) IN
  \A i \in DOMAIN es :
    LET r == Handle(Ty, x, es[i].p, es[i])
    IN CASE r.r = "ok" -> ValueOk(r.v)
         [] r.r = "bad" -> Assert(SameBut(Ty, x, r.v, r.at), <<"C10: spilled", x, es[i]>>)
         [] OTHER -> Assert(r.v = x, <<"C10: not unchanged", x, es[i]>>)

---------------------------------------------------------------------------
Init ==
  /\ v = Default(Ty)
  /\ IF Printing THEN PrintT(<<"ENTRIES", ToJson([i \in DOMAIN Misfits(2) |-> EntryBytes(Misfits(2)[i])])>>) ELSE TRUE

Next ==
  \E ops \in {Ops(Ty, v, <<>>)} : \E i \in DOMAIN ops :
   \E res \in {Do(Ty, v, ops[i].at, ops[i].op, <<>>, TRUE)} :
    /\ TRUE = StepOk(v, res)
    /\ v' = res.v
    /\ IF Printing THEN PrintT(<<"EDGE", ToJson([a |-> v, at |-> ops[i].at, op |-> ops[i].op, b |-> res.v])>>) ELSE TRUE

Spec == Init /\ [][Next]_v

Good1 == TRUE = ValueOk(v)
Good2 == TRUE = MisfitsOk(v, 2)
=============================================================================

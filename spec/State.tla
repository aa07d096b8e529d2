-------------------------------- MODULE State --------------------------------
(* Tracked states: where they are, how changes are logged, and how a log is replayed. *)
EXTENDS Codec

None == <<>>
Some(x) == <<x>>

---------------------------------------------------------------------------
(* Comparing values, structurally. `masked` leaves out fields which are not tracked. *)

RECURSIVE Alike(_, _, _, _)
AlikeFields(fields, a, b, masked) ==
  \A i \in DOMAIN fields : (masked /\ fields[i].ns) \/ Alike(fields[i].t, a[i], b[i], masked)
Alike(ty, a, b, masked) ==
  CASE IsPrim(ty) \/ ty.k \in {"string", "bytes"} -> a = b
    [] ty.k \in {"option", "vec", "array", "list"} ->
         Len(a) = Len(b) /\ \A i \in DOMAIN a : Alike(ty.t, a[i], b[i], masked)
    [] ty.k = "tuple" -> \A i \in DOMAIN ty.ts : Alike(ty.ts[i], a[i], b[i], masked)
    [] ty.k = "hashmap" -> Norm(ty, a) = Norm(ty, b)
    [] ty.k = "box" -> Alike(ty.t, a, b, masked)
    [] ty.k = "map" ->
         Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].k = b[i].k /\ Alike(ty.t, a[i].v, b[i].v, masked)
    [] IsStruct(ty) -> AlikeFields(FieldsOf(ty), a, b, masked)
    [] IsEnum(ty) -> a.t = b.t /\ AlikeFields(VariantFields(ty, a.t), a.f, b.f, masked)

Same(ty, a, b) == Alike(ty, a, b, FALSE)
SameTracked(ty, a, b) == Alike(ty, a, b, TRUE)

(* Alike but for whatever is at some address. *)
RECURSIVE SameBut(_, _, _, _)
SameButField(fields, a, b, p) ==
  \A i \in DOMAIN fields :
    IF fields[i].tag = p[1] THEN SameBut(fields[i].t, a[i], b[i], Tail(p)) ELSE Same(fields[i].t, a[i], b[i])
SameBut(ty, a, b, p) ==
  IF p = <<>> THEN TRUE
  ELSE CASE ty.k = "box" -> SameBut(ty.t, a, b, p)
         [] ty.k = "list" ->
              Len(a) = Len(b)
              /\ \A i \in DOMAIN a : IF i = p[1] + 1 THEN SameBut(ty.t, a[i], b[i], Tail(p)) ELSE Same(ty.t, a[i], b[i])
         [] ty.k = "map" ->
              Len(a) = Len(b)
              /\ \A i \in DOMAIN a : a[i].k = b[i].k /\
                   IF a[i].k = p[1] THEN SameBut(ty.t, a[i].v, b[i].v, Tail(p)) ELSE Same(ty.t, a[i].v, b[i].v)
         [] IsStruct(ty) -> SameButField(FieldsOf(ty), a, b, p)
         [] IsEnum(ty) -> a.t = b.t /\ (Len(p) = 1 \/ SameButField(VariantFields(ty, a.t), a.f, b.f, Tail(p)))
         [] OTHER -> FALSE

(* The kinds of what differs between two values, and of what encloses it. *)
RECURSIVE Diff(_, _, _)
DiffFields(fields, a, b) == UNION {Diff(fields[i].t, a[i], b[i]) : i \in DOMAIN fields}
In(kind, kinds) == IF kinds = {} THEN {} ELSE kinds \cup {kind}
Diff(ty, a, b) ==
  CASE ty.k = "box" -> Diff(ty.t, a, b)
    [] ty.k = "list" ->
         IF Len(a) # Len(b) THEN {"list"} ELSE In("list", UNION {Diff(ty.t, a[i], b[i]) : i \in DOMAIN a})
    [] ty.k = "map" ->
         IF Len(a) # Len(b) \/ \E i \in DOMAIN a : a[i].k # b[i].k THEN {"map"}
         ELSE In("map", UNION {Diff(ty.t, a[i].v, b[i].v) : i \in DOMAIN a})
    [] IsStruct(ty) -> DiffFields(FieldsOf(ty), a, b)
    [] IsEnum(ty) ->
         IF a.t # b.t THEN {"enum"} ELSE In("enum", DiffFields(VariantFields(ty, a.t), a.f, b.f))
    [] OTHER -> IF Same(ty, a, b) THEN {} ELSE {"leaf"}

(* Whether some field anywhere in a type is not tracked. *)
RECURSIVE HasUntracked(_, _)
HasUntracked(ty, seen) ==
  CASE ty.k = "ref" ->
         /\ ty.n \notin seen
         /\ \E i \in DOMAIN Def(ty).variants : \E j \in DOMAIN Def(ty).variants[i].fields :
              LET f == Def(ty).variants[i].fields[j] IN f.ns \/ HasUntracked(f.t, seen \cup {ty.n})
    [] ty.k \in {"option", "vec", "array", "list", "box", "map"} -> HasUntracked(ty.t, seen)
    [] OTHER -> FALSE

---------------------------------------------------------------------------
(* The addresses of all nested states of a value, outermost first. Primitives are no states of their
   own, and neither is what is not tracked. *)

RECURSIVE Paths(_, _, _), PathsAll(_, _, _, _)
PathsAll(fields, vs, p, i) ==
  IF i > Len(fields) THEN <<>>
  ELSE (IF fields[i].ns THEN <<>> ELSE Paths(fields[i].t, vs[i], Append(p, fields[i].tag)))
       \o PathsAll(fields, vs, p, i + 1)
Paths(ty, v, p) ==
  CASE ty.k = "box" -> Paths(ty.t, v, p)
    [] ty.k = "list" ->
         <<p>> \o (IF IsPrim(ty.t) THEN <<>> ELSE Flat([i \in DOMAIN v |-> Paths(ty.t, v[i], Append(p, i - 1))]))
    [] ty.k = "map" ->
         <<p>> \o (IF IsPrim(ty.t) THEN <<>> ELSE Flat([i \in DOMAIN v |-> Paths(ty.t, v[i].v, Append(p, v[i].k))]))
    [] IsStruct(ty) -> <<p>> \o PathsAll(FieldsOf(ty), v, p, 1)
    [] IsEnum(ty) -> <<Append(p, v.t)>> \o PathsAll(VariantFields(ty, v.t), v.f, Append(p, v.t), 1)
    [] OTHER -> <<>>

Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

(* Only the outermost state is a root. *)
Roots(ty, v) == [i \in DOMAIN Paths(ty, v, <<>>) |-> i = 1]

---------------------------------------------------------------------------
(* Log entries: [k |-> kind, p |-> path, b |-> payload, key |-> key]. *)

UpdateKind == 0
PushKind == 8
PopKind == 9
RemoveKind == 12
Kinds == {UpdateKind, PushKind, PopKind, RemoveKind}

Update(p, ty, v) == [k |-> UpdateKind, p |-> p, b |-> Ser(ty, v), key |-> 0]
Push(p, ty, v) == [k |-> PushKind, p |-> p, b |-> Ser(ty, v), key |-> 0]
Pop(p) == [k |-> PopKind, p |-> p, b |-> <<>>, key |-> 0]
Remove(p, key) == [k |-> RemoveKind, p |-> p, b |-> <<>>, key |-> key]

U32 == [k |-> "u32"]
PathField == [tag |-> 0, t |-> [k |-> "vec", t |-> U32]]
EntryFields(kind) ==
  CASE kind \in {UpdateKind, PushKind} -> <<PathField, [tag |-> 1, t |-> [k |-> "bytes"]]>>
    [] kind = PopKind -> <<PathField>>
    [] kind = RemoveKind -> <<PathField, [tag |-> 1, t |-> U32]>>

EntryBytes(e) ==
  LET path == [i \in DOMAIN e.p |-> Bytes4(e.p[i])]
      body == CASE e.k \in {UpdateKind, PushKind} -> <<path, e.b>>
                [] e.k = PopKind -> <<path>>
                [] e.k = RemoveKind -> <<path, Bytes4(e.key)>>
  IN Sized(VarintN(e.k) \o SerFields(EntryFields(e.k), body, 1))

LogBytes(es) == Flat([i \in DOMAIN es |-> EntryBytes(es[i])])

(* Reads the entry at lo..hi of B: [ok, e, pos]. *)
NoEntry == [ok |-> FALSE, e |-> 0, pos |-> 0, cut |-> FALSE]
ParseBody(B, lo, hi) ==
  LET end == VarintEnd(B, lo, hi) IN
  IF end = 0 THEN NoEntry
  ELSE LET kind == Num4(VarintBytes(B, lo, end, 4)) IN
       IF kind \notin Kinds THEN NoEntry
       ELSE LET fs == EntryFields(kind)
                r == MergeFields(fs, DefaultFields(fs), B, end + 1, hi)
            IN IF ~r.ok THEN NoEntry
               ELSE [ok |-> TRUE, pos |-> hi + 1, cut |-> FALSE,
                     e |-> [k |-> kind, p |-> [i \in DOMAIN r.v[1] |-> Num4(r.v[1][i])],
                            b |-> IF kind \in {UpdateKind, PushKind} THEN r.v[2] ELSE <<>>,
                            key |-> IF kind = RemoveKind THEN Num4(r.v[2]) ELSE 0]]
ParseEntry(B, lo, hi) ==
  LET s == ReadSize(B, lo, hi) IN
  IF ~s.ok \/ s.n > hi - s.pos + 1 THEN [NoEntry EXCEPT !.cut = TRUE] ELSE ParseBody(B, s.pos, s.pos + s.n - 1)

(* All entries of a log: [ok, es]. *)
RECURSIVE ParseFrom(_, _)
ParseFrom(B, lo) ==
  IF lo > Len(B) THEN [ok |-> TRUE, es |-> <<>>]
  ELSE LET r == ParseEntry(B, lo, Len(B)) IN
       IF ~r.ok THEN [ok |-> FALSE, es |-> <<>>]
       ELSE LET rest == ParseFrom(B, r.pos) IN [ok |-> rest.ok, es |-> <<r.e>> \o rest.es]
ParseLog(B) == ParseFrom(B, 1)

---------------------------------------------------------------------------
(* What a state makes of an entry: [r, v, at].

     ok    the value changed to v
     bad   rejected because of its payload: whatever is at `at` is unspecified

   Otherwise it was rejected, for some other reason, and the value is as it was:

     addr  there is nothing at the address        kind  not supported by the addressed state
     key   missing, or not valid                  variant  not the active one
     item  the payload of a new item is malformed *)

Done(v) == [r |-> "ok", v |-> v, at |-> <<>>]
Rejected(v, why) == [r |-> why, v |-> v, at |-> <<>>]
Corrupt(v) == [r |-> "bad", v |-> v, at |-> <<>>]
Within(r, v, step) == [r |-> r.r, v |-> v, at |-> IF r.r = "bad" THEN <<step>> \o r.at ELSE <<>>]

Replace(ty, v, bytes) ==
  LET r == De(ty, bytes) IN IF r.ok THEN Done(r.v) ELSE Corrupt(v)

Drop(v) == SubSeq(v, 1, Len(v) - 1)

(* The last one takes the place of the removed one. *)
SwapRemove(v, i) == IF i = Len(v) THEN Drop(v) ELSE Drop([v EXCEPT ![i] = v[Len(v)]])

RECURSIVE Handle(_, _, _, _)

HandleField(fields, vs, p, e) ==
  LET i == FieldAt(fields, p[1]) IN
  IF i = 0 THEN Rejected(vs, "addr")
  ELSE IF fields[i].ns THEN Done(vs)
  ELSE LET r == Handle(fields[i].t, vs[i], Tail(p), e)
       IN Within(r, [vs EXCEPT ![i] = r.v], p[1])

Handle(ty, v, p, e) ==
  CASE ty.k = "box" -> Handle(ty.t, v, p, e)
    [] IsPrim(ty) ->
         IF p # <<>> THEN Rejected(v, "addr")
         ELSE IF e.k # UpdateKind THEN Rejected(v, "kind") ELSE Replace(ty, v, e.b)
    [] ty.k = "list" ->
         IF p # <<>> THEN
           IF p[1] = Huge \/ p[1] >= Len(v) THEN Rejected(v, "addr")
           ELSE LET i == p[1] + 1
                    r == Handle(ty.t, v[i], Tail(p), e)
                IN Within(r, [v EXCEPT ![i] = r.v], p[1])
         ELSE CASE e.k = UpdateKind -> Replace(ty, v, e.b)
                [] e.k = PushKind ->
                     LET r == De(ty.t, e.b) IN IF r.ok THEN Done(Append(v, r.v)) ELSE Rejected(v, "item")
                [] e.k = PopKind -> IF v = <<>> THEN Rejected(v, "addr") ELSE Done(Drop(v))
                [] OTHER -> Rejected(v, "kind")
    [] ty.k = "map" ->
         IF p # <<>> THEN
           LET i == KeyAt(v, p[1]) IN
           IF i # 0
             THEN LET r == Handle(ty.t, v[i].v, Tail(p), e)
                  IN Within(r, [v EXCEPT ![i].v = r.v], p[1])
           ELSE IF e.k # UpdateKind \/ Len(p) > 1 THEN Rejected(v, "addr")
           ELSE IF ~ValidKey(ty, p[1]) THEN Rejected(v, "key")
           ELSE LET r == De(ty.t, e.b)
                IN IF r.ok THEN Done(Append(v, [k |-> p[1], v |-> r.v])) ELSE Rejected(v, "item")
         ELSE CASE e.k = UpdateKind -> Replace(ty, v, e.b)
                [] e.k = RemoveKind ->
                     LET i == KeyAt(v, e.key) IN IF i = 0 THEN Rejected(v, "key") ELSE Done(SwapRemove(v, i))
                [] OTHER -> Rejected(v, "kind")
    [] IsStruct(ty) ->
         IF p # <<>> THEN HandleField(FieldsOf(ty), v, p, e)
         ELSE IF e.k = UpdateKind THEN Replace(ty, v, e.b) ELSE Rejected(v, "kind")
    [] IsEnum(ty) ->
         IF p # <<>> THEN
           IF p[1] # v.t THEN Rejected(v, "variant")
           ELSE IF Len(p) = 1 THEN Rejected(v, "kind")
           ELSE LET r == HandleField(VariantFields(ty, v.t), v.f, Tail(p), e)
                IN Within(r, [v EXCEPT !.f = r.v], p[1])
         ELSE IF e.k = UpdateKind THEN Replace(ty, v, e.b) ELSE Rejected(v, "kind")

(* Replays a log: entries are applied up to the first which is rejected.
   [ok, v, why, blank]: `blank` is the address of what became unspecified, if anything did. *)
Stopped(v, why, blank) == [ok |-> FALSE, v |-> v, why |-> why, blank |-> blank]

RECURSIVE ReplayFrom(_, _, _, _)
ReplayFrom(ty, v, B, lo) ==
  IF lo > Len(B) THEN [ok |-> TRUE, v |-> v, why |-> "ok", blank |-> None]
  ELSE LET r == ParseEntry(B, lo, Len(B)) IN
       IF ~r.ok THEN Stopped(v, IF r.cut THEN "cut" ELSE "malformed", None)
       ELSE LET h == Handle(ty, v, r.e.p, r.e) IN
            CASE h.r = "ok" -> ReplayFrom(ty, h.v, B, r.pos)
              [] h.r = "bad" -> Stopped(v, "bad", Some(h.at))
              [] OTHER -> Stopped(v, h.r, None)
Replay(ty, v, B) == ReplayFrom(ty, v, B, 1)

(* Applies entries one by one; meant for logs which are known to fit. *)
RECURSIVE ReplayEntries(_, _, _)
ReplayEntries(ty, v, es) ==
  IF es = <<>> THEN [ok |-> TRUE, v |-> v]
  ELSE LET h == Handle(ty, v, Head(es).p, Head(es)) IN
       IF h.r = "ok" THEN ReplayEntries(ty, h.v, Tail(es)) ELSE [ok |-> FALSE, v |-> v]

---------------------------------------------------------------------------
(* Local changes.

   Do yields what an operation does, step by step: [b, v, pn, ret, blank] where `b` is the sequence of
   its steps [es, v]: entries which are logged together, before the value becomes v. A step whose
   entries are refused does not happen, nor do those after it. `live` is false within what is not
   tracked: changes of it are logged, if at all, elsewhere. *)

Raw(x) == [k |-> "raw", x |-> x]
Opt(ty, x) == [k |-> "opt", ty |-> ty, x |-> x]

Plain(v, ret) == [b |-> <<>>, v |-> v, pn |-> FALSE, ret |-> ret, blank |-> None]
Step(es, v, ret) == [b |-> <<[es |-> es, v |-> v]>>, v |-> v, pn |-> FALSE, ret |-> ret, blank |-> None]
Panicked(v) == [b |-> <<>>, v |-> v, pn |-> TRUE, ret |-> Raw(<<>>), blank |-> None]

(* The same result, seen from outside: wrap rebuilds the surrounding value. *)
Lift(r, wrap(_)) ==
  [r EXCEPT !.b = [i \in DOMAIN r.b |-> [es |-> r.b[i].es, v |-> wrap(r.b[i].v)]], !.v = wrap(r.v)]

(* A callback may panic before it yields the value. *)
Panics(op) == "w" \in DOMAIN op /\ op.w = 4

SetField(fields, vs, i, op, p, live) ==
  LET f == fields[i]
      vs2 == [vs EXCEPT ![i] = op.v]
  IN IF f.ns THEN Step(<<>>, vs2, Raw(<<>>))
     ELSE IF Panics(op) THEN Panicked(vs)
     ELSE Step(IF live THEN <<Update(Append(p, f.tag), f.t, op.v)>> ELSE <<>>, vs2, Raw(<<>>))

(* Operations any nested state offers. *)
NodeOps == {"merge", "hup", "nreplay", "peek", "shake", "relink", "pause", "unpause"}

NodeOp(ty, v, op, p) ==
  LET ok(r) == IF r.ok THEN Plain(r.v, Raw("ok")) ELSE [Plain(v, Raw("err")) EXCEPT !.blank = Some(p)]
  IN CASE op.o = "merge" -> ok(MergeBytes(ty, v, op.bytes))
       [] op.o = "hup" -> ok(De(ty, op.bytes))
       [] op.o = "nreplay" ->
            IF p # <<>> THEN Plain(v, Raw("err"))
            ELSE LET r == Replay(ty, v, op.bytes)
                 IN [Plain(r.v, Raw(IF r.ok THEN "ok" ELSE "err")) EXCEPT !.blank = r.blank]
       [] op.o = "peek" ->
            LET b == Ser(ty, v) IN Plain(v, Raw(<<b, Len(b), TRUE, Len(b)>>))
       [] OTHER -> Plain(v, Raw(<<>>))

RECURSIVE Do(_, _, _, _, _, _), DoEach(_, _, _, _, _, _, _)

DoIn(fields, vs, i, at, op, p, live) ==
  LET f == fields[i]
      r == Do(f.t, vs[i], at, op, Append(p, f.tag), live /\ ~f.ns)
  IN Lift(r, LAMBDA x : [vs EXCEPT ![i] = x])

(* One operation on every item, in order. *)
DoEach(ty, v, i, at, op, p, live) ==
  IF i > Len(v) THEN Plain(v, [k |-> "each", x |-> <<>>])
  ELSE LET map == ty.k = "map"
           item == IF map THEN v[i].v ELSE v[i]
           step == IF map THEN v[i].k ELSE i - 1
           a == Lift(Do(ty.t, item, at, op, Append(p, step), live),
                     LAMBDA x : IF map THEN [v EXCEPT ![i].v = x] ELSE [v EXCEPT ![i] = x])
       IN IF a.pn THEN a
          ELSE LET b == DoEach(ty, a.v, i + 1, at, op, p, live)
               IN [b EXCEPT !.b = a.b \o b.b, !.ret = [k |-> "each", x |-> <<a.ret>> \o b.ret.x]]

Do(ty, v, at, op, p, live) ==
  CASE ty.k = "box" -> Do(ty.t, v, at, op, p, live)
    [] at # <<>> /\ ty.k = "list" ->
         Lift(Do(ty.t, v[at[1] + 1], Tail(at), op, Append(p, at[1]), live), LAMBDA x : [v EXCEPT ![at[1] + 1] = x])
    [] at # <<>> /\ ty.k = "map" ->
         LET i == KeyAt(v, at[1])
         IN Lift(Do(ty.t, v[i].v, Tail(at), op, Append(p, at[1]), live), LAMBDA x : [v EXCEPT ![i].v = x])
    [] at # <<>> /\ IsStruct(ty) -> DoIn(FieldsOf(ty), v, at[1] + 1, Tail(at), op, p, live)
    [] at # <<>> /\ IsEnum(ty) ->
         Lift(DoIn(VariantFields(ty, v.t), v.f, at[1] + 1, Tail(at), op, Append(p, v.t), live),
              LAMBDA x : [v EXCEPT !.f = x])
    [] op.o \in NodeOps -> NodeOp(ty, v, op, p)
    [] op.o = "set" -> SetField(FieldsOf(ty), v, op.f + 1, op, p, live)
    [] op.o = "vset" ->
         LET fields == VariantFields(ty, op.t)
             switch == v.t # op.t
             base == IF switch THEN VariantDefault(ty, op.t) ELSE v
             r == Lift(SetField(fields, base.f, op.f + 1, op, Append(p, op.t), live),
                       LAMBDA x : [t |-> op.t, f |-> x])
         IN IF switch
              THEN [r EXCEPT !.b = <<[es |-> IF live THEN <<Update(p, ty, base)>> ELSE <<>>, v |-> base]>> \o r.b]
              ELSE r
    [] op.o = "maybe" -> Plain(v, Raw(<<v.t = 1, v.t = 0, TRUE, v.t = 0>>))
    [] op.o = "push" ->
         IF Panics(op) THEN Panicked(v)
         ELSE Step(IF live THEN <<Push(p, ty.t, op.v)>> ELSE <<>>, Append(v, op.v), Raw(Len(v)))
    [] op.o = "pop" ->
         IF v = <<>> THEN Plain(v, Opt(ty.t, None))
         ELSE Step(IF live THEN <<Pop(p)>> ELSE <<>>, Drop(v), Opt(ty.t, Some(v[Len(v)])))
    [] op.o = "swap" ->
         LET i == op.i + 1
             n == Len(v)
         IN IF op.i = Huge \/ i > n THEN Plain(v, Opt(ty.t, None))
            ELSE Step(IF ~live THEN <<>>
                      ELSE IF i = n THEN <<Pop(p)>>
                      ELSE <<Pop(p), Update(Append(p, op.i), ty.t, v[n])>>,
                      SwapRemove(v, i), Opt(ty.t, Some(v[i])))
    [] op.o = "ins" ->
         LET i == KeyAt(v, op.k) IN
         IF Panics(op) \/ ~ValidKey(ty, op.k) THEN Panicked(v)
         ELSE Step(IF live THEN <<Update(Append(p, op.k), ty.t, op.v)>> ELSE <<>>,
                   IF i = 0 THEN Append(v, [k |-> op.k, v |-> op.v]) ELSE [v EXCEPT ![i].v = op.v],
                   Opt(ty.t, IF i = 0 THEN None ELSE Some(v[i].v)))
    [] op.o = "rem" ->
         LET i == KeyAt(v, op.k) IN
         IF i = 0 THEN Plain(v, Opt(ty.t, None))
         ELSE Step(IF live THEN <<Remove(p, op.k)>> ELSE <<>>, SwapRemove(v, i), Opt(ty.t, Some(v[i].v)))
    [] op.o = "each" -> DoEach(ty, v, 1, op.at, op.op, p, live)
    [] op.o = "views" -> Plain(v, [k |-> "views", ty |-> ty, v |-> v, ks |-> IF ty.k = "map" THEN op.ks ELSE <<>>])

(* Does a reported result agree? *)
RECURSIVE RetAgrees(_, _)
RetAgrees(ret, got) ==
  CASE ret.k = "raw" -> ret.x = got
    [] ret.k = "opt" -> Len(ret.x) = Len(got) /\ \A i \in DOMAIN got : Same(ret.ty, ret.x[i], got[i])
    [] ret.k = "each" -> Len(ret.x) = Len(got) /\ \A i \in DOMAIN got : RetAgrees(ret.x[i], got[i])
    [] ret.k = "views" ->
         /\ got.len = Len(ret.v)
         /\ got.out
         /\ \A i \in DOMAIN got.views : Same(ret.ty, ret.v, got.views[i])
         /\ ret.ty.k = "map" =>
              \A i \in DOMAIN ret.ks : \A j \in 1..3 : got.has[i][j] = (KeyAt(ret.v, ret.ks[i]) # 0)

(* What becomes of the steps if the logger refuses the entry number `fail` (from 0, negative: never), and
   batches as a whole if `atomic`: [v, es, refused, torn]. A torn batch was accepted only in part. *)
RECURSIVE Steps(_, _, _, _, _)
Steps(b, v, es, fail, atomic) ==
  IF b = <<>> THEN [v |-> v, es |-> es, refused |-> FALSE, torn |-> FALSE]
  ELSE LET h == Head(b)
           n == Len(h.es)
       IN IF fail >= 0 /\ fail < n
            THEN LET part == IF atomic THEN <<>> ELSE SubSeq(h.es, 1, fail)
                 IN [v |-> v, es |-> es \o part, refused |-> TRUE, torn |-> part # <<>>]
            ELSE Steps(Tail(b), h.v, es \o h.es, IF fail < 0 THEN fail ELSE fail - n, atomic)

Quiet(b) == [i \in DOMAIN b |-> [es |-> <<>>, v |-> b[i].v]]
=============================================================================

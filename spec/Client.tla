-------------------------------- MODULE Client --------------------------------
(* The client: what code is generated for a schema, and what states of the client make of the bytes a
   server sends. A client keeps no order of the entries of a map, and knows nothing of which fields are
   tracked; it ignores entries for what it doesn't have. *)
EXTENDS State

---------------------------------------------------------------------------
(* Content: what a value holds, apart from the order of the entries of maps. *)

RECURSIVE Alike2(_, _, _, _)
AlikeFields2(fields, a, b, masked) ==
  Len(a) = Len(b) /\ \A i \in DOMAIN fields : (masked /\ fields[i].ns) \/ Alike2(fields[i].t, a[i], b[i], masked)
Alike2(ty, a, b, masked) ==
  CASE IsPrim(ty) \/ ty.k \in {"string", "bytes"} -> a = b
    [] ty.k \in {"option", "vec", "array", "list"} ->
         Len(a) = Len(b) /\ \A i \in DOMAIN a : Alike2(ty.t, a[i], b[i], masked)
    [] ty.k = "box" -> Alike2(ty.t, a, b, masked)
    [] ty.k = "map" ->
         /\ Len(a) = Len(b)
         /\ \A i \in DOMAIN a : LET j == KeyAt(b, a[i].k) IN j # 0 /\ Alike2(ty.t, a[i].v, b[j].v, masked)
         /\ \A i \in DOMAIN b : KeyAt(a, b[i].k) # 0
    [] IsStruct(ty) -> AlikeFields2(FieldsOf(ty), a, b, masked)
    [] IsEnum(ty) -> a.t = b.t /\ AlikeFields2(VariantFields(ty, a.t), a.f, b.f, masked)
    [] OTHER -> FALSE

SameContent(ty, a, b) == Alike2(ty, a, b, FALSE)
SameTrackedContent(ty, a, b) == Alike2(ty, a, b, TRUE)

---------------------------------------------------------------------------
(* Reading, as a client does it: what it does not know, it skips; of a field which comes twice, it takes the
   latter; an enum whose variant it does not know, it leaves as a new one. *)

(* What a new state of the client holds; its arrays are empty. *)
RECURSIVE NewContent(_)
NewFields(fields) == [i \in DOMAIN fields |-> NewContent(fields[i].t)]
NewContent(ty) ==
  CASE ty.k = "array" -> <<>>
    [] ty.k = "box" -> NewContent(ty.t)
    [] IsStruct(ty) -> NewFields(FieldsOf(ty))
    [] IsEnum(ty) -> LET d == Default(ty) IN [t |-> d.t, f |-> NewFields(VariantFields(ty, d.t))]
    [] OTHER -> Default(ty)

RECURSIVE Get(_, _, _, _), GetNested(_, _, _, _), GetItems(_, _, _, _, _), GetEntries(_, _, _, _, _), GetFields(_, _, _, _, _)
GetNested(ty, B, lo, hi) ==
  IF WireType(ty) = 0 THEN Get(ty, B, lo, hi)
  ELSE LET s == ReadSize(B, lo, hi) IN
       IF ~s.ok \/ s.n > hi - s.pos + 1 THEN Fail
       ELSE LET r == Get(ty, B, s.pos, s.pos + s.n - 1) IN IF r.ok THEN Good(r.v, s.pos + s.n) ELSE Fail
GetItems(ty, v, B, lo, hi) ==
  IF lo > hi THEN Good(v, lo)
  ELSE LET r == GetNested(ty, B, lo, hi) IN IF r.ok THEN GetItems(ty, Append(v, r.v), B, r.pos, hi) ELSE Fail
GetEntries(ty, v, B, lo, hi) ==
  IF lo > hi THEN Good(v, lo)
  ELSE LET tag == ReadTag(B, lo, hi) IN
       IF ~tag.ok THEN Fail
       ELSE LET r == GetNested(ty.t, B, tag.pos, hi)
                i == KeyAt(v, tag.num)
            IN IF ~r.ok THEN Fail
               ELSE GetEntries(ty, IF i = 0 THEN Append(v, [k |-> tag.num, v |-> r.v]) ELSE [v EXCEPT ![i].v = r.v], B, r.pos, hi)
GetFields(fields, vs, B, lo, hi) ==
  IF lo > hi THEN Good(vs, lo)
  ELSE LET tag == ReadTag(B, lo, hi) IN
       IF ~tag.ok THEN Fail
       ELSE LET i == FieldAt(fields, tag.num) IN
            IF i = 0 \/ tag.wt # WireType(fields[i].t)
              THEN LET p == SkipField(tag.wt, B, tag.pos, hi) IN IF p = 0 THEN Fail ELSE GetFields(fields, vs, B, p, hi)
            ELSE LET r == GetNested(fields[i].t, B, tag.pos, hi)
                 IN IF r.ok THEN GetFields(fields, [vs EXCEPT ![i] = r.v], B, r.pos, hi) ELSE Fail
Get(ty, B, lo, hi) ==
  CASE ty.k = "option" ->
         IF lo > hi THEN Good(<<>>, lo) ELSE LET r == GetNested(ty.t, B, lo, hi) IN IF r.ok THEN Good(<<r.v>>, hi + 1) ELSE Fail
    [] ty.k \in {"vec", "array", "list"} -> GetItems(ty.t, <<>>, B, lo, hi)
    [] ty.k = "map" -> GetEntries(ty, <<>>, B, lo, hi)
    [] ty.k = "box" -> Get(ty.t, B, lo, hi)
    [] IsStruct(ty) -> GetFields(FieldsOf(ty), NewContent(ty), B, lo, hi)
    [] IsEnum(ty) ->
         LET end == VarintEnd(B, lo, hi) IN
         IF end = 0 THEN Fail
         ELSE LET tag == Num4(VarintBytes(B, lo, end, 4)) IN
              IF tag = Huge \/ VariantAt(ty, tag) = 0 THEN Good(NewContent(ty), hi + 1)
              ELSE LET fs == VariantFields(ty, tag)
                       r == GetFields(fs, NewFields(fs), B, end + 1, hi)
                   IN IF r.ok THEN Good([t |-> tag, f |-> r.v], r.pos) ELSE Fail
    [] OTHER -> Merge(ty, Default(ty), B, lo, hi)
ClientDe(ty, B) == Get(ty, B, 1, Len(B))

---------------------------------------------------------------------------
(* Replaying, as a client does it. The outcome is "ok", "ignored" or "threw". *)

Applied(v) == [r |-> "ok", v |-> v]
Ignored(v) == [r |-> "ignored", v |-> v]
Threw(v) == [r |-> "threw", v |-> v]

RECURSIVE Unbox(_)
Unbox(ty) == IF ty.k = "box" THEN Unbox(ty.t) ELSE ty
IsNested(ty) == ~IsPrim(Unbox(ty)) /\ Unbox(ty).k # "string"

(* An entry for the fields of a struct or variant; `tag` is where an update goes. *)
FieldsHere(fields, vs, tag, e) ==
  LET i == FieldAt(fields, tag) IN
  IF e.k # UpdateKind THEN Threw(vs)
  ELSE IF i = 0 THEN Ignored(vs)
  ELSE LET d == ClientDe(fields[i].t, e.b) IN IF d.ok THEN Applied([vs EXCEPT ![i] = d.v]) ELSE Threw(vs)

Here(ty, v, tag, e) ==
  CASE ty.k = "list" ->
         CASE e.k = UpdateKind ->
                IF tag >= Len(v) THEN Threw(v)
                ELSE LET d == ClientDe(ty.t, e.b) IN IF d.ok THEN Applied([v EXCEPT ![tag + 1] = d.v]) ELSE Threw(v)
           [] e.k = PushKind -> LET d == ClientDe(ty.t, e.b) IN IF d.ok THEN Applied(Append(v, d.v)) ELSE Threw(v)
           [] e.k = PopKind -> IF v = <<>> THEN Threw(v) ELSE Applied(Drop(v))
           [] OTHER -> Threw(v)
    [] ty.k = "map" ->
         CASE e.k = UpdateKind ->
                LET d == ClientDe(ty.t, e.b)
                    i == KeyAt(v, tag)
                IN IF ~d.ok THEN Threw(v)
                   ELSE Applied(IF i = 0 THEN Append(v, [k |-> tag, v |-> d.v]) ELSE [v EXCEPT ![i].v = d.v])
           [] e.k = RemoveKind ->
                LET i == KeyAt(v, e.key)
                IN IF i = 0 THEN Threw(v) ELSE Applied(SubSeq(v, 1, i - 1) \o SubSeq(v, i + 1, Len(v)))
           [] OTHER -> Threw(v)
    [] IsStruct(ty) -> FieldsHere(FieldsOf(ty), v, tag, e)
    [] IsEnum(ty) ->
         IF e.k # UpdateKind THEN Threw(v)
         ELSE IF VariantAt(ty, tag) = 0 THEN Ignored(v)
         ELSE LET d == ClientDe(ty, VarintN(tag) \o e.b) IN IF d.ok THEN Applied(d.v) ELSE Threw(v)
    [] OTHER -> IF e.k = UpdateKind THEN Ignored(v) ELSE Threw(v)

(* Down to the container at p. *)
RECURSIVE Down(_, _, _, _, _)
DownField(fields, vs, p, tag, e) ==
  LET i == FieldAt(fields, p[1]) IN
  IF i = 0 THEN Ignored(vs)
  ELSE IF ~IsNested(fields[i].t) THEN Ignored(vs)
  ELSE LET r == Down(fields[i].t, vs[i], Tail(p), tag, e) IN [r EXCEPT !.v = [vs EXCEPT ![i] = r.v]]
Down(ty, v, p, tag, e) ==
  IF ty.k = "box" THEN Down(ty.t, v, p, tag, e)
  ELSE IF p = <<>> THEN Here(ty, v, tag, e)
  ELSE
    CASE IsStruct(ty) -> DownField(FieldsOf(ty), v, p, tag, e)
      [] IsEnum(ty) ->
           IF p[1] # v.t THEN Ignored(v)
           ELSE LET fields == VariantFields(ty, v.t)
                    r == IF Len(p) = 1 THEN FieldsHere(fields, v.f, tag, e) ELSE DownField(fields, v.f, Tail(p), tag, e)
                IN [r EXCEPT !.v = [v EXCEPT !.f = r.v]]
      [] ty.k = "list" ->
           IF p[1] >= Len(v) \/ ~IsNested(ty.t) THEN Ignored(v)
           ELSE LET r == Down(ty.t, v[p[1] + 1], Tail(p), tag, e) IN [r EXCEPT !.v = [v EXCEPT ![p[1] + 1] = r.v]]
      [] ty.k = "map" ->
           LET i == KeyAt(v, p[1]) IN
           IF i = 0 \/ ~IsNested(ty.t) THEN Ignored(v)
           ELSE LET r == Down(ty.t, v[i].v, Tail(p), tag, e) IN [r EXCEPT !.v = [v EXCEPT ![i].v = r.v]]
      [] OTHER -> Ignored(v)

ClientStep(ty, v, e) ==
  IF e.k # UpdateKind THEN Down(ty, v, e.p, 0, e)
  ELSE IF e.p = <<>> THEN LET d == ClientDe(ty, e.b) IN IF d.ok THEN Applied(d.v) ELSE Threw(v)
  ELSE Down(ty, v, Drop(e.p), e.p[Len(e.p)], e)

RECURSIVE ClientReplay(_, _, _)
ClientReplay(ty, v, es) ==
  IF es = <<>> THEN Applied(v)
  ELSE LET r == ClientStep(ty, v, Head(es)) IN IF r.r # "threw" THEN ClientReplay(ty, r.v, Tail(es)) ELSE r

(* What listeners are told while an entry is replayed: of one change, unless the root itself is replaced. *)
Inside(fields, vs) == [ty |-> [k |-> "fields", fs |-> fields], v |-> vs]
RECURSIVE Place(_, _, _)
Place(ty, v, p) ==
  IF ty.k = "box" THEN Place(ty.t, v, p)
  ELSE IF p = <<>> THEN IF IsStruct(ty) THEN Inside(FieldsOf(ty), v) ELSE [ty |-> ty, v |-> v]
  ELSE
    CASE IsStruct(ty) -> LET i == FieldAt(FieldsOf(ty), p[1]) IN Place(FieldsOf(ty)[i].t, v[i], Tail(p))
      [] IsEnum(ty) ->
           LET fields == VariantFields(ty, v.t) IN
           IF Len(p) = 1 THEN Inside(fields, v.f)
           ELSE LET i == FieldAt(fields, p[2]) IN Place(fields[i].t, v.f[i], Tail(Tail(p)))
      [] ty.k = "list" -> Place(ty.t, v[p[1] + 1], Tail(p))
      [] ty.k = "map" -> Place(ty.t, v[KeyAt(v, p[1])].v, Tail(p))

Change(k, at, tag, ty, old, new) == [k |-> k, at |-> at, tag |-> tag, ty |-> ty, old |-> old, new |-> new]
Changes(ty, v, w, e) ==
  IF e.k = UpdateKind /\ e.p = <<>> THEN <<>>
  ELSE
    LET at == IF e.k = UpdateKind THEN Drop(e.p) ELSE e.p
        tag == IF e.k = UpdateKind THEN e.p[Len(e.p)] ELSE 0
        a == Place(ty, v, at)
        b == Place(ty, w, at)
        now == Len(a.v)
    IN
    CASE e.k = PushKind -> <<Change("push", at, now, a.ty.t, <<>>, <<b.v[now + 1]>>)>>
      [] e.k = PopKind -> <<Change("pop", at, now - 1, a.ty.t, <<a.v[now]>>, <<>>)>>
      [] e.k = RemoveKind -> <<Change("remove", at, e.key, a.ty.t, <<a.v[KeyAt(a.v, e.key)].v>>, <<>>)>>
      [] a.ty.k = "list" -> <<Change("update", at, tag, a.ty.t, <<a.v[tag + 1]>>, <<b.v[tag + 1]>>)>>
      [] a.ty.k = "map" ->
           LET i == KeyAt(a.v, tag)
               new == <<b.v[KeyAt(b.v, tag)].v>>
           IN IF i = 0 THEN <<Change("insert", at, tag, a.ty.t, <<>>, new)>>
              ELSE <<Change("update", at, tag, a.ty.t, <<a.v[i].v>>, new)>>
      [] a.ty.k = "fields" ->
           LET i == FieldAt(a.ty.fs, tag) IN <<Change("update", at, tag, a.ty.fs[i].t, <<a.v[i]>>, <<b.v[i]>>)>>
      [] OTHER -> <<Change("variant", at, tag, a.ty, <<a.v>>, <<b.v>>)>>

ToldOf(change, got) ==
  LET Likewise(as, bs) == Len(as) = Len(bs) /\ \A i \in DOMAIN as : SameContent(change.ty, as[i], bs[i]) IN
  /\ change.k = got.k /\ change.at = got.at /\ change.tag = got.tag
  /\ Likewise(change.old, got.old) /\ Likewise(change.new, got.new)

---------------------------------------------------------------------------
(* The generated code. A type of the client is [n |-> name, a |-> arguments]. *)

CsNames ==
  [u8 |-> "System.Byte", u16 |-> "System.UInt16", u32 |-> "System.UInt32", u64 |-> "System.UInt64", i8 |-> "System.SByte",
   i16 |-> "System.Int16", i32 |-> "System.Int32", i64 |-> "System.Int64", bool |-> "System.Boolean", string |-> "System.String",
   bytes |-> "Steit.Builtins.Bytes", option |-> "Steit.Builtins.Option", vec |-> "Steit.Collections.Vector",
   array |-> "Steit.Collections.Vector", list |-> "Steit.Collections.StateList", map |-> "Steit.Collections.StateMap"]

(* Where the classes of a definition are: those which come with the runtime have places of their own. *)
Space(def, space) ==
  IF ~def.builtin THEN space[def.rust] ELSE IF def.rust = "LogEntry" THEN "Steit.State" ELSE "Steit.Builtins"

RECURSIVE CsType(_, _)
CsType(ty, space) ==
  CASE ty.k = "box" -> CsType(ty.t, space)
    [] ty.k = "ref" -> [n |-> Space(Def(ty), space) \o "." \o Def(ty).cs,
                        a |-> [i \in DOMAIN Def(ty).args |-> CsType(Def(ty).args[i], space)]]
    [] ty.k \in {"option", "vec", "array", "list", "map"} -> [n |-> CsNames[ty.k], a |-> <<CsType(ty.t, space)>>]
    [] OTHER -> [n |-> CsNames[ty.k], a |-> <<>>]

(* The names of the definitions which some types are made of, directly or not. *)
RECURSIVE Parts(_)
Parts(ty) ==
  CASE ty.k = "ref" -> {ty.n}
    [] ty.k \in {"box", "option", "vec", "array", "list", "map"} -> Parts(ty.t)
    [] OTHER -> {}
PartsOf(n) ==
  UNION {UNION {Parts(Defs[n].variants[i].fields[j].t) : j \in DOMAIN Defs[n].variants[i].fields} : i \in DOMAIN Defs[n].variants}
RECURSIVE Closure(_, _)
Closure(todo, done) ==
  IF todo = {} THEN done ELSE Closure(UNION {PartsOf(n) : n \in todo} \ (done \cup todo), done \cup todo)
Reach(ty) == Closure(Parts(ty), {})

(* Which files are generated. *)
FileName(def, set) == IF set.names = "rust" THEN def.rust ELSE def.cs
Emitted(ty, set) ==
  {FileName(Defs[n], set) : n \in {m \in Reach(ty) : ~(set.skip_builtins # 0 /\ Defs[m].builtin)}}
    \ {set.skip[i] : i \in DOMAIN set.skip}

(* The table of a class: about each field its name and type, and by tag the wire type and what is nested there. *)
WireOf(fields, tag) == LET i == FieldAt(fields, tag) IN IF i = 0 THEN -1 ELSE WireType(fields[i].t)
NestedOf(fields, tag) ==
  LET i == FieldAt(fields, tag) IN IF i = 0 THEN "" ELSE IF IsNested(fields[i].t) THEN fields[i].cs ELSE ""
Props(fields, space) == [i \in DOMAIN fields |-> [n |-> fields[i].cs, t |-> CsType(fields[i].t, space)]]
Table(fields, at, space, probes) ==
  [props |-> Props(fields, space),
   wires |-> [i \in DOMAIN probes |-> WireOf(fields, probes[i])],
   inside |-> [i \in DOMAIN probes |-> NestedOf(fields, probes[i])],
   paths |-> [i \in DOMAIN probes |-> IF NestedOf(fields, probes[i]) = "" THEN <<>> ELSE Append(at, probes[i])]]

(* Of an enum at `at`, if a variant is there: which one it says it is, what there is of others, and its class. *)
OfVariant(w, at, space, probes) ==
  LET here == IF \E i \in DOMAIN probes : probes[i] = w.tag THEN <<w.tag>> ELSE <<>>
  IN [tag |-> w.tag, name |-> w.cs, same |-> TRUE, views |-> <<w.cs>>, at |-> Append(at, w.tag), inside |-> here,
      beside |-> here, table |-> Table(w.fields, Append(at, w.tag), space, probes)]
=============================================================================

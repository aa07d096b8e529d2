-------------------------------- MODULE Codec --------------------------------
(* Values of schemas, and how they are written to and merged from bytes.

   A type is a record with a kind `k` (see README in this directory); `Defs` maps the names of
   structs and enums to their definitions. A value is

     integers        little-endian bytes            bool            a boolean
     string, bytes   bytes                          option          <<>> or <<v>>
     vec, array, tuple, list   sequence             box             the inner value
     hashmap         sequence of <<key, value>>     map             sequence of [k, v]
     struct          sequence of field values       enum            [t |-> tag, f |-> field values] *)
EXTENDS Wire

CONSTANT Defs

Width(k) ==
  CASE k \in {"u8", "i8"} -> 1
    [] k \in {"u16", "i16"} -> 2
    [] k \in {"u32", "i32"} -> 4
    [] k \in {"u64", "i64"} -> 8
    [] OTHER -> 0

IsInt(ty) == ty.k \in {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"}
IsSigned(ty) == ty.k \in {"i8", "i16", "i32", "i64"}
IsPrim(ty) == IsInt(ty) \/ ty.k = "bool"

RECURSIVE WireType(_)
WireType(ty) ==
  IF IsPrim(ty) THEN 0 ELSE IF ty.k = "box" THEN WireType(ty.t) ELSE 2

Def(ty) == Defs[ty.n]
IsStruct(ty) == ty.k = "ref" /\ Def(ty).kind = "struct"
IsEnum(ty) == ty.k = "ref" /\ Def(ty).kind = "enum"
FieldsOf(ty) == Def(ty).variants[1].fields

(* The position of a variant with some tag, 0 if there is none. *)
VariantAt(ty, tag) ==
  LET vs == Def(ty).variants
      hits == {i \in DOMAIN vs : vs[i].tag = tag}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE
VariantFields(ty, tag) == Def(ty).variants[VariantAt(ty, tag)].fields

FieldAt(fields, tag) ==
  LET hits == {i \in DOMAIN fields : fields[i].tag = tag}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE

(* Which keys a map can hold: a single negative number stands for a range from zero. *)
ValidKey(ty, n) ==
  /\ n # Huge /\ n <= FieldMax
  /\ IF ty.keys[1] < 0 THEN n <= -ty.keys[1] ELSE \E i \in DOMAIN ty.keys : ty.keys[i] = n

KeyAt(v, key) ==
  LET hits == {i \in DOMAIN v : v[i].k = key}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE

---------------------------------------------------------------------------
(* Defaults. *)

RECURSIVE Default(_), DefaultFields(_)
DefaultFields(fields) == [i \in DOMAIN fields |-> Default(fields[i].t)]
Default(ty) ==
  CASE IsInt(ty) -> [i \in 1..Width(ty.k) |-> 0]
    [] ty.k = "bool" -> FALSE
    [] ty.k \in {"string", "bytes", "option", "vec", "hashmap", "list", "map"} -> <<>>
    [] ty.k = "array" -> [i \in 1..ty.n |-> Default(ty.t)]
    [] ty.k = "tuple" -> [i \in DOMAIN ty.ts |-> Default(ty.ts[i])]
    [] ty.k = "box" -> Default(ty.t)
    [] IsStruct(ty) -> DefaultFields(FieldsOf(ty))
    [] IsEnum(ty) -> [t |-> 0, f |-> DefaultFields(VariantFields(ty, 0))]

VariantDefault(ty, tag) == [t |-> tag, f |-> DefaultFields(VariantFields(ty, tag))]

---------------------------------------------------------------------------
(* Writing. *)

Sized(bytes) == VarintN(Len(bytes)) \o bytes

RECURSIVE Ser(_, _), SerNested(_, _), SerFields(_, _, _), SerAll(_, _, _)

SerNested(ty, v) == IF WireType(ty) = 0 THEN Ser(ty, v) ELSE Sized(Ser(ty, v))

(* A field is left out if it is a default scalar or an empty message. *)
SerField(tag, ty, v) ==
  IF IsPrim(ty) /\ v = Default(ty) THEN <<>>
  ELSE LET b == Ser(ty, v) IN
       IF b = <<>> THEN <<>>
       ELSE TagBytes(tag, WireType(ty)) \o (IF WireType(ty) = 0 THEN b ELSE Sized(b))

SerFields(fields, vs, i) ==
  IF i > Len(fields) THEN <<>>
  ELSE SerField(fields[i].tag, fields[i].t, vs[i]) \o SerFields(fields, vs, i + 1)

SerAll(ty, vs, i) == IF i > Len(vs) THEN <<>> ELSE SerNested(ty, vs[i]) \o SerAll(ty, vs, i + 1)

Ser(ty, v) ==
  CASE IsInt(ty) -> Varint(IF IsSigned(ty) THEN Zigzag(v) ELSE v)
    [] ty.k = "bool" -> IF v THEN <<1>> ELSE <<0>>
    [] ty.k \in {"string", "bytes"} -> v
    [] ty.k \in {"option", "vec", "array", "list"} -> SerAll(ty.t, v, 1)
    [] ty.k = "tuple" -> Flat([i \in DOMAIN ty.ts |-> SerNested(ty.ts[i], v[i])])
    [] ty.k = "hashmap" -> Flat([i \in DOMAIN v |-> SerNested(ty.key, v[i][1]) \o SerNested(ty.t, v[i][2])])
    [] ty.k = "box" -> Ser(ty.t, v)
    [] ty.k = "map" ->
         Flat([i \in DOMAIN v |-> TagBytes(v[i].k, WireType(ty.t)) \o SerNested(ty.t, v[i].v)])
    [] IsStruct(ty) -> SerFields(FieldsOf(ty), v, 1)
    [] IsEnum(ty) -> VarintN(v.t) \o SerFields(VariantFields(ty, v.t), v.f, 1)

---------------------------------------------------------------------------
(* Sizes, computed without writing. *)

RECURSIVE Size(_, _), SizeNested(_, _), SumSizes(_, _, _), SizeFields(_, _, _)
IntSize(ty, v) == Needed(IF IsSigned(ty) THEN Zigzag(v) ELSE v)
SizeNested(ty, v) ==
  LET n == Size(ty, v) IN IF WireType(ty) = 0 THEN n ELSE n + VarintLenN(n)
SumSizes(ty, vs, i) == IF i > Len(vs) THEN 0 ELSE SizeNested(ty, vs[i]) + SumSizes(ty, vs, i + 1)
SizeField(tag, ty, v) ==
  LET n == Size(ty, v) IN
  IF (IsPrim(ty) /\ v = Default(ty)) \/ n = 0 THEN 0
  ELSE Len(TagBytes(tag, 0)) + (IF WireType(ty) = 0 THEN n ELSE n + VarintLenN(n))
SizeFields(fields, vs, i) ==
  IF i > Len(fields) THEN 0
  ELSE SizeField(fields[i].tag, fields[i].t, vs[i]) + SizeFields(fields, vs, i + 1)
RECURSIVE Sum(_, _)
Sum(ns, i) == IF i > Len(ns) THEN 0 ELSE ns[i] + Sum(ns, i + 1)
Size(ty, v) ==
  CASE IsInt(ty) -> IntSize(ty, v)
    [] ty.k = "bool" -> 1
    [] ty.k \in {"string", "bytes"} -> Len(v)
    [] ty.k \in {"option", "vec", "array", "list"} -> SumSizes(ty.t, v, 1)
    [] ty.k = "tuple" -> Sum([i \in DOMAIN ty.ts |-> SizeNested(ty.ts[i], v[i])], 1)
    [] ty.k = "hashmap" -> Sum([i \in DOMAIN v |-> SizeNested(ty.key, v[i][1]) + SizeNested(ty.t, v[i][2])], 1)
    [] ty.k = "box" -> Size(ty.t, v)
    [] ty.k = "map" -> Sum([i \in DOMAIN v |-> Len(TagBytes(v[i].k, 0)) + SizeNested(ty.t, v[i].v)], 1)
    [] IsStruct(ty) -> SizeFields(FieldsOf(ty), v, 1)
    [] IsEnum(ty) -> VarintLenN(v.t) + SizeFields(VariantFields(ty, v.t), v.f, 1)

---------------------------------------------------------------------------
(* Reading: merges bytes lo..hi of B into a value. `pos` is where reading went on to. If not `ok`, the
   value is unspecified. *)

Fail == [ok |-> FALSE, v |-> 0, pos |-> 0]
Good(v, pos) == [ok |-> TRUE, v |-> v, pos |-> pos]

(* Skips a field: its new position, 0 if the input is too short. *)
SkipField(wt, B, lo, hi) ==
  IF wt = 0 THEN LET end == VarintEnd(B, lo, hi) IN IF end = 0 THEN 0 ELSE end + 1
  ELSE LET s == ReadSize(B, lo, hi) IN
       IF ~s.ok THEN 0 ELSE IF s.n > hi - s.pos + 1 THEN 0 ELSE s.pos + s.n

RECURSIVE Merge(_, _, _, _, _), MergeNested(_, _, _, _, _, _), MergeItems(_, _, _, _, _),
          MergeFields(_, _, _, _, _), MergeMap(_, _, _, _, _), MergePairs(_, _, _, _, _),
          MergeOption(_, _, _, _, _), MergeArray(_, _, _, _, _, _), MergeTuple(_, _, _, _, _, _)

MergeNested(ty, v, wt, B, lo, hi) ==
  IF wt # WireType(ty)
    THEN LET p == SkipField(wt, B, lo, hi) IN IF p = 0 THEN Fail ELSE Good(v, p)
  ELSE IF wt = 0 THEN Merge(ty, v, B, lo, hi)
  ELSE LET s == ReadSize(B, lo, hi) IN
       IF ~s.ok \/ s.n > hi - s.pos + 1 THEN Fail
       ELSE LET r == Merge(ty, v, B, s.pos, s.pos + s.n - 1)
            IN IF r.ok THEN Good(r.v, s.pos + s.n) ELSE Fail

Fresh(ty, B, lo, hi) == MergeNested(ty, Default(ty), WireType(ty), B, lo, hi)

MergeItems(ty, v, B, lo, hi) ==
  IF lo > hi THEN Good(v, lo)
  ELSE LET r == Fresh(ty, B, lo, hi)
       IN IF r.ok THEN MergeItems(ty, Append(v, r.v), B, r.pos, hi) ELSE Fail

MergeOption(ty, v, B, lo, hi) ==
  IF lo > hi THEN Good(v, lo)
  ELSE LET r == MergeNested(ty, IF v = <<>> THEN Default(ty) ELSE v[1], WireType(ty), B, lo, hi)
       IN IF r.ok THEN MergeOption(ty, <<r.v>>, B, r.pos, hi) ELSE Fail

(* Arrays may be given in part, and whatever is beyond them is ignored. *)
MergeArray(ty, i, v, B, lo, hi) ==
  IF i > Len(v) \/ lo > hi THEN Good(v, hi + 1)
  ELSE LET r == Fresh(ty, B, lo, hi)
       IN IF r.ok THEN MergeArray(ty, i + 1, [v EXCEPT ![i] = r.v], B, r.pos, hi) ELSE Fail

(* Tuples must be complete. *)
MergeTuple(ts, i, v, B, lo, hi) ==
  IF i > Len(ts) THEN Good(v, hi + 1)
  ELSE LET r == Fresh(ts[i], B, lo, hi)
       IN IF r.ok THEN MergeTuple(ts, i + 1, Append(v, r.v), B, r.pos, hi) ELSE Fail

PairAt(v, key) ==
  LET hits == {i \in DOMAIN v : v[i][1] = key}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE

MergePairs(ty, v, B, lo, hi) ==
  IF lo > hi THEN Good(v, lo)
  ELSE LET k == Fresh(ty.key, B, lo, hi) IN
       IF ~k.ok THEN Fail
       ELSE LET x == Fresh(ty.t, B, k.pos, hi) IN
            IF ~x.ok THEN Fail
            ELSE LET i == PairAt(v, k.v)
                     w == IF i = 0 THEN Append(v, <<k.v, x.v>>) ELSE [v EXCEPT ![i] = <<k.v, x.v>>]
                 IN MergePairs(ty, w, B, x.pos, hi)

MergeMap(ty, v, B, lo, hi) ==
  IF lo > hi THEN Good(v, lo)
  ELSE LET tag == ReadTag(B, lo, hi) IN
       IF ~tag.ok \/ ~ValidKey(ty, tag.num) THEN Fail
       ELSE IF tag.wt # WireType(ty.t)
         THEN LET p == SkipField(tag.wt, B, tag.pos, hi) IN IF p = 0 THEN Fail ELSE MergeMap(ty, v, B, p, hi)
       ELSE LET i == KeyAt(v, tag.num)
                r == MergeNested(ty.t, IF i = 0 THEN Default(ty.t) ELSE v[i].v, tag.wt, B, tag.pos, hi)
            IN IF ~r.ok THEN Fail
               ELSE MergeMap(ty, IF i = 0 THEN Append(v, [k |-> tag.num, v |-> r.v])
                                 ELSE [v EXCEPT ![i].v = r.v], B, r.pos, hi)

MergeFields(fields, vs, B, lo, hi) ==
  IF lo > hi THEN Good(vs, lo)
  ELSE LET tag == ReadTag(B, lo, hi) IN
       IF ~tag.ok THEN Fail
       ELSE LET i == FieldAt(fields, tag.num) IN
            IF i = 0
              THEN LET p == SkipField(tag.wt, B, tag.pos, hi)
                   IN IF p = 0 THEN Fail ELSE MergeFields(fields, vs, B, p, hi)
            ELSE LET r == MergeNested(fields[i].t, vs[i], tag.wt, B, tag.pos, hi)
                 IN IF r.ok THEN MergeFields(fields, [vs EXCEPT ![i] = r.v], B, r.pos, hi) ELSE Fail

Merge(ty, v, B, lo, hi) ==
  CASE IsInt(ty) ->
         LET end == VarintEnd(B, lo, hi) IN
         IF end = 0 THEN Fail
         ELSE LET b == VarintBytes(B, lo, end, Width(ty.k))
              IN Good(IF IsSigned(ty) THEN Unzigzag(b) ELSE b, end + 1)
    [] ty.k = "bool" ->
         LET end == VarintEnd(B, lo, hi) IN
         IF end = 0 THEN Fail ELSE Good(NonZeroVarint(B, lo, end), end + 1)
    [] ty.k = "string" ->
         LET b == SubSeq(B, lo, hi) IN IF Utf8(b) THEN Good(b, hi + 1) ELSE Fail
    [] ty.k = "bytes" -> Good(v \o SubSeq(B, lo, hi), hi + 1)
    [] ty.k = "option" -> MergeOption(ty.t, v, B, lo, hi)
    [] ty.k \in {"vec", "list"} -> MergeItems(ty.t, v, B, lo, hi)
    [] ty.k = "array" -> MergeArray(ty.t, 1, v, B, lo, hi)
    [] ty.k = "tuple" -> MergeTuple(ty.ts, 1, <<>>, B, lo, hi)
    [] ty.k = "hashmap" -> MergePairs(ty, v, B, lo, hi)
    [] ty.k = "box" -> Merge(ty.t, v, B, lo, hi)
    [] ty.k = "map" -> MergeMap(ty, v, B, lo, hi)
    [] IsStruct(ty) -> MergeFields(FieldsOf(ty), v, B, lo, hi)
    [] IsEnum(ty) ->
         LET end == VarintEnd(B, lo, hi) IN
         IF end = 0 THEN Fail
         ELSE LET tag == Num4(VarintBytes(B, lo, end, 4)) IN
              IF tag = Huge \/ VariantAt(ty, tag) = 0 THEN Fail
              ELSE LET vs == IF v.t = tag THEN v.f ELSE DefaultFields(VariantFields(ty, tag))
                       r == MergeFields(VariantFields(ty, tag), vs, B, end + 1, hi)
                   IN IF r.ok THEN Good([t |-> tag, f |-> r.v], r.pos) ELSE Fail

MergeBytes(ty, v, B) == Merge(ty, v, B, 1, Len(B))
De(ty, B) == MergeBytes(ty, Default(ty), B)

---------------------------------------------------------------------------
(* Hash maps have no order: values which contain them are compared up to it. *)

RECURSIVE Norm(_, _)
NormFields(fields, vs) == [i \in DOMAIN fields |-> Norm(fields[i].t, vs[i])]
Norm(ty, v) ==
  CASE IsPrim(ty) \/ ty.k \in {"string", "bytes"} -> v
    [] ty.k \in {"option", "vec", "array", "list"} -> [i \in DOMAIN v |-> Norm(ty.t, v[i])]
    [] ty.k = "tuple" -> [i \in DOMAIN ty.ts |-> Norm(ty.ts[i], v[i])]
    [] ty.k = "hashmap" -> {<<Norm(ty.key, v[i][1]), Norm(ty.t, v[i][2])>> : i \in DOMAIN v}
    [] ty.k = "box" -> Norm(ty.t, v)
    [] ty.k = "map" -> [i \in DOMAIN v |-> [k |-> v[i].k, v |-> Norm(ty.t, v[i].v)]]
    [] IsStruct(ty) -> NormFields(FieldsOf(ty), v)
    [] IsEnum(ty) -> [t |-> v.t, f |-> NormFields(VariantFields(ty, v.t), v.f)]

RECURSIVE HasHashMap(_, _)
HasHashMap(ty, seen) ==
  CASE ty.k = "hashmap" -> TRUE
    [] ty.k = "tuple" -> \E i \in DOMAIN ty.ts : HasHashMap(ty.ts[i], seen)
    [] ty.k = "ref" ->
         /\ ty.n \notin seen
         /\ \E i \in DOMAIN Def(ty).variants : \E j \in DOMAIN Def(ty).variants[i].fields :
              HasHashMap(Def(ty).variants[i].fields[j].t, seen \cup {ty.n})
    [] ty.k \in {"option", "vec", "array", "list", "box", "map"} -> HasHashMap(ty.t, seen)
    [] OTHER -> FALSE

SameVal(ty, a, b) == a = b \/ (HasHashMap(ty, {}) /\ Norm(ty, a) = Norm(ty, b))

---------------------------------------------------------------------------
(* Equality and hashing of states: fields may be excluded, and the order of maps does not matter. *)

RECURSIVE EqVal(_, _, _), EqHash(_, _, _)
EqFields(fields, a, b) == \A i \in DOMAIN fields : fields[i].neq \/ EqVal(fields[i].t, a[i], b[i])
EqVal(ty, a, b) ==
  CASE IsPrim(ty) \/ ty.k \in {"string", "bytes"} -> a = b
    [] ty.k \in {"option", "vec", "array", "list"} -> Len(a) = Len(b) /\ \A i \in DOMAIN a : EqVal(ty.t, a[i], b[i])
    [] ty.k = "tuple" -> \A i \in DOMAIN ty.ts : EqVal(ty.ts[i], a[i], b[i])
    [] ty.k = "hashmap" -> Norm(ty, a) = Norm(ty, b)
    [] ty.k = "box" -> EqVal(ty.t, a, b)
    [] ty.k = "map" ->
         Len(a) = Len(b) /\ \A i \in DOMAIN a : \E j \in DOMAIN b : a[i].k = b[j].k /\ EqVal(ty.t, a[i].v, b[j].v)
    [] IsStruct(ty) -> EqFields(FieldsOf(ty), a, b)
    [] IsEnum(ty) -> a.t = b.t /\ EqFields(VariantFields(ty, a.t), a.f, b.f)

(* Whether two values agree in everything which is hashed: then their hashes must agree. *)
HashFields(fields, a, b) ==
  \A i \in DOMAIN fields : fields[i].neq \/ fields[i].nh \/ EqHash(fields[i].t, a[i], b[i])
EqHash(ty, a, b) ==
  CASE IsPrim(ty) \/ ty.k \in {"string", "bytes", "hashmap", "map"} -> a = b
    [] ty.k \in {"option", "vec", "array", "list"} -> Len(a) = Len(b) /\ \A i \in DOMAIN a : EqHash(ty.t, a[i], b[i])
    [] ty.k = "tuple" -> \A i \in DOMAIN ty.ts : EqHash(ty.ts[i], a[i], b[i])
    [] ty.k = "box" -> EqHash(ty.t, a, b)
    [] IsStruct(ty) -> HashFields(FieldsOf(ty), a, b)
    [] IsEnum(ty) -> a.t = b.t /\ HashFields(VariantFields(ty, a.t), a.f, b.f)
=============================================================================

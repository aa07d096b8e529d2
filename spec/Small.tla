-------------------------------- MODULE Small --------------------------------
(* A few values of every type, and all operations which use them. Values come in sequences rather than
   sets, as they may not be comparable. *)
EXTENDS State, TLC, Json, IOUtils

Schema == JsonDeserialize(IOEnv.SCHEMA)
SchemaDefs == Schema.defs
Ty == Schema.types[IOEnv.TYPE]
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINT = "1"

RECURSIVE One(_)
OneFields(fields) == [i \in DOMAIN fields |-> One(fields[i].t)]
LastVariant(ty) == LET vs == Def(ty).variants IN vs[Len(vs)]
SmallKeys(ty) == IF ty.keys[1] < 0 THEN <<1, 2>> ELSE <<ty.keys[1], ty.keys[2]>>
One(ty) ==
  CASE IsInt(ty) -> [i \in 1..Width(ty.k) |-> IF i = 1 THEN 1 ELSE 0]
    [] ty.k = "bool" -> TRUE
    [] ty.k \in {"string", "bytes"} -> <<65>>
    [] ty.k \in {"option", "vec", "list"} -> <<One(ty.t)>>
    [] ty.k = "array" -> [i \in 1..ty.n |-> One(ty.t)]
    [] ty.k = "tuple" -> [i \in DOMAIN ty.ts |-> One(ty.ts[i])]
    [] ty.k = "box" -> One(ty.t)
    [] ty.k = "map" -> <<[k |-> SmallKeys(ty)[2], v |-> One(ty.t)]>>
    [] IsStruct(ty) -> OneFields(FieldsOf(ty))
    [] IsEnum(ty) -> [t |-> LastVariant(ty).tag, f |-> OneFields(LastVariant(ty).fields)]

RECURSIVE Vals(_)
Vals(ty) ==
  CASE ty.k = "box" -> Vals(ty.t)
    [] IsEnum(ty) ->
         [i \in DOMAIN Def(ty).variants |-> VariantDefault(ty, Def(ty).variants[i].tag)] \o <<One(ty)>>
    [] OTHER -> <<Default(ty), One(ty)>>

Over(n, f(_)) == Flat([i \in 1..n |-> f(i)])
Each(s, f(_)) == [i \in DOMAIN s |-> f(s[i])]

(* All operations on a value, at any of its places: [at, op]. *)
RECURSIVE Ops(_, _, _)
FieldOps(fields, vs, at) == Over(Len(fields), LAMBDA i : Ops(fields[i].t, vs[i], Append(at, i - 1)))
Ops(ty, x, at) ==
  CASE ty.k = "box" -> Ops(ty.t, x, at)
    [] IsStruct(ty) /\ Def(ty).state ->
         Over(Len(FieldsOf(ty)), LAMBDA i :
           Each(Vals(FieldsOf(ty)[i].t), LAMBDA y : [at |-> at, op |-> [o |-> "set", f |-> i - 1, v |-> y]]))
         \o FieldOps(FieldsOf(ty), x, at)
    [] IsEnum(ty) /\ Def(ty).state ->
         Over(Len(Def(ty).variants), LAMBDA j :
           LET d == Def(ty).variants[j] IN
           Over(Len(d.fields), LAMBDA i :
             Each(Vals(d.fields[i].t), LAMBDA y : [at |-> at, op |-> [o |-> "vset", t |-> d.tag, f |-> i - 1, v |-> y]])))
         \o FieldOps(VariantFields(ty, x.t), x.f, at)
    [] ty.k = "list" ->
         (IF Len(x) < MaxLen THEN Each(Vals(ty.t), LAMBDA y : [at |-> at, op |-> [o |-> "push", v |-> y]]) ELSE <<>>)
         \o <<[at |-> at, op |-> [o |-> "pop"]]>>
         \o [i \in 1..(Len(x) + 1) |-> [at |-> at, op |-> [o |-> "swap", i |-> i - 1]]]
         \o Over(Len(x), LAMBDA i : Ops(ty.t, x[i], Append(at, i - 1)))
    [] ty.k = "map" ->
         Over(2, LAMBDA j :
           LET key == SmallKeys(ty)[j] IN
           (IF Len(x) < MaxLen \/ KeyAt(x, key) # 0
              THEN Each(Vals(ty.t), LAMBDA y : [at |-> at, op |-> [o |-> "ins", k |-> key, v |-> y]]) ELSE <<>>)
           \o <<[at |-> at, op |-> [o |-> "rem", k |-> key]]>>)
         \o Over(Len(x), LAMBDA i : Ops(ty.t, x[i].v, Append(at, x[i].k)))
    [] OTHER -> <<>>

Entries(res) == Flat([i \in DOMAIN res.b |-> res.b[i].es])
=============================================================================

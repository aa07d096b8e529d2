------------------------------- MODULE Derive -------------------------------
(* Which schemas are valid. An item is a declaration to which the attribute is applied:
   [kind, args, groups, params, style, fields, variants], where `args` are the names to derive, `params` the names of
   the type parameters ("const" is one of another kind), and `groups` the steit attributes, each [form, metas], and a meta is [m, n, lit, lits]: a path, a name with a value, a list, or a literal. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

TagMax == 536870911

Has0(r, k) == k \in DOMAIN r
Seqs(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
NoTwice(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

(* -------------------------------------------------------------- attributes *)
(* What each attribute is, by the place where it may appear. *)
Settings == [no_size_cache |-> "flag", derive_ctors |-> "flag", derive_setters |-> "flag", no_meta |-> "flag",
             ctor_prefix |-> "str", size_cache_renamed |-> "str", runtime_renamed |-> "str"]
OfItem == Settings @@ [reserved_tags |-> "ints", csharp_name |-> "str"]
OfVariant == [tag |-> "int", reserved_tags |-> "ints", no_size_cache |-> "flag", size_cache_renamed |-> "str",
              runtime_renamed |-> "str", csharp_name |-> "str"]
OfField == [tag |-> "int", no_hash |-> "flag", no_eq_hash |-> "flag", no_state |-> "flag", csharp_name |-> "str"]

Whole == {"int", "big"}   \* integers of 32 bits; those of 2^31 and more are "big", larger ones "huge"
Fits(kind, m) ==
  CASE kind = "flag" -> m.m = "path" \/ (m.m = "value" /\ m.lit.k = "bool")
    [] kind = "int" -> m.m = "value" /\ m.lit.k \in Whole
    [] kind = "str" -> m.m = "value" /\ m.lit.k = "str"
    [] kind = "ints" -> m.m = "list" /\ \A i \in DOMAIN m.lits : m.lits[i].k \in Whole

Metas(groups) == Concat([i \in DOMAIN groups |-> groups[i].metas])
Named(groups, n) == {m \in Seqs(Metas(groups)) : m.n = n}
(* Every attribute is known, of the right kind, and there only once. *)
Attributes(groups, known) ==
  /\ \A i \in DOMAIN groups : groups[i].form = "list"
  /\ \A m \in Seqs(Metas(groups)) : m.m # "lit" /\ m.n \in DOMAIN known /\ Fits(known[m.n], m)
  /\ NoTwice([i \in DOMAIN Metas(groups) |-> Metas(groups)[i].n])

(* For attributes which are in order: their values. *)
Flag(groups, n) == \E m \in Named(groups, n) : m.m = "path" \/ m.lit.v = 1
Text(groups, n, other) == IF Named(groups, n) = {} THEN other ELSE (CHOOSE m \in Named(groups, n) : TRUE).lit.s
HasTag(groups) == Named(groups, "tag") # {}
Tag(groups) == (CHOOSE m \in Named(groups, "tag") : TRUE).lit
Reserved(groups) == UNION {{<<l.k, l.v>> : l \in Seqs(m.lits)} : m \in Named(groups, "reserved_tags")}

(* Tags of fields and of variants. *)
Tags(parts, reserved) ==
  /\ \A i \in DOMAIN parts :
       /\ HasTag(parts[i].groups)
       /\ Tag(parts[i].groups).k = "int" /\ Tag(parts[i].groups).v <= TagMax
       /\ <<"int", Tag(parts[i].groups).v>> \notin reserved
  /\ NoTwice([i \in DOMAIN parts |-> Tag(parts[i].groups).v])

(* -------------------------------------------------------------- types *)
(* What a type can do: be replicated, be hashed, be described to clients. *)
Able == [state |-> TRUE, hash |-> TRUE, meta |-> TRUE]
Plain == [Able EXCEPT !.state = FALSE]
Types ==
  [u8 |-> Able, i32 |-> Able, u64 |-> Able, bool |-> Able, MaybeInt |-> Able, ListInt |-> Able, BoxInt |-> Able,
   MapInt |-> [Able EXCEPT !.hash = FALSE], String |-> Plain, Bytes |-> Plain, Option |-> Plain, Vec |-> Plain,
   Array |-> Plain, Tuple |-> [Plain EXCEPT !.meta = FALSE], HashMap |-> [Plain EXCEPT !.meta = FALSE, !.hash = FALSE],
   Param |-> Able]

(* -------------------------------------------------------------- items *)
Derivable == {"Serialize", "Deserialize", "State", "PartialEq", "Default", "Hash"}
Others == {"Clone", "Debug"}

Derives(x, n) == n \in Seqs(x.args)
State(x) == Derives(x, "State")
Writes(x) == State(x) \/ Derives(x, "Serialize")
Reads(x) == State(x) \/ Derives(x, "Deserialize")
Described(x) == Reads(x) /\ ~Flag(x.groups, "no_meta")
Caches(x) == Writes(x) /\ ~Flag(x.groups, "no_size_cache")

FieldOk(x, f) ==
  LET able == Types[f.ty] IN
  /\ State(x) /\ ~Flag(f.groups, "no_state") => able.state
  /\ Derives(x, "Hash") /\ ~Flag(f.groups, "no_hash") /\ ~Flag(f.groups, "no_eq_hash") => able.hash
  /\ Described(x) => able.meta

(* Generated members have names, too, if the fields have. *)
Members(x, style, fields, groups, cached) ==
  LET name(n, default) == Text(groups, n, Text(x.groups, n, default)) IN
  (IF style = "named" THEN [i \in DOMAIN fields |-> fields[i].name] ELSE <<>>)
  \o (IF cached /\ style # "tuple" THEN <<name("size_cache_renamed", "size_cache")>> ELSE <<>>)
  \o (IF State(x) /\ style # "tuple" THEN <<name("runtime_renamed", "runtime")>> ELSE <<>>)

Body(x, style, fields, groups, reserved, cached) ==
  /\ \A i \in DOMAIN fields : Attributes(fields[i].groups, OfField)
  /\ Tags(fields, reserved)
  /\ \A i \in DOMAIN fields : FieldOk(x, fields[i])
  /\ NoTwice(Members(x, style, fields, groups, cached))

Valid(x) ==
  /\ x.kind \in {"struct", "enum"}
  /\ "const" \notin Seqs(x.params)
  /\ Seqs(x.args) \subseteq Derivable \cup Others /\ NoTwice(x.args)
  /\ Attributes(x.groups, OfItem)
  /\ IF x.kind = "struct"
       THEN Body(x, x.style, x.fields, x.groups, Reserved(x.groups), Caches(x))
       ELSE /\ Len(x.variants) > 0
            /\ \A i \in DOMAIN x.variants :
                 LET v == x.variants[i] IN
                 /\ Attributes(v.groups, OfVariant)
                 /\ Body(x, v.style, v.fields, v.groups, Reserved(v.groups), Caches(x) /\ ~Flag(v.groups, "no_size_cache"))
            /\ Tags(x.variants, Reserved(x.groups))
            /\ \E i \in DOMAIN x.variants : Tag(x.variants[i].groups).v = 0   \* the default variant
=============================================================================

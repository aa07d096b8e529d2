------------------------------ MODULE DeriveMC ------------------------------
(* Declarations to be compiled: each attribute in each form at each place; tags; derives; kinds of items. *)
EXTENDS Derive, TLC, Json, IOUtils

What == IOEnv.TYPE

None == [k |-> "none", v |-> 0, s |-> ""]
IntL(n) == [k |-> "int", v |-> n, s |-> ""]
Big == [k |-> "big", v |-> 0, s |-> ""]
Huge == [k |-> "huge", v |-> 0, s |-> ""]
StrL(s) == [k |-> "str", v |-> 0, s |-> s]
BoolL(n) == [k |-> "bool", v |-> n, s |-> ""]
Float == [k |-> "float", v |-> 0, s |-> ""]
Path(n) == [m |-> "path", n |-> n, lit |-> None, lits |-> <<>>]
Value(n, l) == [m |-> "value", n |-> n, lit |-> l, lits |-> <<>>]
ListOf(n, ls) == [m |-> "list", n |-> n, lit |-> None, lits |-> ls]
Lit(l) == [m |-> "lit", n |-> "", lit |-> l, lits |-> <<>>]
One(m) == [form |-> "list", metas |-> <<m>>]
TagOf(n) == One(Value("tag", IntL(n)))

Field(name, n, ty) == [name |-> name, groups |-> <<TagOf(n)>>, ty |-> ty]
Variant(name, n, style, fields) == [name |-> name, groups |-> <<TagOf(n)>>, style |-> style, fields |-> fields]
Struct(args, style, fields) ==
  [kind |-> "struct", args |-> args, groups |-> <<>>, params |-> <<>>, style |-> style, fields |-> fields, variants |-> <<>>]
Enum(args, variants) ==
  [kind |-> "enum", args |-> args, groups |-> <<>>, params |-> <<>>, style |-> "unit", fields |-> <<>>, variants |-> variants]

BaseS == Struct(<<"State">>, "named", <<Field("a", 0, "u8"), Field("b", 1, "ListInt")>>)
BaseE == Enum(<<"State">>, <<Variant("A", 0, "unit", <<>>), Variant("B", 1, "named", <<Field("a", 0, "u8"), Field("b", 1, "ListInt")>>)>>)

(* One more attribute, somewhere. *)
Names == DOMAIN OfItem \cup DOMAIN OfVariant \cup DOMAIN OfField \cup {"bogus"}
Forms(n) ==
  {Path(n), Value(n, IntL(3)), Value(n, StrL("x")), Value(n, BoolL(0)), Value(n, BoolL(1)), Value(n, Float), Value(n, Huge),
   ListOf(n, <<IntL(3)>>), ListOf(n, <<IntL(1), IntL(TagMax)>>), ListOf(n, <<StrL("x")>>), ListOf(n, <<IntL(4), BoolL(1)>>), ListOf(n, <<>>)}
Extra == UNION {Forms(n) : n \in Names} \cup {Lit(IntL(1)), Lit(StrL("x"))}
Odd == {[form |-> "path", metas |-> <<>>], [form |-> "value", metas |-> <<>>], [form |-> "list", metas |-> <<>>]}
Groups == {One(m) : m \in Extra} \cup Odd
Add(gs, g) == Append(gs, g)
Singles ==
  UNION {{[BaseS EXCEPT !.groups = Add(@, g)], [BaseE EXCEPT !.groups = Add(@, g)],
          [BaseE EXCEPT !.variants[2].groups = Add(@, g)], [BaseE EXCEPT !.variants[1].groups = Add(@, g)],
          [BaseS EXCEPT !.fields[2].groups = Add(@, g)], [BaseE EXCEPT !.variants[2].fields[1].groups = Add(@, g)]} : g \in Groups}
(* The same attribute twice, in one group or in two. *)
Good(known) == UNION {{m \in Forms(n) : Fits(known[n], m)} : n \in DOMAIN known \ {"reserved_tags", "tag"}}
Twos(known) == UNION {{<<[form |-> "list", metas |-> <<m, m>>]>>, <<One(m), One(m)>>} : m \in Good(known)}
Twice ==
  UNION {{[BaseS EXCEPT !.groups = gs], [BaseE EXCEPT !.groups = gs]} : gs \in Twos(OfItem)}
  \cup {[BaseE EXCEPT !.variants[2].groups = @ \o gs] : gs \in Twos(OfVariant)}
  \cup {[BaseS EXCEPT !.fields[2].groups = @ \o gs] : gs \in Twos(OfField)}
  \cup {[BaseS EXCEPT !.fields[1].groups = Add(@, TagOf(5))], [BaseE EXCEPT !.variants[1].groups = Add(@, TagOf(5))]}

(* Tags. *)
TagGroups ==
  {<<>>} \cup {<<TagOf(n)>> : n \in {0, 1, 2, TagMax, TagMax + 1}} \cup {<<One(Value("tag", l))>> : l \in {Big, Huge, StrL("0")}}
ReservedGroups == {<<>>} \cup {<<One(ListOf("reserved_tags", ls))>> : ls \in {<<>>, <<IntL(0)>>, <<IntL(1), IntL(TagMax)>>, <<Big>>,
                                                                    <<IntL(5), IntL(4), IntL(2), IntL(9)>>, <<IntL(9), IntL(8), IntL(7), IntL(6), IntL(1), IntL(0)>>}}
Tagged ==
  {[BaseS EXCEPT !.groups = r, !.fields[1].groups = g, !.fields[2].groups = h] : r \in ReservedGroups, g, h \in TagGroups}
  \cup {[BaseE EXCEPT !.groups = r, !.variants[1].groups = g, !.variants[2].groups = h] : r \in ReservedGroups, g, h \in TagGroups}
  \cup {[BaseE EXCEPT !.variants[2].groups = @ \o r, !.variants[2].fields[1].groups = g, !.variants[2].fields[2].groups = h] :
          r \in ReservedGroups, g, h \in TagGroups \ {<<>>}}

(* What is derived, for each kind of item. *)
RECURSIVE ToSeq(_)
ToSeq(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o ToSeq(T \ {x})
Switches == {<<>>} \cup {<<One(Path(n))>> : n \in {"derive_ctors", "derive_setters", "no_size_cache", "no_meta"}}
            \cup {<<One(Path("derive_setters")), One(Path("derive_ctors"))>>}
Two == <<Field("a", 0, "u8"), Field("b", 1, "ListInt")>>
Derived ==
  UNION {{[Struct(ToSeq(D), style, IF style = "unit" THEN <<>> ELSE Two) EXCEPT !.groups = g] :
            style \in {"named", "tuple", "unit"}, g \in Switches} : D \in SUBSET Derivable}
  \cup UNION {{[Enum(ToSeq(D), <<Variant("A", 0, "unit", <<>>), Variant("B", 1, "named", Two), Variant("C", 2, "tuple", Two)>>) EXCEPT
                 !.groups = g] : g \in Switches} : D \in SUBSET Derivable}

(* Every type, in states and in plain structs, with and without. *)
FieldGroups(n) == {<<TagOf(n)>>} \cup {<<TagOf(n), One(Path(a))>> : a \in {"no_state", "no_hash", "no_eq_hash"}}
Typed ==
  {[Struct(<<d, "PartialEq", "Clone", "Debug">> \o h, "named", <<[name |-> "a", groups |-> fg, ty |-> t]>>) EXCEPT !.groups = g,
      !.params = IF t = "Param" THEN <<n>> ELSE <<>>] :
     t \in DOMAIN Types, n \in {"T", "H"}, d \in {"State", "Deserialize", "Serialize"}, h \in {<<>>, <<"Hash">>}, fg \in FieldGroups(7),
     g \in {<<>>, <<One(Path("no_meta"))>>}}

(* Names of members, kinds of items, enums without variants or without a default one. *)
Renames == {<<>>, <<One(Value("size_cache_renamed", StrL("runtime")))>>, <<One(Value("size_cache_renamed", StrL("b")))>>,
            <<One(Value("runtime_renamed", StrL("size_cache")))>>, <<One(Value("runtime_renamed", StrL("a")))>>,
            <<One(Value("runtime_renamed", StrL("rt"))), One(Value("size_cache_renamed", StrL("sc")))>>,
            <<One(Value("runtime_renamed", StrL("size_cache"))), One(Value("size_cache_renamed", StrL("runtime")))>>}
Named3(n) == <<Field("a", 0, "u8"), Field(n, 1, "u8")>>
Odds ==
  {[Struct(<<d>>, style, Named3(n)) EXCEPT !.groups = g] : d \in {"State", "Serialize", "PartialEq"}, style \in {"named", "tuple"},
     n \in {"b", "a", "size_cache", "runtime"}, g \in Renames}
  \cup {[Enum(<<"State">>, <<Variant("A", 0, "unit", <<>>), Variant("B", 1, "named", Named3(n))>>) EXCEPT
           !.groups = g, !.variants[2].groups = @ \o h] : n \in {"b", "size_cache", "runtime"}, g \in Renames, h \in Renames}
  \cup {[b EXCEPT !.params = p] : b \in {BaseS, BaseE, Struct(<<"Serialize">>, "named", Two)}, p \in {<<"const">>}}
  \cup {[BaseS EXCEPT !.kind = k] : k \in {"union", "fn", "trait", "mod", "type"}}
  \cup {Enum(<<d>>, vs) : d \in {"State", "Serialize", "PartialEq", "Default"},
          vs \in {<<>>, <<Variant("A", 1, "unit", <<>>)>>, <<Variant("A", 3, "named", Two), Variant("B", 0, "tuple", Two)>>,
                  <<Variant("A", 3, "named", Two), Variant("B", 4, "tuple", Two)>>, <<Variant("A", 0, "named", Two)>>}}
  \cup {[BaseS EXCEPT !.args = a] : a \in {<<"State", "State">>, <<"State", "Bogus">>, <<"State", "Clone", "Clone">>,
          <<"PartialEq", "State", "PartialEq">>, <<"State", "Serialize", "Deserialize", "Default">>, <<>>}}

Items ==
  CASE What = "singles" -> Singles [] What = "twice" -> Twice [] What = "tagged" -> Tagged [] What = "derived" -> Derived
    [] What = "typed" -> Typed [] What = "odds" -> Odds

VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A x \in Items : PrintT(<<"ITEM", ToJson(x)>>)
Spec == Init /\ [][Next]_done
=============================================================================

-------------------------------- MODULE Trace --------------------------------
(* Checks a recorded trace of the implementation against the specification.

   A line is a command to the implementation and what it reported: [c, r]. Every step of this
   specification consumes one line: it computes from the state before what the specification allows
   after it, compares, and goes on with what was observed. A difference is printed, together with the
   properties it violates; the run goes on, so that one trace can show several. *)
EXTENDS Threads, Loggers, Client, Reading, FiniteSets, SequencesExt, TLC, TLCExt, Json, IOUtils

Schema == JsonDeserialize(IOEnv.SCHEMA)
SchemaDefs == Schema.defs
Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  l,  \* the next line
  S,  \* sessions: [ty, v, lg], where lg names the logger
  D,  \* how often each logger is paused
  Q,  \* followers: what was logged since their snapshot, and not delivered yet
  P   \* values which were taken out of a state: [ty, v]

vars == <<l, S, D, Q, P>>

Ty(name) == Schema.types[name]
Has(r, f) == f \in DOMAIN r
Opt0(r, f, d) == IF Has(r, f) THEN r[f] ELSE d

Line == Log[l]
C == Line.c
R == Line.r

(* Reports a difference. Always true: a trace is validated to its end. *)
Extra == IF C.c = "codec" /\ C.ty = "LogEntry" THEN {"C22"} ELSE {}
Report(props, what, want, got) == PrintT(<<"MISMATCH", l, props \cup Extra, what, want, got>>)
Chk(props, what, cond) == IF cond THEN TRUE ELSE Report(props, what, "", "")
Eq(props, what, want, got) == IF want = got THEN TRUE ELSE Report(props, what, want, got)

Put(f, k, x) == (k :> x) @@ f

---------------------------------------------------------------------------
(* Which property a wrong value violates depends on what is wrong with it. *)

ByKind(ty, a, b) ==
  LET d == Diff(ty, a, b)
  IN (IF d \cap {"list", "map"} # {} THEN {"C17"} ELSE {}) \cup (IF "enum" \in d THEN {"C16"} ELSE {})

CheckVal(props, what, ty, want, got) ==
  IF Same(ty, want, got) THEN TRUE ELSE Report(props \cup ByKind(ty, want, got), what, want, got)

CheckValBut(props, what, ty, want, got, blank) ==
  IF blank = None THEN CheckVal(props, what, ty, want, got)
  ELSE IF SameBut(ty, want, got, blank[1]) THEN TRUE ELSE Report(props, what \o " outside", want, got)

(* What holds of any observed state, however it came to be. *)
CheckPlace(props, ty, r) ==
  /\ Eq({"C03"} \cup props, "paths", Paths(ty, r.obs, <<>>), r.paths)
  /\ Eq({"C19"} \cup props, "roots", Roots(ty, r.obs), r.roots)
CheckSize(ty, r) == Eq({"C14"}, "size", Size(ty, r.obs), r.sz)
CheckState(props, ty, r) == CheckPlace(props, ty, r) /\ CheckSize(ty, r)

CheckBytes(props, ty, v, b) ==
  IF HasHashMap(ty, {}) THEN TRUE ELSE Eq({"C13"} \cup props, "bytes", Ser(ty, v), b)

Bounded(n, peak) == Chk({"C11"}, "memory", peak >= 0 /\ (peak - 4000000) \div 65536 <= n)

(* What the next state is, if the checks of a line are done. *)
After(checks, changed) == IF checks THEN changed @@ [S |-> S, D |-> D, Q |-> Q, P |-> P] ELSE Assert(FALSE, "a check is false")

Died == Has(R, "dead") \/ Has(R, "panic")

---------------------------------------------------------------------------
(* Sessions. *)

New ==
  LET ty == Ty(C.ty) IN
  After(
    /\ CheckVal({"C12"}, "new value", ty, C.v, R.obs)
    /\ CheckState({}, ty, R)
    /\ Eq({"C06"}, "log of a new state", <<>>, R.log)
    /\ Eq({"C06"}, "constructors which log", 0, R.echoes),
    [S |-> Put(S, C.s, [ty |-> C.ty, v |-> R.obs, lg |-> IF Has(C, "share") THEN S[C.share].lg ELSE C.s]),
     D |-> IF Has(C, "share") THEN D ELSE Put(D, C.s, 0)])

(* The properties an operation is the subject of. *)
RECURSIVE OpProps(_)
OpProps(op) ==
  CASE op.o \in {"push", "pop", "swap", "rem", "views"} -> {"C17"}
    [] op.o = "ins" -> {"C17", "C21"}
    [] op.o = "vset" -> {"C16", "C01"}
    [] op.o = "set" -> {"C01"}
    [] op.o \in {"merge", "hup"} -> {"C15"}
    [] op.o = "nreplay" -> {"C19"}
    [] op.o \in {"peek", "shake", "relink"} -> {"C06", "C14"}
    [] op.o \in {"pause", "unpause"} -> {"C07"}
    [] op.o = "each" -> OpProps(op.op) \cup {"C17"}
    [] OTHER -> {"C17"}

IsQuiet(op) == op.o \in NodeOps \cup {"views", "maybe"}

(* A log which is wrong only in its addresses is a matter of addressing. *)
LogProps(want, got) ==
  LET g == ParseLog(got) IN
  IF ~g.ok THEN {"C04", "C22"}
  ELSE IF /\ Len(g.es) = Len(want)
          /\ \A i \in DOMAIN want : [want[i] EXCEPT !.p = <<>>] = [g.es[i] EXCEPT !.p = <<>>]
         THEN {"C03", "C04"}
  ELSE {"C04"}

CheckLog(props, what, want, got) ==
  LET bytes == LogBytes(want)
  IN IF bytes = got THEN TRUE ELSE Report(props \cup LogProps(want, got), what, want, got)

(* The entries of a step come in one call of the logger: nobody can see, or take, only some of them. *)
Sums(ns) == {FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(ns, 1, k)) : k \in 0..Len(ns)}
CheckCalls(b, calls) ==
  Chk({"C08", "C05"}, "entries of a step apart", Sums(calls) \subseteq Sums([i \in DOMAIN b |-> Len(b[i].es)]))

LogOf(lg, es) == IF D[lg] > 0 THEN <<>> ELSE es

Op ==
  LET s == S[C.s]
      ty == Ty(s.ty)
      op == C.op
      paused == D[s.lg] > 0
      res == Do(ty, s.v, C.at, op, <<>>, TRUE)
      fail == Opt0(C, "fail", -1)
      out == Steps(IF paused THEN Quiet(res.b) ELSE res.b, s.v, <<>>, fail, Opt0(C, "atomic", 1) = 1)
      v == IF out.refused THEN out.v ELSE res.v
      es == IF paused THEN <<>> ELSE out.es
      (* A change made by the construction callback. *)
      sided == Has(op, "side")
      o == S[op.side.s]
      ores == Do(Ty(o.ty), o.v, op.side.at, op.side.op, <<>>, TRUE)
      oes == LogOf(o.lg, Steps(ores.b, o.v, <<>>, -1, TRUE).es)
      shared == sided /\ o.lg = s.lg
      before == LET n == Len(res.b) IN
                IF paused THEN <<>> ELSE Flat([i \in 1..(n - 1) |-> res.b[i].es])
      all == IF shared THEN before \o oes \o SubSeq(es, Len(before) + 1, Len(es)) ELSE es
      times == Opt0(op, "times", 1)
      depth == CASE op.o = "pause" -> D[s.lg] + times
                 [] op.o = "unpause" -> IF D[s.lg] > times THEN D[s.lg] - times ELSE 0
                 [] OTHER -> D[s.lg]
      ctx == (IF fail >= 0 THEN {"C05"} ELSE {}) \cup (IF paused THEN {"C07"} ELSE {})
             \cup (IF Has(op, "pk") THEN {"C20"} ELSE {}) \cup (IF sided \/ Has(C, "held") THEN {"C08"} ELSE {})
      mine == IF ctx = {} THEN OpProps(op) ELSE ctx \cup OpProps(op)
  IN
  After(
    /\ CheckValBut(mine, "value", ty, v, R.obs, res.blank)
    /\ Eq(mine, "panic", res.pn \/ out.refused, R.pn)
    /\ IF op.o \in {"pause", "unpause"} THEN Eq({"C07"}, "depth", depth, R.ret)
       ELSE IF out.refused \/ res.pn \/ R.pn THEN TRUE
       ELSE IF RetAgrees(res.ret, R.ret) THEN TRUE ELSE Report(mine, "result", res.ret, R.ret)
    /\ IF out.torn
         THEN Chk({"C05"}, "torn log", R.log \in {<<>>, LogBytes(all)})
         ELSE CheckLog(ctx \cup (IF IsQuiet(op) \/ sided THEN {"C06"} ELSE {}), "log", all, R.log)
    /\ IF fail < 0 /\ ~paused /\ ~shared /\ ~R.pn THEN CheckCalls(res.b, R.calls) ELSE TRUE
    (* A batch which is accepted in part leaves a log which no longer describes the state. *)
    /\ IF out.torn THEN Eq({"C05"}, "orphan " \o op.o, <<>>, R.log) ELSE TRUE
    /\ CheckState(ctx \cap {"C20"}, ty, R)
    /\ Eq({"C20", "C06"}, "foreign log", <<>>, R.fl)
    /\ IF Has(R, "b") THEN CheckBytes({"C14"}, ty, R.obs, R.b) ELSE TRUE
    /\ IF sided
         THEN /\ CheckVal({"C08"}, "value of the other", Ty(o.ty), ores.v, R.side.obs)
              /\ CheckState({"C08"}, Ty(o.ty), R.side)
              /\ CheckLog({"C08", "C06"}, "log of the other", IF shared THEN <<>> ELSE oes, R.side.log)
         ELSE TRUE
    /\ IF Has(R, "kept") /\ res.ret.k = "opt"
         THEN LET ety == res.ret.ty IN
              /\ CheckVal({"C20", "C17"}, "taken value", ety, res.ret.x[1], R.kept[1])
              /\ Eq({"C20", "C03"}, "taken paths", Paths(ety, R.kept[1], <<>>), R.kept[2])
              /\ Eq({"C20", "C19"}, "taken roots", Roots(ety, R.kept[1]), R.kept[3])
         ELSE TRUE,
    [P |-> IF Has(R, "kept") /\ res.ret.k = "opt" THEN Put(P, R.pocket, [ty |-> res.ret.ty, v |-> R.kept[1]]) ELSE P,
     S |-> IF sided THEN Put(Put(S, C.s, [s EXCEPT !.v = R.obs]), op.side.s, [o EXCEPT !.v = R.side.obs])
             ELSE Put(S, C.s, [s EXCEPT !.v = R.obs]),
     D |-> Put(D, s.lg, depth),
     Q |-> [f \in DOMAIN Q |-> IF Q[f].of = C.s THEN [Q[f] EXCEPT !.log = @ \o R.log] ELSE Q[f]]])

(* A value which was taken out of a state is changed: nothing else is. *)
Pocket ==
  LET p == P[C.pk]
      s == S[C.s]
      res == Do(p.ty, p.v, C.at, C.op, <<>>, TRUE)
  IN
  After(
    /\ CheckValBut({"C20"}, "value taken out", p.ty, res.v, R.obs, res.blank)
    /\ Eq({"C20"}, "panic", res.pn, R.pn)
    /\ IF C.op.o \in {"pause", "unpause"} \/ R.pn THEN TRUE
       ELSE IF RetAgrees(res.ret, R.ret) THEN TRUE ELSE Report({"C20"}, "result", res.ret, R.ret)
    /\ CheckPlace({"C20"}, p.ty, R)
    /\ CheckVal({"C20"}, "value it was taken from", Ty(s.ty), s.v, R.src.obs)
    /\ Eq({"C20"}, "log it was taken from", <<>>, R.src.log),
    [P |-> Put(P, C.pk, [p EXCEPT !.v = R.obs])])

Snap ==
  LET s == S[C.s]
      ty == Ty(s.ty)
  IN
  After(
    /\ CheckBytes({"C02"}, ty, s.v, R.b)
    /\ Eq({"C02", "C12"}, "snapshot", "ok", R.res)
    /\ CheckVal({"C02", "C12"}, "value of a snapshot", ty, s.v, R.obs)
    /\ CheckState({}, ty, R)
    /\ Eq({"C06"}, "log of a snapshot", <<>>, R.log),
    [S |-> Put(S, C.f, [ty |-> s.ty, v |-> R.obs, lg |-> C.f]),
     D |-> Put(D, C.f, 0),
     Q |-> Put(Q, C.f, [of |-> C.s, log |-> <<>>])])

(* Replays bytes, which may end or fail early. *)
ReplayProps(why) ==
  CASE why = "ok" -> {"C01", "C02"}
    [] why = "cut" -> {"C09"}
    [] why = "variant" -> {"C10", "C16"}
    [] why = "key" -> {"C10", "C21"}
    [] OTHER -> {"C10"}

CheckReplay(ty, v, b) ==
  LET fails == Has(C, "rfail") /\ C.rfail <= Len(b)
      seen == IF fails THEN SubSeq(b, 1, C.rfail) ELSE b
      want == Replay(ty, v, seen)
      shape == (IF Opt0(C, "chunk", 0) # 0 THEN {"C26"} ELSE {}) \cup (IF fails THEN {"C09", "C26"} ELSE {})
      props == ReplayProps(want.why) \cup shape
  IN
  /\ Eq(props, "outcome " \o want.why, IF want.ok /\ ~fails THEN "ok" ELSE "err", R.res)
  /\ CheckValBut(props, "value after " \o want.why, ty, want.v, R.obs, want.blank)
  /\ Eq({"C06"}, "log of a replay", <<>>, R.log)
  /\ CheckState({}, ty, R)
  /\ IF Has(R, "b") THEN CheckBytes({"C14"}, ty, R.obs, R.b) ELSE TRUE

Deliver ==
  LET s == S[C.s] IN
  After(
    /\ CheckReplay(Ty(s.ty), s.v, C.b)
    /\ Assert(Has(C, "q") => C.b = SubSeq(Q[C.s].log, 1, Len(C.b)), "the driver delivers something else")
    (* What was logged can be replayed. *)
    /\ IF Has(C, "q") /\ ~Has(C, "done") /\ ~Has(C, "lost") THEN Eq({"C02"}, "a follower replays", "ok", R.res) ELSE TRUE
    (* What was not applied, as the delivery was cut, comes again. *),
    [S |-> Put(S, C.s, [s EXCEPT !.v = R.obs]),
     Q |-> IF Has(C, "q") THEN [Q EXCEPT ![C.s].log = SubSeq(@, Opt0(C, "done", Len(C.b)) + 1, Len(@))] ELSE Q])

(* Everything was delivered: both must be the same. *)
Sync ==
  LET a == S[C.a]
      b == S[C.b]
      ty == Ty(a.ty)
  IN
  After(
    /\ Assert(Has(C, "full") \/ Q[C.b].log = <<>>, "the driver compares too early")
    /\ IF SameTracked(ty, a.v, b.v) THEN TRUE
       ELSE Report({IF Has(C, "full") THEN "C01" ELSE "C02"} \cup ByKind(ty, a.v, b.v), "replica", a.v, b.v)
    /\ IF HasUntracked(ty, {}) \/ HasHashMap(ty, {}) THEN TRUE
       ELSE Eq({IF Has(C, "full") THEN "C01" ELSE "C02"}, "bytes of a replica", R.ba, R.bb), <<>>)

(* A fresh state which replays something. *)
Onto ==
  After(
    /\ CheckReplay(Ty(C.ty), C.v, C.b)
    /\ Bounded(Len(C.b), R.peak), <<>>)

Look ==
  LET s == S[C.s] IN
  After(
    /\ CheckVal({"C06", "C20"}, "value looked at", Ty(s.ty), s.v, R.obs)
    /\ CheckState({}, Ty(s.ty), R)
    /\ Eq({"C06", "C20"}, "log of looking", <<>>, R.log)
    /\ CheckBytes({"C14"}, Ty(s.ty), R.obs, R.b),
    [S |-> Put(S, C.s, [s EXCEPT !.v = R.obs])])

CheckEq(props, ty, a, b, ab, ba, h) ==
  LET want == EqVal(ty, a, b) IN
  /\ Eq(props, "equality", want, ab)
  /\ Eq(props, "symmetry", ab, ba)
  /\ IF h = <<>> THEN TRUE ELSE IF want \/ EqHash(ty, a, b) THEN Chk(props, "hash", h[1]) ELSE TRUE

Equal ==
  LET a == S[C.a]
      b == S[C.b]
  IN
  After(
    /\ CheckEq({"C18"}, Ty(a.ty), a.v, b.v, R.eq[1], R.eq[2], R.eq[3]), <<>>)

Forget ==
  After(
    /\ TRUE,
    [S |-> [i \in DOMAIN S \ {C.s} |-> S[i]],
     Q |-> [i \in DOMAIN Q \ {C.s} |-> Q[i]]])

Reset == [S |-> <<>>, D |-> <<>>, Q |-> <<>>, P |-> <<>>]

---------------------------------------------------------------------------
(* Threads, step by step. *)
Conc ==
  LET s == S[C.s]
      ty == Ty(s.ty)
      n == Len(C.sched)
      Go(a, i) ==
        LET x == Token(ty, a.v, C.th[i], a.pcs[i])
        IN [v |-> x.v, pcs |-> [a.pcs EXCEPT ![i] = x.pc], steps |-> Append(a.steps, [es |-> EntriesOf(x.b), ret |-> x.ret])]
      run == FoldLeft(Go, [v |-> s.v, pcs |-> [i \in DOMAIN C.th |-> AtStart], steps |-> <<>>], C.sched)
  IN
  After(
    /\ \A i \in 1..n :
         LET want == run.steps[i]
             got == R.steps[i]
         IN /\ CheckLog({"C08"}, "log of a step", want.es, got.log)
            /\ IF (want.ret = None) # got.half THEN Report({"C08"}, "callback", want.ret, got.half)
               ELSE IF got.half THEN TRUE
               ELSE IF RetAgrees(want.ret[1], got.ret[1]) THEN TRUE ELSE Report({"C08"}, "result of a step", want.ret, got.ret)
    /\ CheckVal({"C08"}, "value after a schedule", ty, run.v, R.obs)
    /\ CheckState({}, ty, R),
    [S |-> Put(S, C.s, [s EXCEPT !.v = R.obs]),
     Q |-> LET all == Flat([i \in 1..n |-> R.steps[i].log])
             IN [f \in DOMAIN Q |-> IF Q[f].of = C.s THEN [Q[f] EXCEPT !.log = @ \o all] ELSE Q[f]]])

(* Threads which run freely, while the log is taken out in chunks. *)
Hammer ==
  LET s == S[C.s]
      ty == Ty(s.ty)
      want == AllAlone(ty, s.v, C.th, 1)
      parsed == [i \in DOMAIN R.chunks |-> ParseLog(R.chunks[i])]
      ok == \A i \in DOMAIN parsed : parsed[i].ok
      es == Flat([i \in DOMAIN parsed |-> parsed[i].es])
      cuts == {FoldLeft(LAMBDA a, i : a + Len(parsed[i].es), 0, [j \in 1..k |-> j]) : k \in DOMAIN parsed}
      told == ReplayEntries(ty, s.v, es)
  IN
  After(
    /\ Chk({"C08"}, "log of threads: entries", ok)
    /\ IF ~ok THEN TRUE
       ELSE /\ Chk({"C08"}, "log of threads: replays", told.ok /\ SameTracked(ty, told.v, R.obs))
            /\ Chk({"C08"}, "log of threads: an interleaving", Interleaves(es, 0, cuts, want.bs))
    /\ \A i \in DOMAIN C.th : \A j \in DOMAIN C.th[i].ops :
         IF R.rets[i][j] = <<>> THEN Report({"C08"}, "panic of a thread", C.th[i].ops[j], "")
         ELSE IF RetAgrees(want.rets[i][j], R.rets[i][j][1]) THEN TRUE
         ELSE Report({"C08"}, "result of a thread", want.rets[i][j], R.rets[i][j])
    /\ CheckVal({"C08"}, "value after threads", ty, want.v, R.obs)
    /\ CheckState({}, ty, R)
    /\ Eq({"C08"}, "log after threads", <<>>, R.log),
    [S |-> Put(S, C.s, [s EXCEPT !.v = R.obs]),
     Q |-> [f \in DOMAIN Q |-> IF Q[f].of = C.s THEN [Q[f] EXCEPT !.log = @ \o Flat(R.chunks)] ELSE Q[f]]])

---------------------------------------------------------------------------
(* Values on their own. *)

(* Everything about how a value is serialized. *)
CheckSer(props, ty, v, num, r) ==
  LET b == Ser(ty, v)
      tagged == TagBytes(num, WireType(ty)) \o SerNested(ty, v)
  IN
  /\ Eq({"C14"}, "size", Len(r.b), r.sz)
  /\ Eq({"C14"}, "cached size", Len(r.b), r.csz)
  /\ Eq({"C14"}, "nested size", Len(r.n[2]), r.n[1])
  /\ Eq({"C14"}, "tagged size", Len(r.t[2]), r.t[1])
  /\ Eq({"C14"}, "field size", Len(r.o[2]), r.o[1])
  /\ Eq({"C14"}, "untagged size", Len(r.no[2]), r.no[1])
  /\ IF HasHashMap(ty, {})
       THEN LET d == De(ty, r.b) IN
            /\ Chk({"C13"}, "bytes of a hash map", Len(b) = Len(r.b) /\ d.ok /\ Same(ty, d.v, v))
            /\ Eq({"C14"}, "again", r.b, r.again)
       ELSE /\ Eq({"C13"} \cup props, "bytes", b, r.b)
            /\ Eq({"C13"} \cup props, "nested bytes", SerNested(ty, v), r.n[2])
            /\ Eq({"C13"} \cup props, "tagged bytes", tagged, r.t[2])
            /\ Eq({"C13"} \cup props, "field bytes", SerField(num, ty, v), r.o[2])
            /\ Eq({"C13"} \cup props, "untagged bytes", SerNested(ty, v), r.no[2])
            /\ Eq({"C14"}, "again", b, r.again)

(* The map of some entries: a key stays where it was met first, with the value it was met with last. *)
RECURSIVE Collected(_)
Collected(es) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Last(es)
           v == Collected(Front(es))
           i == KeyAt(v, e.k)
       IN IF i = 0 THEN Append(v, e) ELSE [v EXCEPT ![i] = e]

Codec ==
  LET ty == Ty(C.ty)
      op == C.op
      num == Opt0(op, "num", 1)
      chunked == IF Opt0(op, "chunk", 0) # 0 THEN {"C26"} ELSE {}
  IN
  After(
    /\ CASE op.c = "ser" -> CheckSer({}, ty, op.v, num, R)
         [] op.c = "wr" ->
              LET mode == Opt0(op, "nested", 0)
                  full == CASE mode = 0 -> Ser(ty, op.v)
                            [] mode = 1 -> SerNested(ty, op.v)
                            [] OTHER -> SerField(num, ty, op.v)
                  broken == Has(op, "wfail") /\ op.wfail < Len(full)
              IN /\ Eq({"C26"}, "outcome of writing", IF broken THEN "err" ELSE "ok", R.res)
                 /\ IF broken
                      THEN Eq({"C26"}, "written in part", SubSeq(full, 1, Len(R.b)), R.b)
                      ELSE Eq({"C26", "C13"}, "written", full, R.b)
         [] op.c = "de" ->
              LET fails == Has(op, "rfail") /\ op.rfail <= Len(op.b)
                  d == De(ty, op.b)
                  props == IF chunked # {} \/ fails THEN {"C26"} ELSE {"C12", "C15"}
              IN /\ Eq(props \cup (IF d.ok THEN {} ELSE {"C11"}), "outcome of reading", IF d.ok /\ ~fails THEN "ok" ELSE "err", R.res)
                 /\ IF R.res = "ok" /\ d.ok THEN CheckVal(props, "read", ty, d.v, R.obs) ELSE TRUE
                 /\ Bounded(Len(op.b), R.peak)
         [] op.c = "mrg" ->
              LET d == IF Opt0(op, "nested", 0) = 1
                         THEN MergeNested(ty, op.v, WireType(ty), op.b, 1, Len(op.b))
                         ELSE MergeBytes(ty, op.v, op.b)
                  props == {"C15"} \cup chunked \cup (IF Has(op, "keyed") THEN {"C21"} ELSE {})
              IN /\ Eq(props \cup (IF d.ok THEN {} ELSE {"C11"}), "outcome of merging", IF d.ok THEN "ok" ELSE "err", R.res)
                 /\ IF R.res = "ok" /\ d.ok THEN CheckVal(props, "merged", ty, d.v, R.obs) ELSE TRUE
                 /\ CheckSer({"C14"}, ty, R.obs, num, R.after)
                 /\ Bounded(Len(op.b) + Len(R.after.b), R.peak)
         [] op.c = "trip" ->
              /\ Eq({"C12"}, "outcome of reading back", "ok", R.res)
              /\ IF R.res = "ok"
                   THEN /\ CheckVal({"C12"} \cup chunked, "read back", ty, op.v, R.obs)
                        /\ Chk({"C12", "C18"}, "read back and compared", R.eq)
                        /\ IF HasHashMap(ty, {}) THEN Eq({"C12"}, "length again", Len(R.b), Len(R.b2))
                           ELSE Eq({"C12", "C14"}, "bytes again", R.b, R.b2)
                   ELSE TRUE
              /\ CheckBytes({}, ty, op.v, R.b)
         [] op.c = "eq" ->
              /\ CheckEq({"C18"}, ty, op.a, R.obs, R.ab, R.ba, R.h)
              /\ Chk({"C18"}, "reflexivity", R.aa)
         [] op.c = "of" ->
              LET valid == \A i \in DOMAIN op.v : ValidKey(ty, op.v[i].k) IN
              /\ Eq({"C21"}, "outcome of collecting", IF valid THEN "ok" ELSE "refused", R.res)
              /\ IF valid /\ R.res = "ok"
                   THEN LET v == Collected(op.v) IN
                        /\ CheckVal({"C21", "C17"}, "collected", ty, v, R.obs)
                        /\ CheckBytes({"C17"}, ty, v, R.b)
                   ELSE TRUE
         [] op.c = "par" ->
              /\ Eq({"C14"}, "serialized concurrently", 0, R.bad)
              /\ CheckBytes({}, ty, op.v, R.b), <<>>)

---------------------------------------------------------------------------
(* Loggers on their own. The logger world is session 0. *)

(* Where a runtime is after some steps: the address, and whether it has a logger of its own. *)
RECURSIVE Nav(_, _)
Nav(steps, at) ==
  IF steps = <<>> THEN at
  ELSE LET s == Head(steps)
           up == SubSeq(at.p, 1, Len(at.p) - 1)
       IN Nav(Tail(steps),
              CASE s[1] = "n" -> [at EXCEPT !.p = Append(@, s[2])]
                [] s[1] = "s" -> [at EXCEPT !.p = Append(up, s[2])]
                [] s[1] = "p" -> [at EXCEPT !.p = up]
                [] s[1] = "d" -> [at EXCEPT !.alone = TRUE])
NavOf(steps) == Nav(steps, [p |-> <<>>, alone |-> FALSE])

EntryOf(p, e) ==
  CASE e.k = "update" -> EntryBytes(Update(p, Ty(e.ty), e.v))
    [] e.k = "child" -> EntryBytes(Update(Append(p, e.tag), Ty(e.ty), e.v))
    [] e.k = "push" -> EntryBytes(Push(p, Ty(e.ty), e.v))
    [] e.k = "pop" -> EntryBytes(Pop(p))
    (* A key may be beyond what numbers are here. *)
    [] e.k = "remove" -> LET path == [i \in DOMAIN p |-> Bytes4(p[i])]
                         IN Sized(VarintN(RemoveKind) \o SerFields(EntryFields(RemoveKind), <<path, e.key>>, 1))

LgOut(L, how) == LET d == Drain(L, how) IN Flat(d.out)

Lg ==
  LET op == C.op
      L == S[0]
      at == NavOf(Opt0(op, "nav", <<>>))
      broke == R.broke
      es == CASE op.o = "log" -> <<EntryOf(at.p, op.e)>>
              [] op.o = "multi" -> [i \in DOMAIN op.es |-> EntryOf(NavOf(op.es[i].nav).p, op.es[i].e)]
              [] OTHER -> <<>>
      (* How many entries of a batch a breaking sink took. *)
      taken(n) == R.sink = Flat(L.sink \o SubSeq(es, 1, n))
      (* What a picky logger refuses, if it is asked at all. *)
      asked == L.depth = 0 /\ (~at.alone \/ op.via = 3)
      wanted == IF L.kind = "picky" /\ asked THEN "refuse" \in DOMAIN op /\ op.refuse < Len(es) ELSE broke
      n == IF ~broke THEN Len(es) ELSE IF L.kind = "picky" THEN op.refuse ELSE IF \E k \in 0..(Len(es) - 1) : taken(k) THEN CHOOSE k \in 0..(Len(es) - 1) : taken(k) ELSE 0
      after == CASE op.o \in {"log", "multi"} -> IF at.alone /\ op.via # 3 THEN L ELSE Logged(L, es, broke, n)
                 [] op.o = "pause" -> IF at.alone THEN L ELSE Paused(L)
                 [] op.o = "unpause" -> IF at.alone THEN L ELSE Unpaused(L)
                 [] op.o = "replace" -> Replaced(L)
                 [] op.o = "nav" -> L
                 [] OTHER -> Drain(L, op.o).L
      props == IF L.depth > 0 THEN {"C22", "C07"} ELSE {"C22"}
      few == Len(es) > 1
  IN
  After(
    /\ IF op.o \in {"log", "multi"} THEN Eq({"C22"}, "refused", wanted, broke) /\ Eq({"C22"}, "outcome of logging", IF broke THEN "err" ELSE "ok", R.res) ELSE TRUE
    /\ IF op.o \in {"pause", "unpause"}
         THEN Eq({"C07"}, "depth", IF at.alone THEN (IF op.o = "pause" THEN 1 ELSE 0) ELSE after.depth, R.depth) ELSE TRUE
    /\ IF op.o = "nav"
         THEN /\ Eq({"C03"}, "address of a runtime", at.p, R.path)
              /\ Eq({"C03", "C19"}, "root runtime", <<at.p = <<>>, at.p = <<>>>>, R.root)
              /\ LET num == IF at.p = <<>> THEN <<>> ELSE <<Bytes4(at.p[Len(at.p)])>>
                 IN Eq({"C03"}, "field number", <<num, num>>, <<R.num, R.num2>>)
         ELSE TRUE
    /\ IF op.o \in {"bytes", "pluck", "pluck_bytes", "clear"} THEN Eq({"C22"}, "drained", LgOut(L, op.o), R.out) ELSE TRUE
    /\ Eq(props, "held", IF L.kind = "buffer" THEN Flat(after.got) ELSE <<>>, R.held)
    /\ Eq(props, "written", Flat(after.sink), R.sink)
    /\ Eq(props \cup (IF few THEN {"C05", "C08"} ELSE {}), "batches",
          IF L.kind \in {"batches", "picky"} THEN [i \in DOMAIN after.got |-> Flat(after.got[i])] ELSE <<>>, R.batches),
    [S |-> Put(S, 0, IF L.kind = "writer" /\ broke THEN [after EXCEPT !.sink = <<R.sink>>] ELSE after)])

(* A reader used directly. *)
Script ==
  After(
    /\ Eq({"C26"}, "read step by step", Read(C.b, C.ops, Opt0(C, "rfail", -1)), R.got), <<>>)

(* The same command to a type and to its twin. *)
Twin ==
  After(
    /\ Eq({"C27"}, "twins: " \o C.of, R.a, R.b), <<>>)

LgOpen ==
  After(
    /\ TRUE,
    [S |-> Put(S, 0, Opened(C.op.kind))])

---------------------------------------------------------------------------
(* Clients. *)

CheckContent(what, ty, want, got) ==
  IF SameContent(ty, want, got) THEN TRUE ELSE Report({"C24"}, what, want, got)

(* A client reads the state of a server. *)
ClientSnap ==
  LET s == S[C.s]
      ty == Ty(s.ty)
      ok == R.res = "ok"
  IN
  After(
    /\ Eq({"C24"}, "a client reads a snapshot", "ok", R.res)
    /\ IF ok THEN CheckContent("content of a client's snapshot", ty, s.v, R.obs) ELSE TRUE,
    [S |-> Put(S, C.f, [ty |-> s.ty, v |-> IF ok THEN R.obs ELSE s.v, lg |-> C.f]),
     Q |-> Put(Q, C.f, [of |-> C.s, log |-> <<>>])])

(* Whether listeners are told of each change, once. *)
RECURSIVE Told(_, _, _, _)
Told(ty, v, es, seen) ==
  IF es = <<>> \/ seen = <<>> THEN TRUE
  ELSE LET r == ClientStep(ty, v, Head(es)) IN
       IF r.r = "threw" THEN TRUE
       ELSE LET want == IF r.r = "ignored" THEN <<>> ELSE Changes(ty, v, r.v, Head(es))
                got == Head(seen)
            IN /\ IF Len(want) = Len(got) /\ \A i \in DOMAIN want : ToldOf(want[i], got[i]) THEN TRUE
                  ELSE Report({"C28"}, "what listeners are told", want, got)
               /\ Told(ty, r.v, Tail(es), Tail(seen))

(* It replays what was logged since. *)
ClientDeliver ==
  LET s == S[C.s]
      ty == Ty(s.ty)
      log == ParseLog(C.b)
      want == ClientReplay(ty, s.v, log.es)
      ok == R.res = "ok"
      other == "craft" \in DOMAIN C   \* what a server with another version of the schema logs
      props == IF other THEN {"C29"} ELSE {"C24"}
  IN
  After(
    /\ IF other THEN TRUE ELSE Assert(C.b = SubSeq(Q[C.s].log, 1, Len(C.b)), "the driver delivers something else")
    /\ IF ~log.ok \/ want.r # "ok" THEN TRUE
       ELSE /\ Eq(props \cup {"C28"}, "a client replays", "ok", R.res)
            /\ IF "seen" \in DOMAIN R THEN Told(ty, s.v, log.es, R.seen) ELSE TRUE
            /\ IF ~ok THEN TRUE
               ELSE IF SameContent(ty, want.v, R.obs) THEN TRUE
               ELSE Report(props, "content after a client's replay", want.v, R.obs),
    [S |-> Put(S, C.s, [s EXCEPT !.v = IF ok THEN R.obs ELSE s.v]),
     Q |-> IF other THEN Q ELSE [Q EXCEPT ![C.s].log = SubSeq(@, Len(C.b) + 1, Len(@))]])

ClientSync ==
  LET a == S[C.a]
      b == S[C.b]
      ty == Ty(a.ty)
  IN
  After(
    /\ Assert(Q[C.b].log = <<>>, "the driver compares too early")
    /\ IF SameTrackedContent(ty, a.v, b.v) THEN TRUE ELSE Report({"C24"}, "content of a client", a.v, b.v), <<>>)

(* What the generated code reads is what was written. *)
ClientRead ==
  LET ty == Ty(C.ty)
      ok == R.res = "ok"
  IN
  IF "b" \in DOMAIN C
    THEN
      LET d == ClientDe(ty, C.b) IN
      After(
        IF ~d.ok THEN TRUE
        ELSE /\ Eq({"C29"}, "reading by the client of " \o C.ty, "ok", R.res)
             /\ IF ~ok THEN TRUE
                ELSE IF SameContent(ty, d.v, R.obs) THEN TRUE
                ELSE Report({"C29"}, "value read by the client of " \o C.ty, d.v, R.obs), <<>>)
  ELSE
  After(
    /\ Eq({"C23", "C24"}, "reading by the client of " \o C.ty, "ok", R.res)
    /\ IF ~ok THEN TRUE
       ELSE IF SameContent(ty, C.v, R.obs) THEN TRUE ELSE Report({"C23", "C24"}, "value read by the client of " \o C.ty, C.v, R.obs), <<>>)

(* Which files the generator writes. *)
Elements(xs) == {xs[i] : i \in DOMAIN xs}
Emit ==
  LET want == Emitted(Ty(C.ty), C.set)
      bad == IF "bad" \in DOMAIN C.set THEN Elements(C.set.bad) ELSE {}
      fails == want # {} /\ (want \intersect bad # {} \/ (bad # {} /\ C.set.how = "gone"))
  IN
  After(IF fails THEN Chk({"C26"}, "a file which is not written", R.err # "")
  ELSE
    /\ Eq({"C23"}, "outcome of generating", "", R.err)
    /\ Eq({"C23"}, "generated files", {n \o ".cs" : n \in want}, Elements(R.files))
    /\ Chk({"C23"}, "something is left of an older file", R.fresh)
    /\ Eq({"C23"}, "names of what was generated", want, Elements(R.names))
    /\ Chk({"C23"}, "a name which is generated twice", Cardinality(Elements(R.names)) = Len(R.names)), <<>>)

(* A class, as far as it can be seen. *)
Classes ==
  LET ty == Unbox(Ty(C.ty))
      def == Def(ty)
      probes == C.probes
      About(what) == what \o " of " \o C.ty
      CheckTable(name, want, got) ==
        /\ Eq({"C23"}, About("properties") \o name, want.props, got.props)
        /\ Eq({"C23"}, About("wire types") \o name, want.wires, got.wires)
        /\ Eq({"C23"}, About("nested states") \o name, want.inside, got.inside)
        /\ Eq({"C23"}, About("paths of nested states") \o name, want.paths, got.paths)
  IN
  After(
    /\ \A i \in DOMAIN R.errors : Report({"C23"}, R.errors[i], "", C.ty)
    /\ Eq({"C23"}, About("looking at the class"), "ok", R.res)
    /\ IF R.res # "ok" THEN TRUE
       ELSE /\ IF SameContent(ty, NewContent(ty), R.content) THEN TRUE
               ELSE Report({"C23"}, About("a new state"), NewContent(ty), R.content)
            /\ IF def.kind = "struct" THEN CheckTable("", Table(FieldsOf(ty), <<>>, R.space, probes), R.vars[1].table)
               ELSE LET first == Default(ty).t IN
                    /\ Eq({"C23"}, About("tags"), [i \in DOMAIN def.variants |-> def.variants[i].tag], R.consts)
                    /\ Eq({"C23"}, About("the first variant"), first, R.first)
                    /\ Eq({"C23"}, About("wire types"),
                          [i \in DOMAIN probes |-> IF VariantAt(ty, probes[i]) = 0 THEN -1 ELSE 2], R.wires)
                    /\ \A i \in DOMAIN def.variants :
                         LET w == def.variants[i]
                             want == OfVariant(w, <<5>>, R.space, probes)
                         IN /\ Eq({"C23"}, About("variant " \o w.cs), [want EXCEPT !.table = ""], [R.vars[i] EXCEPT !.table = ""])
                            /\ CheckTable(": " \o w.cs, want.table, R.vars[i].table), <<>>)

---------------------------------------------------------------------------
(* The implementation did not survive a command. *)
DeathProps ==
  CASE C.c \in {"replay", "rp"} -> {"C11", "C09", "C10"}
    [] C.c = "codec" ->
         CASE C.op.c \in {"de", "mrg"} -> {"C11"}
           [] C.op.c = "trip" -> {"C11", "C12"}
           [] C.op.c = "eq" -> {"C18"}
           [] C.op.c = "wr" -> {"C26"}
           [] C.op.c = "of" -> {"C21"}
           [] OTHER -> {"C14", "C13"}
    [] C.c = "snap" -> {"C02"}
    [] C.c \in {"op", "pop"} -> {"C01", "C04"} \cup OpProps(C.op) \cup (IF Has(C, "fail") THEN {"C05"} ELSE {})
    [] C.c = "new" -> {"C12"}
    [] C.c = "lg" -> {"C22"}
    [] C.c = "script" -> {"C26", "C11"}
    [] C.c \in {"conc", "hammer"} -> {"C08"}
    [] OTHER -> {"C01"}

Death ==
  After(
    /\ Report(DeathProps, "died", IF Has(R, "dead") THEN R.dead ELSE R.panic, C.c), <<>>)

---------------------------------------------------------------------------
Init == l = 1 /\ S = <<>> /\ D = <<>> /\ Q = <<>> /\ P = <<>>

Then ==
  IF Died THEN Death
  ELSE CASE C.c = "new" -> New
         [] C.c = "op" -> Op
         [] C.c = "pop" -> Pocket
         [] C.c = "snap" -> Snap
         [] C.c = "replay" -> Deliver
         [] C.c = "sync" -> Sync
         [] C.c = "rp" -> Onto
         [] C.c = "look" -> Look
         [] C.c = "eq" -> Equal
         [] C.c = "drop" -> Forget
         [] C.c = "reset" -> Reset
         [] C.c = "csnap" -> ClientSnap
         [] C.c = "creplay" -> ClientDeliver
         [] C.c = "csync" -> ClientSync
         [] C.c = "cread" -> ClientRead
         [] C.c = "emit" -> Emit
         [] C.c = "klass" -> Classes
         [] C.c = "twin" -> Twin
         [] C.c = "conc" -> Conc
         [] C.c = "hammer" -> Hammer
         [] C.c = "script" -> Script
         [] C.c = "lg" -> IF C.op.o = "open" THEN LgOpen ELSE Lg
         [] C.c = "codec" -> Codec

Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ \E s \in {Then} : S' = s.S /\ D' = s.D /\ Q' = s.Q /\ P' = s.P

Spec == Init /\ [][Next]_vars

(* Every line was consumed. *)
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================

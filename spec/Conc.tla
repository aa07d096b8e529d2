-------------------------------- MODULE Conc --------------------------------
(* Threads which change disjoint parts of one state and share its logger: all interleavings.

   DESIGN says what happens to logging while a value is built in a callback:
     detached  the value has a logger of its own meanwhile (what the code does)
     global    the shared logger is paused meanwhile (what the code once did): TLC refutes it *)
EXTENDS Small, Threads

Programs == atoi(IOEnv.ROUNDS)
Length == atoi(IOEnv.LENGTH)
Count == atoi(IOEnv.FOLLOWERS)
Global == IOEnv.DESIGN = "global"

VARIABLES
  prog,      \* the number of the program: to tell programs apart
  threads,
  was, now,  \* the state in the beginning, and now
  hist,      \* the batches which were logged
  pcs,       \* where the threads are
  pauses,    \* how often the shared logger is paused
  sched      \* the threads in the order of their steps

vars == <<prog, threads, was, now, hist, pcs, pauses, sched>>

(* Where threads may work: the fields of the state, which are in nobody else's way. *)
Places == [i \in 1..Len(FieldsOf(Ty)) |-> <<i - 1>>]
CanGate(ty, op) ==
  CASE op.o = "push" -> TRUE
    [] op.o = "ins" -> TRUE
    [] op.o = "set" -> ~FieldsOf(ty)[op.f + 1].ns
    [] op.o = "vset" -> ~VariantFields(ty, op.t)[op.f + 1].ns
    [] OTHER -> FALSE

RECURSIVE Unboxed(_)
Unboxed(ty) == IF ty.k = "box" THEN Unboxed(ty.t) ELSE ty

(* A random operation on a value itself. *)
Some1(ty, x) ==
  LET ops == SelectSeq(Ops(ty, x, <<>>), LAMBDA o : o.at = <<>>)
      o == ops[RandomElement(DOMAIN ops)].op
  IN IF CanGate(Unboxed(ty), o) /\ RandomElement(1..4) # 1 THEN [gate |-> 1, w |-> 6] @@ o ELSE o

RECURSIVE Script(_, _, _)
Script(ty, x, n) ==
  IF n = 0 THEN <<>>
  ELSE LET op == Some1(ty, x) IN <<op>> \o Script(ty, Do(ty, x, <<>>, op, <<>>, TRUE).v, n - 1)

Start0 == LET vs == Vals(Ty) IN vs[RandomElement(DOMAIN vs)]
Chosen == LET first == RandomElement(1..Len(Places)) IN [i \in 1..Count |-> Places[((first + i - 2) % Len(Places)) + 1]]

Begin(x, places) ==
  [i \in 1..Count |-> [at |-> places[i], ops |-> Script(FieldsOf(Ty)[places[i][1] + 1].t, x[places[i][1] + 1], Length)]]

Init ==
  /\ prog \in 1..Programs
  /\ \E x \in {Start0} : \E places \in {Chosen} : was = x /\ now = x /\ threads = Begin(x, places)
  /\ hist = <<>> /\ pcs = [i \in 1..Count |-> AtStart] /\ pauses = 0 /\ sched = <<>>

Next ==
  \E i \in 1..Count :
    /\ ~Over1(threads[i], pcs[i])
    /\ \E x \in {Token(Ty, now, threads[i], pcs[i])} :
       LET d == IF ~Global THEN 0 ELSE IF pcs[i].in THEN pauses - 1 ELSE pauses
       IN /\ now' = x.v
          /\ hist' = IF d > 0 THEN hist ELSE hist \o x.b
          /\ pcs' = [pcs EXCEPT ![i] = x.pc]
          /\ pauses' = IF Global /\ x.pc.in THEN d + 1 ELSE d
    /\ sched' = Append(sched, i)
    /\ UNCHANGED <<prog, threads, was>>
    /\ IF \A j \in 1..Count : Over1(threads[j], pcs'[j])
         THEN PrintT(<<"SCHED", ToJson([v |-> was, th |-> threads, sched |-> sched'])>>) ELSE TRUE

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The log describes the state, at any moment. *)
Faithful == LET r == ReplayEntries(Ty, was, EntriesOf(hist)) IN r.ok /\ SameTracked(Ty, r.v, now)

(* At the end it is an interleaving of what each thread logs on its own, and the state is what they make of it. *)
Complete ==
  (\A i \in 1..Count : Over1(threads[i], pcs[i])) =>
    LET a == AllAlone(Ty, was, threads, 1) IN Same(Ty, a.v, now) /\ Interleaves(EntriesOf(hist), 0, {}, a.bs)
=============================================================================

------------------------------ MODULE LoggersMC ------------------------------
(* All behaviours of a logger, up to some length. *)
EXTENDS Loggers, TLC, Json, IOUtils

Kind == IOEnv.TYPE
Length == atoi(IOEnv.MAXLEN)

VARIABLES
  L,
  next,   \* the next entry
  all,    \* every entry logged while it was not paused
  out,    \* every entry drained
  gone,   \* every entry forgotten by clearing or replacing
  acts    \* the behaviour so far

vars == <<L, next, all, out, gone, acts>>

Init == L = Opened(Kind) /\ next = 1 /\ all = <<>> /\ out = <<>> /\ gone = {} /\ acts = <<>>

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Held == IF L.kind \in {"batches", "picky"} THEN Flatten(L.got) ELSE L.got

Log(n) ==
  LET es == [i \in 1..n |-> next + i - 1] IN
  /\ L' = Logged(L, es, FALSE, 0)
  /\ next' = next + n
  /\ all' = IF L.depth > 0 THEN all ELSE all \o es
  /\ UNCHANGED <<out, gone>>
(* Of several which belong together, one in the middle is refused. *)
Refuse ==
  LET es == [i \in 1..3 |-> next + i - 1] IN
  /\ L' = Logged(L, es, TRUE, 1)
  /\ next' = next + 3
  /\ all' = IF L.depth > 0 THEN all ELSE Append(all, next)
  /\ UNCHANGED <<out, gone>>
Pause == L' = Paused(L) /\ UNCHANGED <<next, all, out, gone>>
Unpause == L' = Unpaused(L) /\ UNCHANGED <<next, all, out, gone>>
Draining(how) ==
  /\ L' = Drain(L, how).L
  /\ out' = IF how \in {"pluck", "pluck_bytes"} THEN out \o Held ELSE out
  /\ gone' = IF how = "clear" THEN gone \cup Range(Held) ELSE gone
  /\ UNCHANGED <<next, all>>
Replace == L' = Replaced(L) /\ gone' = gone \cup Range(Held) /\ UNCHANGED <<next, all, out>>

Do(name) ==
  CASE name = "log" -> Log(1)
    [] name = "multi" -> Log(2)
    [] name = "refuse" -> Refuse
    [] name = "pause" -> Pause
    [] name = "unpause" -> Unpause
    [] name = "replace" -> Replace
    [] OTHER -> Draining(name)

Names == {"log", "multi", "pause", "unpause", "replace"}
         \cup (IF Kind = "picky" THEN {"refuse"} ELSE {})
         \cup (IF Kind = "buffer" THEN {"bytes", "pluck", "pluck_bytes", "clear"} ELSE {})

Next ==
  /\ Len(acts) < Length
  /\ \E name \in Names :
       /\ Do(name)
       /\ acts' = Append(acts, name)
       /\ IF Len(acts) + 1 = Length THEN PrintT(<<"ACTS", ToJson(acts')>>) ELSE TRUE

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
RECURSIVE Selected(_, _)
Selected(s, T) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in T THEN <<Head(s)>> ELSE <<>>) \o Selected(Tail(s), T)
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

(* Every entry logged is drained, held, or deliberately forgotten: exactly one of them, and in order. *)
ExactlyOnce ==
  CASE L.kind \in {"buffer", "batches", "picky"} ->
         /\ Distinct(out \o Held)
         /\ Range(out) \cap gone = {} /\ Range(Held) \cap gone = {}
         /\ Selected(all, Range(all) \ gone) = out \o Held
    [] L.kind = "writer" -> L.sink = all
    [] OTHER -> TRUE
=============================================================================

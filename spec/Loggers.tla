------------------------------- MODULE Loggers -------------------------------
(* Loggers, and the runtimes through which states reach them. A log entry is whatever it is here. *)
EXTENDS Naturals, Sequences

(* kind    buffer, writer, batches (one which records how it is called), noop, picky (one which may refuse
           an entry, and takes them one by one)
   depth   how often it is paused
   got     what the current logger holds: entries, or batches of them
   sink    what was written so far, by this writer and those it replaced *)
Opened(kind) == [kind |-> kind, depth |-> 0, got |-> <<>>, sink |-> <<>>]

(* Entries which belong together arrive together. `refused` says that the sink broke on the way, or that
   the logger refused, after `n` of them: what follows is not logged then. *)
Logged(L, es, refused, n) ==
  IF L.depth > 0 THEN L
  ELSE CASE L.kind = "buffer" -> [L EXCEPT !.got = @ \o es]
         [] L.kind = "writer" -> [L EXCEPT !.sink = @ \o (IF refused THEN SubSeq(es, 1, n) ELSE es)]
         [] L.kind = "picky" -> [L EXCEPT !.got = @ \o [i \in 1..(IF refused THEN n ELSE Len(es)) |-> <<es[i]>>]]
         [] L.kind = "batches" -> [L EXCEPT !.got = Append(@, es)]
         [] OTHER -> L

Paused(L) == [L EXCEPT !.depth = @ + 1]
Unpaused(L) == [L EXCEPT !.depth = IF @ > 0 THEN @ - 1 ELSE 0]

(* Draining: what comes out, and what is left. *)
Drain(L, how) ==
  CASE how = "bytes" -> [out |-> L.got, L |-> L]
    [] how \in {"pluck", "pluck_bytes"} -> [out |-> L.got, L |-> [L EXCEPT !.got = <<>>]]
    [] how = "clear" -> [out |-> <<>>, L |-> [L EXCEPT !.got = <<>>]]

(* Another logger takes over. Pausing is a matter of the runtime, not of the logger it wraps. *)
Replaced(L) == [L EXCEPT !.got = <<>>]
=============================================================================

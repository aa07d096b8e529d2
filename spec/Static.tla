------------------------------- MODULE Static -------------------------------
(* Checks what the compiler said about declarations: a line is a declaration and whether it was accepted. *)
EXTENDS Derive, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
vars == <<l>>

Report(what, want, got) == PrintT(<<"MISMATCH", l, {"C25"}, what, want, got>>)

Then(C, R) ==
  CASE C.c = "item" ->
         LET want == Valid(C.x) IN
         IF want = R.ok THEN TRUE ELSE Report(IF want THEN "valid item rejected" ELSE "invalid item accepted", want, R)
    [] C.c = "reset" -> TRUE

Init == l = 1
Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ Then(Log[l].c, Log[l].r)
Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================

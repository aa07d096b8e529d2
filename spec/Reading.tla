------------------------------- MODULE Reading -------------------------------
(* A reader, step by step: whatever it is made of, it delivers the bytes of its source one after another, each
   exactly once. Looking whether there is more takes nothing away; what is read through a borrowed reader, or
   through one limited to a nested value, is gone from the reader which lent it, and nothing else is. *)
EXTENDS Wire

(* B     the source
   brk   the position from which on the source fails, if it does
   Steps are taken at `pos`, and end at `lim` at the latest. *)
Least(a, b) == IF a < b THEN a ELSE b
Never == 2000000000

RECURSIVE Steps(_, _, _, _, _)
(* [ok, pos, out]: what comes out of each step; <<-1>> is an error, which ends it all. *)
Steps(B, brk, ops, pos, lim) ==
  IF ops = <<>> THEN [ok |-> TRUE, pos |-> pos, out |-> <<>>]
  ELSE
    LET op == Head(ops)
        hi == Least(Least(lim, Len(B)), brk - 1)
        (* A failing source is met only if it is asked beyond what is wanted. *)
        whole == IF lim <= Len(B) THEN lim < brk ELSE brk > Len(B) + 1
        end == Least(lim, Len(B))
        bad == [ok |-> FALSE, pos |-> pos, out |-> <<<<-1>>>>]
        good(p, got) == [ok |-> TRUE, pos |-> p, out |-> <<got>>]
        inner(p, last) == LET r == Steps(B, brk, op[2], p, last) IN [r EXCEPT !.out = <<<<>>>> \o @]
        one ==
          CASE op[1] = "eof" -> IF pos > lim THEN good(pos, <<1>>)
                                ELSE IF pos >= brk THEN bad
                                ELSE good(pos, <<IF pos > Len(B) THEN 1 ELSE 0>>)
            [] op[1] = "exact" -> IF op[2] = 0 THEN good(pos, <<>>)
                                  ELSE IF pos + op[2] - 1 <= hi THEN good(pos + op[2], SubSeq(B, pos, pos + op[2] - 1)) ELSE bad
            [] op[1] = "all" -> IF pos > lim THEN good(pos, <<>>)
                                ELSE IF whole THEN good(end + 1, SubSeq(B, pos, end)) ELSE bad
            [] op[1] = "num" -> LET e == VarintEnd(B, pos, hi)
                                IN IF e = 0 THEN bad ELSE good(e + 1, VarintBytes(B, pos, e, 4))
            [] op[1] = "tag" -> LET t == ReadTag(B, pos, hi)
                                IN IF t.ok THEN good(t.pos, <<t.num, t.wt>>) ELSE bad
            [] op[1] = "skip" -> IF op[2] = 0
                                   THEN LET e == VarintEnd(B, pos, hi) IN IF e = 0 THEN bad ELSE good(e + 1, <<>>)
                                   ELSE LET z == ReadSize(B, pos, hi)
                                        IN IF z.ok /\ z.pos + z.n - 1 <= hi THEN good(z.pos + z.n, <<>>) ELSE bad
            [] op[1] = "sub" -> inner(pos, lim)
            [] op[1] = "nest" -> LET z == ReadSize(B, pos, hi)
                                 IN IF z.ok THEN inner(z.pos, Least(lim, z.pos + z.n - 1)) ELSE bad
    IN IF ~one.ok THEN one
       ELSE LET rest == Steps(B, brk, Tail(ops), one.pos, lim) IN [rest EXCEPT !.out = one.out \o @]

Read(B, ops, rfail) == Steps(B, IF rfail < 0 THEN Never ELSE rfail + 1, ops, 1, Never - 1).out
=============================================================================

-------------------------------- MODULE Wire --------------------------------
(* The primitives of the wire format: base-128 varints, zigzag, tags, sizes.

   Bytes are sequences over 0..255. Integers of the modelled system are represented by their
   little-endian two's complement bytes, since TLC's own integers are 32 bits wide. Numbers which
   may not fit (tags, keys, path elements) are reported as Huge, which is no valid position of
   anything. *)
EXTENDS Integers, Sequences

Byte == 0..255
Huge == -1

(* Flattens a sequence of sequences. *)
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)
Flat(ss) == Cat(ss, 1)

Pow2(n) == 2 ^ n

---------------------------------------------------------------------------
(* Unsigned varints. *)

At0(b, i) == IF i >= 1 /\ i <= Len(b) THEN b[i] ELSE 0

(* The k-th group of seven bits of little-endian bytes. *)
Group(b, k) ==
  LET bit == 7 * k
      i == bit \div 8 + 1
      s == bit % 8
  IN (At0(b, i) \div Pow2(s) + At0(b, i + 1) * Pow2(8 - s)) % 128

GroupCount(w) == (8 * w + 6) \div 7

(* The number of groups needed: at least one, and no leading zeros. *)
Needed(b) ==
  LET n == GroupCount(Len(b))
      used == {k \in 0..(n - 1) : Group(b, k) # 0}
  IN IF used = {} THEN 1 ELSE (CHOOSE k \in used : \A j \in used : j <= k) + 1

Varint(b) ==
  LET n == Needed(b)
  IN [k \in 1..n |-> Group(b, k - 1) + (IF k < n THEN 128 ELSE 0)]

(* Varint of an ordinary number. *)
RECURSIVE VarintN(_)
VarintN(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o VarintN(n \div 128)

RECURSIVE VarintLenN(_)
VarintLenN(n) == IF n < 128 THEN 1 ELSE 1 + VarintLenN(n \div 128)

(* Reading: where the varint which starts at `lo` ends, 0 if it does not end up to `hi`. *)
RECURSIVE VarintEnd(_, _, _)
VarintEnd(B, lo, hi) ==
  IF lo > hi THEN 0 ELSE IF B[lo] < 128 THEN lo ELSE VarintEnd(B, lo + 1, hi)

(* The low `w` bytes of the varint at lo..end: whatever does not fit is dropped. *)
VarintBytes(B, lo, end, w) ==
  LET n == end - lo + 1
      g(k) == IF k < n THEN B[lo + k] % 128 ELSE 0
  IN [i \in 1..w |->
        LET bit == 8 * (i - 1)
            j == bit \div 7
            s == bit % 7
        IN (g(j) \div Pow2(s) + g(j + 1) * Pow2(7 - s)) % 256]

NonZeroVarint(B, lo, end) == \E i \in lo..end : B[i] % 128 # 0

---------------------------------------------------------------------------
(* Zigzag: small absolute values get small codes. *)

Negative(b) == b[Len(b)] >= 128

Zigzag(b) ==
  LET neg == Negative(b)
      c == [i \in DOMAIN b |-> IF neg THEN 255 - b[i] ELSE b[i]]
  IN [i \in DOMAIN b |->
        ((c[i] * 2) % 256) + (IF i > 1 THEN c[i - 1] \div 128 ELSE IF neg THEN 1 ELSE 0)]

Unzigzag(b) ==
  LET odd == b[1] % 2 = 1
      h == [i \in DOMAIN b |-> b[i] \div 2 + (IF i < Len(b) THEN (b[i + 1] % 2) * 128 ELSE 0)]
  IN [i \in DOMAIN b |-> IF odd THEN 255 - h[i] ELSE h[i]]

---------------------------------------------------------------------------
(* Numbers from four little-endian bytes. *)

Num4(b) ==
  IF b[4] >= 128 \/ (b[4] = 127 /\ b[3] = 255 /\ b[2] = 255 /\ b[1] = 255) THEN Huge
  ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]

Bytes4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>

FieldMax == 536870911

(* A tag: field number and wire type. *)
TagBytes(num, wt) ==
  LET low == (num % 16) * 8 + wt
      rest == num \div 16
  IN IF rest = 0 THEN <<low>> ELSE <<128 + low>> \o VarintN(rest)

(* [ok, num, wt, pos] *)
ReadTag(B, lo, hi) ==
  LET end == VarintEnd(B, lo, hi) IN
  IF end = 0 THEN [ok |-> FALSE, num |-> 0, wt |-> 0, pos |-> lo]
  ELSE LET b == VarintBytes(B, lo, end, 4)
           wt == b[1] % 8
       IN [ok |-> wt \in {0, 2},
           num |-> b[1] \div 8 + 32 * b[2] + 8192 * b[3] + 2097152 * b[4],
           wt |-> wt,
           pos |-> end + 1]

(* A size: 64 bits wide on the wire; anything beyond the model's inputs is as good as infinite. *)
FarAway == 1073741824

ReadSize(B, lo, hi) ==
  LET end == VarintEnd(B, lo, hi) IN
  IF end = 0 THEN [ok |-> FALSE, n |-> 0, pos |-> lo]
  ELSE LET b == VarintBytes(B, lo, end, 8)
       IN [ok |-> TRUE,
           n |-> IF b[4] >= 64 \/ b[5] + b[6] + b[7] + b[8] > 0 THEN FarAway ELSE Num4(b),
           pos |-> end + 1]

---------------------------------------------------------------------------
(* UTF-8, as strings must be. *)
(* How many bytes the code point which starts with a byte has, 0 if none does. *)
Lead(c) == IF c < 128 THEN 1 ELSE IF c \in 194..223 THEN 2 ELSE IF c \in 224..239 THEN 3 ELSE IF c \in 240..244 THEN 4 ELSE 0
Continues(c) == c \in 128..191
Utf8(b) ==
  \A i \in DOMAIN b :
    LET c == b[i] IN
    IF Continues(c)
      THEN \E k \in 1..3 :
             /\ k < i
             /\ Lead(b[i - k]) > k
             /\ \A j \in 1..(k - 1) : Continues(b[i - j])
    ELSE /\ Lead(c) > 0
         /\ i + Lead(c) - 1 <= Len(b)
         /\ \A j \in 1..(Lead(c) - 1) : Continues(b[i + j])
         /\ (c = 224 => b[i + 1] >= 160)
         /\ (c = 237 => b[i + 1] < 160)
         /\ (c = 240 => b[i + 1] >= 144)
         /\ (c = 244 => b[i + 1] < 144)
=============================================================================

-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8 (RFC 3629) over byte sequences.  Positions are byte offsets from  *)
(* 0; w is a sequence of bytes.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxRune == 1114111                       \* U+10FFFF
IsSurrogate(r) == r >= 55296 /\ r <= 57343
IsScalar(r)    == r >= 0 /\ r <= MaxRune /\ ~IsSurrogate(r)

\* The encoding of a scalar value.
Encode(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
  ELSE IF r < 65536
       THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
       ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64),
              128 + ((r \div 64) % 64), 128 + (r % 64)>>

RECURSIVE EncodeAll(_)
EncodeAll(rs) == IF rs = <<>> THEN <<>> ELSE Encode(Head(rs)) \o EncodeAll(Tail(rs))

NoRune == [r |-> -1, n |-> 0]            \* no character starts there

IsCont(b) == b >= 128 /\ b <= 191

\* The character starting at offset i of w, if any: its code and byte length.
DecodeAt(w, i) ==
  LET len == Len(w) - i
      b1  == w[i + 1]
      b2  == w[i + 2]
      b3  == w[i + 3]
      b4  == w[i + 4]
      ok(r, n, min) == IF r >= min /\ IsScalar(r) THEN [r |-> r, n |-> n] ELSE NoRune
  IN  IF len <= 0 THEN NoRune
      ELSE IF b1 < 128 THEN [r |-> b1, n |-> 1]
      ELSE IF b1 >= 194 /\ b1 <= 223
           THEN IF len >= 2 /\ IsCont(b2)
                THEN ok((b1 - 192) * 64 + (b2 - 128), 2, 128) ELSE NoRune
      ELSE IF b1 >= 224 /\ b1 <= 239
           THEN IF len >= 3 /\ IsCont(b2) /\ IsCont(b3)
                THEN ok((b1 - 224) * 4096 + (b2 - 128) * 64 + (b3 - 128), 3, 2048) ELSE NoRune
      ELSE IF b1 >= 240 /\ b1 <= 244
           THEN IF len >= 4 /\ IsCont(b2) /\ IsCont(b3) /\ IsCont(b4)
                THEN ok((b1 - 240) * 262144 + (b2 - 128) * 4096 + (b3 - 128) * 64 + (b4 - 128), 4, 65536)
                ELSE NoRune
      ELSE NoRune

RECURSIVE ValidFrom(_, _)
ValidFrom(w, i) == \/ i = Len(w)
                   \/ LET d == DecodeAt(w, i) IN d.n > 0 /\ ValidFrom(w, i + d.n)
ValidUtf8(w) == ValidFrom(w, 0)
=============================================================================

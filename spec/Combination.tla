------------------------------------ MODULE Combination -----------------------------------
(* The contents of repairs: linear combinations of the contents and of the sizes of sources.  *)
(* Symbols are sequences of bytes, made of little-endian words of w bits (of two elements per *)
(* byte if w = 4).  Sources which are shorter than the repair are padded with zeroes.         *)
EXTENDS GF, SequencesExt

WordBytes(w) == IF w = 32 THEN 4 ELSE IF w = 16 THEN 2 ELSE 1

\* c * byte, when w <= 8
MulByte(w, c, b) ==
  IF w = 8 THEN GMul(8, c, b)
  ELSE GMul(4, c, b % 16) + 16 * GMul(4, c, b \div 16)

\* The k-th word of sequence of bytes s.
WordAt(w, s, k) ==
  IF w <= 8 THEN s[k]
  ELSE IF w = 16 THEN s[2 * k - 1] + 256 * s[2 * k]
  ELSE <<s[4 * k - 1] + 256 * s[4 * k], s[4 * k - 3] + 256 * s[4 * k - 2]>>

MulWord(w, c, x) == IF w <= 8 THEN MulByte(w, c, x) ELSE GMul(w, c, x)

\* The k-th word of the combination of sources: src is a sequence of [c |-> coefficient, s |-> bytes]
CombinedWord(w, src, k) ==
  FoldLeft( LAMBDA acc, x : IF Len(x.s) < k * WordBytes(w) THEN acc
                            ELSE GAdd(w, acc, MulWord(w, x.c, WordAt(w, x.s, k)))
          , Zero(w), src)

CombinationOK(w, src, sym) ==
  \A k \in 1..(Len(sym) \div WordBytes(w)) : CombinedWord(w, src, k) = WordAt(w, sym, k)

\* The encoded size, as a 32-bit natural <<hi, lo>>, of sources of sizes x.n
MulSize(w, c, n) ==
  CASE w <= 8  -> <<0, MulByte(w, c, n % 256) + 256 * MulByte(w, c, n \div 256)>>
    [] w = 16 -> <<0, GMul(16, c, n)>>
    [] w = 32 -> GMul(32, c, <<0, n>>)

EncodedSize(w, src) ==
  FoldLeft( LAMBDA acc, x : LET m == MulSize(w, x.c, x.n) IN <<acc[1] ^^ m[1], acc[2] ^^ m[2]>>
          , <<0, 0>>, src)
============================================================================================

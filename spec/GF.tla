---------------------------------------- MODULE GF ----------------------------------------
(* The Galois fields GF(2^w), w in {4, 8, 16, 32}, on which sources are combined, and the    *)
(* published coefficients.                                                                    *)
(*                                                                                            *)
(* Elements are naturals < 2^w when w <= 16 and pairs <<hi, lo>> of 16-bit halves when w = 32 *)
(* (TLC's integers have 32 bits, with a sign).                                                *)
EXTENDS Naturals, Sequences, FiniteSets, Bitwise, GFTables, FiniteSetsExt, TLC

FieldSizes == {4, 8, 16, 32}

Zero(w) == IF w = 32 THEN <<0, 0>> ELSE 0
One(w)  == IF w = 32 THEN <<0, 1>> ELSE 1

(* Addition is exclusive or. *)
GAdd(w, a, b) == IF w = 32 THEN <<a[1] ^^ b[1], a[2] ^^ b[2]>> ELSE a ^^ b

--------------------------------------------------------------------------------------------
(* Multiplication. *)

\* x * a in GF(2^16), primitive polynomial x^16 + x^12 + x^3 + x + 1
Dbl16(a) == IF a >= 32768 THEN ((a - 32768) * 2) ^^ 4107 ELSE a * 2

RECURSIVE Mul16F(_, _, _)
Mul16F(a, b, acc) == IF b = 0 THEN acc
                     ELSE Mul16F(Dbl16(a), b \div 2, IF b % 2 = 1 THEN acc ^^ a ELSE acc)

\* x * a in GF(2^32), primitive polynomial x^32 + x^22 + x^2 + x + 1
Dbl32(a) ==
  LET hi == (a[1] % 32768) * 2 + a[2] \div 32768
      lo == (a[2] % 32768) * 2
  IN IF a[1] >= 32768 THEN <<hi ^^ 64, lo ^^ 7>> ELSE <<hi, lo>>

RECURSIVE Mul32F(_, _, _, _)
Mul32F(a, bh, bl, acc) ==
  IF bh = 0 /\ bl = 0 THEN acc
  ELSE Mul32F( Dbl32(a), bh \div 2, (bl \div 2) + (bh % 2) * 32768
             , IF bl % 2 = 1 THEN <<acc[1] ^^ a[1], acc[2] ^^ a[2]>> ELSE acc)

GMul(w, a, b) ==
  CASE w = 8  -> IF a = 0 \/ b = 0 THEN 0 ELSE Exp8[((Log8[a] + Log8[b]) % 255) + 1]
    [] w = 4  -> IF a = 0 \/ b = 0 THEN 0 ELSE Exp4[((Log4[a] + Log4[b]) % 15) + 1]
    [] w = 16 -> Mul16F(a, b, 0)
    [] w = 32 -> Mul32F(a, b[1], b[2], <<0, 0>>)

\* Inverse (only for the table driven fields).
GInv(w, a) == IF w = 8 THEN Exp8[((255 - Log8[a]) % 255) + 1] ELSE Exp4[((15 - Log4[a]) % 15) + 1]

--------------------------------------------------------------------------------------------
(* Arithmetic modulo 2^32 on <<hi, lo>>. *)

U32(n) == <<n \div 65536, n % 65536>>                    \* n is a natural < 2^31

AddU32(a, b) == LET lo == a[2] + b[2]
                IN  <<(a[1] + b[1] + lo \div 65536) % 65536, lo % 65536>>

\* The 32-bit product of two 16-bit naturals.
Mul16x16(x, y) ==
  LET p  == (x % 256) * y
      q  == (x \div 256) * y
      t  == p + (q % 256) * 256
  IN  <<(q \div 256) + t \div 65536, t % 65536>>

MulU32(a, b) ==
  LET ll == Mul16x16(a[2], b[2])
      hl == Mul16x16(a[1], b[2])
      lh == Mul16x16(a[2], b[1])
  IN  <<(ll[1] + hl[2] + lh[2]) % 65536, ll[2]>>

(* The coefficient of source s in repair r: never 0. *)
Coef(w, r, s) ==
  LET p == MulU32(AddU32(AddU32(U32(r), U32(s)), <<0, 2>>), AddU32(U32(r), <<0, 1>>))
  IN CASE w = 32 -> IF p = <<0, 0>> THEN <<0, 1>> ELSE p
       [] w = 16 -> ((p[1] + p[2]) % 65535) + 1       \* 2^16 = 1 modulo 2^16 - 1
       [] w = 8  -> ((p[1] + p[2]) % 255) + 1         \* 2^16 = 1 modulo 2^8 - 1
       [] w = 4  -> ((p[1] + p[2]) % 15) + 1          \* 2^16 = 1 modulo 2^4 - 1

--------------------------------------------------------------------------------------------
(* Rank of a set of repairs, as linear forms over unknown sources.                            *)
(* A row is a sequence of n field elements.  Fraction-free elimination: no division needed.   *)

RECURSIVE RankFrom(_, _, _, _)
RankFrom(w, rows, c, n) ==
  IF c > n \/ rows = <<>> THEN 0
  ELSE LET z == Zero(w)
           P == {i \in 1..Len(rows) : rows[i][c] # z}
       IN IF P = {} THEN RankFrom(w, rows, c + 1, n)
          ELSE LET p   == Min(P)
                   piv == rows[p]
                   red(r) == IF r[c] = z THEN r
                             ELSE TLCEval([k \in 1..n |-> IF k <= c THEN z
                                     ELSE GAdd(w, GMul(w, r[k], piv[c]), GMul(w, piv[k], r[c]))])
                   rest == TLCEval([i \in 1..(Len(rows) - 1) |->
                              red(IF i < p THEN rows[i] ELSE rows[i + 1])])
               IN 1 + RankFrom(w, rest, c + 1, n)

Rank(w, rows, n) == RankFrom(w, rows, 1, n)
============================================================================================

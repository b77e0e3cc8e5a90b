---- MODULE Bytes ----
(* Fields of a binary file: little-endian integers and the IEEE floats whose
   value is a multiple of 1/s.  Offsets count from zero. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
NANV == 2000000001
U8(b, p) == b[p + 1]
I8(b, p) == IF b[p + 1] > 127 THEN b[p + 1] - 256 ELSE b[p + 1]
U16(b, p) == b[p + 1] + 256 * b[p + 2]
I16(b, p) == LET v == U16(b, p) IN IF v > 32767 THEN v - 65536 ELSE v
U24(b, p) == b[p + 1] + 256 * b[p + 2] + 65536 * b[p + 3]
I32(b, p) == U24(b, p) + 16777216 * I8(b, p + 3)
U32(b, p) == U24(b, p) + 16777216 * b[p + 4]         \* below 2^31 only
Bit(x, k) == (x \div (2^k)) % 2
Bits(x, k, n) == (x \div (2^k)) % (2^n)
ByteSum(b, p, n) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(b, p + 1, p + n))
\* word sums modulo 65536 of n bytes (n even)
WordSum(b, p, n) == FoldLeft(LAMBDA a, i : (a + U16(b, p + 2 * (i - 1))) % 65536, 0, [i \in 1..(n \div 2) |-> i])
Pow(k) == 2^k
Shift(m, k) == IF k >= 0 THEN m * Pow(k) ELSE IF -k > 30 THEN 0 ELSE m \div Pow(-k)
\* value times s (s a power of two, given as its exponent)
F32(b, p, s) ==
  LET e == (b[p + 4] % 128) * 2 + b[p + 3] \div 128
      m == (b[p + 3] % 128) * 65536 + b[p + 2] * 256 + b[p + 1]
      sg == IF b[p + 4] > 127 THEN -1 ELSE 1
  IN IF e = 0 THEN 0 ELSE IF e = 255 THEN NANV ELSE sg * Shift(8388608 + m, e - 127 - 23 + s)
F64(b, p, s) ==
  LET e == (b[p + 8] % 128) * 16 + b[p + 7] \div 16
      m == (b[p + 7] % 16) * 65536 + b[p + 6] * 256 + b[p + 5]
      sg == IF b[p + 8] > 127 THEN -1 ELSE 1
  IN IF e = 0 THEN 0 ELSE IF e = 2047 THEN NANV ELSE sg * Shift(1048576 + m, e - 1023 - 20 + s)
Digit(c) == c - 48
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> IF IsLeap(y) THEN 29 ELSE 28
ValidDate(y, m, d, h, mi, s) == y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m) /\ h < 24 /\ mi < 60 /\ s < 60
====

---- MODULE Fl ----
(* Floating-point numbers for expressions that are not rational: <<m, e>> is
   m * 2^e with 2^14 <= |m| < 2^15, zero is <<0, 0>>, missing is <<0, 9999>>.
   Every operation is correct to about one part in 30000. *)
EXTENDS Num
FZ == <<0, 0>>
FNaN == <<0, 9999>>
FIsNaN(a) == a = FNaN
P2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32
           [] k = 6 -> 64 [] k = 7 -> 128 [] k = 8 -> 256 [] k = 9 -> 512 [] k = 10 -> 1024
           [] k = 11 -> 2048 [] k = 12 -> 4096 [] k = 13 -> 8192 [] k = 14 -> 16384
           [] k = 15 -> 32768 [] k = 16 -> 65536 [] k = 17 -> 131072 [] k = 18 -> 262144
           [] OTHER -> 2^k
RECURSIVE FUp(_, _)
FUp(m, e) == IF m >= 16384 THEN <<m, e>> ELSE FUp(2 * m, e - 1)
RECURSIVE FDown(_, _)
FDown(m, e) == IF m < 32768 THEN <<m, e>>
               ELSE IF m >= 16777216 THEN FDown((m + 128) \div 256, e + 8)
               ELSE IF m = 32768 THEN <<16384, e + 1>> ELSE FDown((m + 1) \div 2, e + 1)
\* m is a positive integer
FPos(m, e) == IF m < 16384 THEN FUp(m, e) ELSE FDown(m, e)
FMake(m, e) == IF m = 0 THEN FZ ELSE IF m > 0 THEN FPos(m, e)
               ELSE LET p == FPos(-m, e) IN <<-p[1], p[2]>>
FInt(n) == FMake(n, 0)
FNeg(a) == IF FIsNaN(a) THEN a ELSE <<-a[1], a[2]>>
FMul(a, b) == IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
              ELSE IF a[1] = 0 \/ b[1] = 0 THEN FZ
              ELSE LET s == Sgn(a[1]) * Sgn(b[1])
                       p == FPos(Abs(a[1]) * Abs(b[1]), a[2] + b[2]) IN <<s * p[1], p[2]>>
FDivF(a, b) == IF FIsNaN(a) \/ FIsNaN(b) \/ b[1] = 0 THEN FNaN
               ELSE IF a[1] = 0 THEN FZ
               ELSE LET s == Sgn(a[1]) * Sgn(b[1])
                        p == FPos((Abs(a[1]) * 32768 + Abs(b[1]) \div 2) \div Abs(b[1]), a[2] - b[2] - 15) IN
                    <<s * p[1], p[2]>>
FAdd(a, b) == IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
              ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE LET hi == IF a[2] >= b[2] THEN a ELSE b
                       lo == IF a[2] >= b[2] THEN b ELSE a
                       d == hi[2] - lo[2] IN
                   IF d > 15 THEN hi ELSE FMake(hi[1] * P2(d) + lo[1], lo[2])
FSub(a, b) == FAdd(a, FNeg(b))
FRat(r) == FDivF(FInt(r[1]), FInt(r[2]))
FQ(n, d) == FDivF(FInt(n), FInt(d))
RECURSIVE FPowN(_, _)
FPowN(a, n) == IF n = 0 THEN FInt(1) ELSE IF n = 1 THEN a ELSE FMul(a, FPowN(a, n - 1))
FLt(a, b) == LET d == FSub(a, b) IN d[1] < 0
FSum(s) == FoldLeft(LAMBDA x, y : FAdd(x, y), FZ, s)
FMean(s) == FDivF(FSum(s), FInt(Len(s)))
\* k-th root of a positive number: exponent divided exactly, mantissa by bisection
FRoot(a, k) ==
  IF FIsNaN(a) \/ a[1] < 0 THEN FNaN ELSE IF a[1] = 0 THEN FZ
  ELSE LET q == (a[2] + 15) \div k            \* a in [2^(kq), 2^(kq+k)) roughly
           x == <<a[1], a[2] - k * q>>          \* root in [2^-1, 2^k)
           RECURSIVE Bis(_, _, _)
           \* candidates are <<m, 0>> / 2^13, i.e. m * 2^-13
           Bis(lo, hi, n) == IF n = 0 \/ hi - lo <= 1 THEN lo
                             ELSE LET mid == (lo + hi) \div 2 IN
                                  IF FLt(x, FPowN(FMake(mid, -16), k)) THEN Bis(lo, mid, n - 1) ELSE Bis(mid, hi, n - 1)
           m == Bis(16384, 524288, 22) IN
       LET r == FMake(m, -16) IN <<r[1], r[2] + q>>
\* a^(n/d)
FPow(a, n, d) == FRoot(FPowN(a, n), d)
\* |a - b| at most one part in k of b (or of floor)
FCloseAbs(a, b, k, floor) ==
  IF FIsNaN(a) \/ FIsNaN(b) THEN FIsNaN(a) /\ FIsNaN(b)
  ELSE LET d == FSub(a, b)
           m == IF FLt(<<Abs(b[1]), b[2]>>, floor) THEN floor ELSE <<Abs(b[1]), b[2]>> IN
       d[1] = 0 \/ ~FLt(FDivF(m, FInt(k)), <<Abs(d[1]), d[2]>>)
FClose(a, b, k) == FCloseAbs(a, b, k, FZ)
\* the integer nearest to a * 10^d, for a in range
FMedian(s) == LET t == SortSeq(s, LAMBDA x, y : FLt(x, y))
                  n == Len(s) IN
              IF n = 0 THEN FNaN
              ELSE IF n % 2 = 1 THEN t[(n + 1) \div 2]
              ELSE FDivF(FAdd(t[n \div 2], t[n \div 2 + 1]), FInt(2))
FPi == FQ(355, 113)
====

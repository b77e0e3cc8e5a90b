---- MODULE Cleaning ----
(* Despiking an ADV record: which samples each rule flags, and what replaces the
   flagged ones.  Records are rows of integers; NAN marks a missing sample. *)
EXTENDS Num, Json
\* ---------------------------------------------------------------- flagging
\* a sample is good only strictly inside the limits; missing is never inside
RangeMask(x, lo, hi) == [i \in 1..Len(x) |-> ~(x[i] # NAN /\ lo < x[i] /\ x[i] < hi)]
\* a spike is a jump of more than thr from the sample before; the first sample
\* has nothing before it
SpikeMask(x, thr) == [i \in 1..Len(x) |->
   i > 1 /\ x[i] # NAN /\ x[i - 1] # NAN /\ Abs(x[i] - x[i - 1]) > thr]

\* Goring & Nikora (2002) with Wahl's (2003) ellipsoid, in integers.  For a window
\* of n samples: A = 4n (u - mean), B = 4n du, C = 4n d2u with centred differences
\* that vanish at the window's ends.  A sample is a spike when it lies outside the
\* ellipsoid whose axes are the universal threshold sqrt(2 ln n) times the standard
\* deviations, turned by the angle whose tangent is t = sum(u d2u) / sum(u^2).
\* floor(a / b * 10^d) for a >= 0, by long division
Frac(a, b, d) == LET RECURSIVE F(_, _, _)
                     F(rr, k, acc) == IF k = 0 THEN acc
                                      ELSE F((10 * rr) % b, k - 1, 10 * acc + ((10 * rr) \div b))
                 IN F(a % b, d, a \div b)
SFrac(a, b, d) == IF a < 0 THEN -Frac(-a, b, d) ELSE Frac(a, b, d)
TwoLn == <<0, 1386, 2197, 2773, 3219, 3584, 3892, 4159, 4394, 4605, 4796, 4970, 5130, 5278, 5416, 5545>>
GnA(x) == LET m == Sum(x) IN TLCEval([i \in 1..Len(x) |-> 4 * (Len(x) * x[i] - m)])
GnB(x) == LET a == GnA(x) n == Len(x) IN TLCEval(
          [i \in 1..n |-> IF i = 1 \/ i = n THEN 0 ELSE (a[i + 1] - a[i - 1]) \div 2])
GnC(x) == LET b == GnB(x) n == Len(x) IN TLCEval(
          [i \in 1..n |-> IF i <= 2 \/ i >= n - 1 THEN 0 ELSE (b[i + 1] - b[i - 1]) \div 2])
\* verdict for each sample: 1 spike, 0 no spike, 2 not decided here (too close to
\* the ellipsoid, or a degenerate window)
GnWindow(x) ==
  LET n == Len(x)
      A == TLCEval(GnA(x))
      B == TLCEval(GnB(x))
      C == TLCEval(GnC(x))
      sA == Dot(A, A)
      T == SFrac(Dot(A, C), sA, 4)
      T2 == RDiv(T * T, 100000)                           \* t^2 in 1/1000
      vu == RDiv(sA, n)
      vb == RDiv(n * Dot(B, B) - Sum(B) * Sum(B), n * n)
      vc == RDiv(n * Dot(C, C) - Sum(C) * Sum(C), n * n)
      da == vu - RDiv(T2 * vc, 1000)
      db == vc - RDiv(T2 * vu, 1000)
      Lhs(i) == LET p == A[i] + RDiv(T * C[i], 10000)
                    r == RDiv(T * A[i], 10000) - C[i]
                    s == Frac(p * p, da, 3) + Frac(r * r, db, 3)
                IN RDiv((1000 - T2) * Min2(s, 1000000), 1000 + T2) + Frac(B[i] * B[i], vb, 3)
  IN IF \E i \in 1..n : x[i] = NAN THEN [i \in 1..n |-> 2]
     ELSE IF sA = 0 THEN [i \in 1..n |-> 0]
     ELSE IF n < 5 \/ n > 16 \/ Abs(T) > 9000 \/ vb < 50 \/ vu < 50 \/ da < 50 \/ db < 50
             \/ 20 * da < vu \/ 20 * db < vc
          THEN [i \in 1..n |-> 2]
     ELSE TLCEval([i \in 1..n |-> LET l == Lhs(i) IN
             IF 25 * Abs(l - TwoLn[n]) <= TwoLn[n] THEN 2 ELSE IF l > TwoLn[n] THEN 1 ELSE 0])
\* consecutive windows of npt samples from the start, and one more that ends with
\* the record and overrules them
GnMask(x, npt) ==
  LET n == Len(x)
      k == n \div npt
      w(j) == GnWindow(SubSeq(x, (j - 1) * npt + 1, j * npt))
      last == TLCEval(GnWindow(SubSeq(x, Max2(1, n - npt + 1), n)))
      off == n - Len(last)
      ws == TLCEval([j \in 1..k |-> w(j)])
  IN TLCEval([i \in 1..n |-> IF i > off THEN last[i - off]
                     ELSE ws[(i - 1) \div npt + 1][((i - 1) % npt) + 1]])
\* ---------------------------------------------------------------- replacing
Bad(x, m) == TLCEval([i \in 1..Len(x) |-> m[i] \/ x[i] = NAN])
PrevGood(b, i) == LET S == {j \in 1..i : ~b[j]} IN IF S = {} THEN 0 ELSE Max(S)
NextGood(b, i) == LET S == {j \in i..Len(b) : ~b[j]} IN IF S = {} THEN 0 ELSE Min(S)
MISS == <<NAN, 1>>
PolyAt(c, t) == c[1] + t * (c[2] + t * (c[3] + t * c[4]))
\* the first `lim` samples of every gap that has good samples on both sides
Fillable(b, i, lim) == b[i] /\ PrevGood(b, i) > 0 /\ NextGood(b, i) > 0 /\ i - PrevGood(b, i) <= lim
LinearAt(x, t, b, i) == LET p == PrevGood(b, i) n == NextGood(b, i) IN
   RAdd(RInt(x[p]), RMul(RInt(x[n] - x[p]), Rat(t[i] - t[p], t[n] - t[p])))
Filled(x, t, b, lim, method, poly) == [i \in 1..Len(x) |->
   IF ~b[i] THEN RInt(x[i])
   ELSE IF ~Fillable(b, i, lim) THEN MISS
   ELSE IF method = "linear" THEN LinearAt(x, t, b, i)
   ELSE RInt(PolyAt(poly, t[i]))]
\* the stretches of record a replacement is fitted over: npt samples either side
RECURSIVE Scan(_, _, _, _, _)
Scan(b, npt, pos, start, tail) ==
  IF pos > Len(b) THEN <<>>
  ELSE LET opens == start = 0 /\ b[pos]
           s2 == IF opens THEN Max2(pos - npt, 1) ELSE start
           t2 == IF start = 0 THEN 0 ELSE IF b[pos] THEN 0 ELSE tail + 1
           shut == start > 0 /\ (t2 = npt \/ pos = Len(b)) IN
       IF shut THEN <<<<s2, pos>>>> \o Scan(b, npt, pos + 1, 0, 0)
       ELSE Scan(b, npt, pos + 1, s2, t2)
Blocks(b, npt) == Scan(b, npt, 1, 0, 0)
GoodIn(b, k) == Cardinality({i \in k[1]..k[2] : ~b[i]})
TooFew(b, npt, need) == \E k \in ToSet(Blocks(b, npt)) : GoodIn(b, k) > 0 /\ GoodIn(b, k) < need
\* mean of the good samples of the ensemble; the remainder is an ensemble too
EnsMean(x, b, nb, i) ==
  LET s == ((i - 1) \div nb) * nb + 1
      G == {j \in s..Min2(s + nb - 1, Len(x)) : ~b[j]} IN
  IF G = {} THEN MISS ELSE Rat(SumF(Len(x), LAMBDA j : IF j \in G THEN x[j] ELSE 0), Cardinality(G))
MeanFilled(x, b, nb) == [i \in 1..Len(x) |-> IF b[i] THEN EnsMean(x, b, nb, i) ELSE RInt(x[i])]

ObsR(o, r, sc, tol) == IF r[1] = NAN THEN o = NAN ELSE Close(o, RScaled(r, sc), tol)
RowOk(o, f, sc, tol) == Len(o) = Len(f) /\ \A i \in 1..Len(f) : ObsR(o[i], f[i], sc, tol)
Rows(e, P(_)) == \A r \in 1..Len(e.x) : P(r)
Kept(e) == Rows(e, LAMBDA r : \A i \in 1..Len(e.x[r]) :
             (~e.m[r][i] /\ e.x[r][i] # NAN) => e.out[r][i] = e.sc * e.x[r][i])
FailClean(e) == CASE
     e.k = "range" -> IF Rows(e, LAMBDA r : e.m[r] = RangeMask(e.x[r], e.lo, e.hi)) THEN {} ELSE {"range-limit"}
  [] e.k = "spike" -> IF Rows(e, LAMBDA r : e.m[r] = SpikeMask(e.x[r], e.thr)) THEN {} ELSE {"spike-threshold"}
  [] e.k = "gn" -> IF Rows(e, LAMBDA r : LET g == GnMask(e.x[r], e.npt) IN
                        /\ Len(e.m[r]) = Len(e.x[r])
                        /\ \A i \in 1..Len(g) : g[i] = 2 \/ e.m[r][i] = (g[i] = 1))
                   THEN {} ELSE {"phase-space-threshold"}
  [] e.k = "gnsplit" -> IF e.m = e.parts THEN {} ELSE {"phase-space-segments"}
  [] e.k = "fill" ->
       LET few == e.method = "cubic" /\ \E r \in 1..Len(e.x) : TooFew(Bad(e.x[r], e.m[r]), e.npt, 4) IN
       IF e.raised THEN IF few THEN {} ELSE {"fill-refused"}
       ELSE (IF Kept(e) /\ e.exact THEN {} ELSE {"good-sample-changed"})
            \cup (IF Rows(e, LAMBDA r : RowOk(e.out[r],
                       Filled(e.x[r], e.t, Bad(e.x[r], e.m[r]), e.lim, e.method, e.poly[r]), e.sc, e.tol))
                  THEN {} ELSE {"replacement"})
  [] e.k = "mean" ->
       (IF Kept(e) /\ e.exact THEN {} ELSE {"good-sample-changed"})
       \cup (IF Rows(e, LAMBDA r : RowOk(e.out[r], MeanFilled(e.x[r], Bad(e.x[r], e.m[r]), e.nb), e.sc, 1))
             THEN {} ELSE {"ensemble-mean"})
       \cup (IF e.mut THEN {"input-mutated"} ELSE {})
Failures(e) == FailClean(e)
====

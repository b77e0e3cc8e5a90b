---- MODULE Turb ----
(* Turbulence statistics.  A record is split into bins; each
   statistic of a bin is a moment of that bin's own samples.  Velocities are
   recorded in eighths, so (co)variances are rationals in 64ths; quantities with
   fractional powers are compared in the small floating point of Fl. *)
EXTENDS Binning, Fl
\* x as an integer at a scale; the numerator may be large
RSc(x, sc) == (x[1] \div x[2]) * sc + RDiv((x[1] % x[2]) * sc, x[2])
ObsB(o, r, sc, tol) == IF r[1] = NAN THEN o = NAN ELSE Close(o, RSc(r, sc), tol)
RQ(n, d) == Rat(n, d)

\* ---- second moments about the least-squares line (or the mean) of a bin
S1(s) == Sum(s)
SxT(s) == LET n == Len(s) IN Sum([i \in 1..n |-> (2 * i - n - 1) * s[i]])   \* 2 * sum (t - tm) x
\* sum (t - tm)^2 = n (n^2 - 1) / 12
DetCov(x, y) == LET n == Len(x)
                    a == RQ(n * Dot(x, y) - S1(x) * S1(y), n * n)
                    b == IF n = 1 THEN <<0, 1>>
                         ELSE RMul(RQ(SxT(x), n), RQ(SxT(y) * 3, n * (n * n - 1))) IN
                RSub(a, b)
\* about the mean; a missing sample is left out
DemCov(x, y) == LET v == SelectSeq([i \in 1..Len(x) |-> <<x[i], y[i]>>], LAMBDA p : p[1] # NAN /\ p[2] # NAN)
                    n == Len(v)
                    xs == [i \in 1..n |-> v[i][1]]
                    ys == [i \in 1..n |-> v[i][2]] IN
                IF n = 0 THEN RNAN ELSE RQ(n * Dot(xs, ys) - S1(xs) * S1(ys), n * n)
Cov(x, y, dt) == IF dt THEN DetCov(x, y) ELSE DemCov(x, y)
SubN(r, k) == IF r[1] = NAN THEN r ELSE RSub(r, RInt(k * k))
\* noise is a matrix: one row per component (or one for all), one column per bin (or one)
NoiseAt(nz, c, b) == IF nz = <<>> THEN 0
                     ELSE LET r == nz[IF Len(nz) = 1 THEN 1 ELSE c] IN r[IF Len(r) = 1 THEN 1 ELSE b]
TkeOk(e, out, nz) ==
  /\ Len(out) = Len(e.x)
  /\ \A c \in 1..Len(e.x) : LET bs == Split(e.x[c], e.p, e.q) IN
       /\ Len(out[c]) = Len(bs)
       /\ \A b \in 1..Len(bs) : ObsB(out[c][b], SubN(Cov(bs[b], bs[b], e.dt), NoiseAt(nz, c, b)), e.sc, 2 + e.vt)
Pairs == <<<<1, 2>>, <<1, 3>>, <<2, 3>>>>
StressOk(e, out) ==
  /\ Len(out) = 3
  /\ \A k \in 1..3 : LET u == Split(e.x[Pairs[k][1]], e.p, e.q)
                         v == Split(e.x[Pairs[k][2]], e.p, e.q) IN
       Len(out[k]) = Len(u) /\ \A b \in 1..Len(u) : ObsB(out[k][b], Cov(u[b], v[b], e.dt), e.sc, 2 + e.vt)
TimesOk(e, t) == LET bs == Split(e.tm, e.p, e.q) IN
                 Len(t) = Len(bs) /\ \A b \in 1..Len(bs) : Obs(t[b], MeanR(bs[b]), 1, 2)
FailTke(e) ==
  (IF TkeOk(e, e.out, e.noise) THEN {} ELSE {"kinetic-energy"})
  \cup (IF e.full => e.lab = <<"upup_", "vpvp_", "wpwp_">> THEN {} ELSE {"component-labels"})
  \cup (IF TimesOk(e, e.t) THEN {} ELSE {"bin-time"})
  \cup (IF e.mut THEN {"input-changed"} ELSE {})
FailStress(e) ==
  (IF StressOk(e, e.out) THEN {} ELSE {"stress"})
  \cup (IF e.lab = <<"upvp_", "upwp_", "vpwp_">> THEN {} ELSE {"component-labels"})
  \cup (IF TimesOk(e, e.t) THEN {} ELSE {"bin-time"})
  \cup (IF e.mut THEN {"input-changed"} ELSE {})
\* turbulence intensity: root of the speed's variance over its mean
TiOk(e) ==
  /\ Len(e.out) = Len(e.x)
  /\ \A c \in 1..Len(e.x) : LET bs == Split(e.x[c], e.p, e.q) IN
       /\ Len(e.out[c]) = Len(bs)
       /\ \A b \in 1..Len(bs) :
            LET v == SubN(Cov(bs[b], bs[b], e.dt), NoiseAt(e.noise, c, b))
                m == MeanR(bs[b])
                o == e.out[c][b] IN
            IF v[1] = NAN \/ RLt(m, RInt(e.thresh)) \/ v[1] < 0 THEN FIsNaN(o)
            ELSE \/ v[1] = 0 /\ (FIsNaN(o) \/ FLt(o, FQ(1, 100)))
                 \/ ~FIsNaN(o) /\ o[1] >= 0 /\ FClose(FMul(o, o), FDivF(FRat(v), FMul(FRat(m), FRat(m))), 1000)
FailTi(e) == (IF TiOk(e) THEN {} ELSE {"turbulence-intensity"})
             \cup (IF TimesOk(e, e.t) THEN {} ELSE {"bin-time"})
             \cup (IF e.mut THEN {"input-changed"} ELSE {})
\* the whole analysis of a dataset
FailFull(e) ==
  (IF e.err # "" THEN {"analysis-refused"} ELSE
   (IF \A c \in 1..3 : PerBin([e EXCEPT !.x = <<e.x[c]>>], <<e.avg[c]>>, LAMBDA o, s : Obs(o, MeanR(s), e.sc, 1)) THEN {} ELSE {"averages"})
   \cup (IF TkeOk(e, e.tke, e.noise) THEN {} ELSE {"kinetic-energy"})
   \cup (IF StressOk(e, e.stress) THEN {} ELSE {"stress"})
   \cup (IF e.psd = e.psd0 /\ e.psd # <<>> THEN {} ELSE {"spectra-differ"})
   \cup (IF e.attrs = e.attrs0 THEN {} ELSE {"result-attributes"})
   \cup (IF TimesOk(e, e.t) THEN {} ELSE {"bin-time"}))
  \cup (IF e.mut THEN {"source-changed"} ELSE {})

\* ---- autocovariance: products with the deviations of the bin, j samples apart;
\* the first bin looks forward, the last backward, the others both ways
\* a recorder may log the sum or the mean over the bin
AcovAt(x, n, b, nb, j) ==
  LET lo == (b - 1) * n
      s == [i \in 1..n |-> x[lo + i]]
      F == Sum([i \in 1..n |-> x[lo + i + j] * (n * s[i] - S1(s))])
      B == Sum([i \in 1..n |-> x[lo + i - j] * (n * s[i] - S1(s))]) IN
  IF b = 1 THEN RQ(F, n) ELSE IF b = nb THEN RQ(B, n) ELSE RQ(F + B, 2 * n)
AcovOk(e, d) ==
  /\ Len(e.out) = Len(e.x)
  /\ \A c \in 1..Len(e.x) : LET nb == Len(e.x[c]) \div e.n IN
       /\ Len(e.out[c]) = nb
       /\ \A b \in 1..nb : /\ Len(e.out[c][b]) = e.n \div 4
                           /\ \A j \in 1..(e.n \div 4) :
                                ObsB(e.out[c][b][j], RMul(AcovAt(e.x[c], e.n, b, nb, j - 1), RQ(1, d)), e.sc, 2 + e.vt)
FailAcov(e) == (IF AcovOk(e, 1) \/ AcovOk(e, e.n) THEN {} ELSE {"autocovariance"})
               \cup (IF e.lag = [j \in 1..(e.n \div 4) |-> j - 1] THEN {} ELSE {"lags"})
               \cup (IF TimesOk([tm |-> e.tm, p |-> e.n, q |-> 1], e.t) THEN {} ELSE {"bin-time"})
               \cup (IF e.mut THEN {"input-changed"} ELSE {})
\* cross-covariance of a bin of the second with the first, shifted
XcovNum(x, y, n, b, k) ==
  LET lo == (b - 1) * n
      s == [i \in 1..n |-> y[lo + i]] IN
  Sum([i \in 1..n |-> x[lo + i + k] * (n * s[i] - S1(s))])      \* n * covariance sum
XcovOk(e) ==
  LET nb == Len(e.x) \div e.n IN
  /\ Len(e.out) = nb
  /\ \A b \in (IF e.npt = 1 THEN 1..nb ELSE 2..(nb - 1)) :
     \A k \in 1..e.npt :
       LET o == e.out[b][k]
           c == RQ(XcovNum(e.x, e.y, e.n, b, k - 1 - (e.npt - 1) \div 2), e.n)
           bx == SubSeq(e.x, (b - 1) * e.n + 1, b * e.n)
           by == SubSeq(e.y, (b - 1) * e.n + 1, b * e.n)
           vx == DemCov(bx, bx)
           vy == DemCov(by, by) IN
       IF ~e.normed THEN FCloseAbs(o, FRat(c), 1000, FInt(1))
       ELSE vx[1] = 0 \/ vy[1] = 0 \/
            FCloseAbs(FMul(o, FInt(e.n)), FDivF(FRat(c), FRoot(FMul(FRat(vx), FRat(vy)), 2)), 500, FQ(1, 4))
FailXcov(e) == (IF XcovOk(e) THEN {} ELSE {"cross-covariance"})
               \cup (IF e.mut THEN {"input-changed"} ELSE {})
\* integral length: lag at which the autocovariance falls to 1/e of its start
FirstBelow(a) == IF \E j \in 1..Len(a) : 100000 * a[j] <= 36788 * a[1]
                 THEN CHOOSE j \in 1..Len(a) : /\ 100000 * a[j] <= 36788 * a[1]
                                               /\ \A i \in 1..(j - 1) : 100000 * a[i] > 36788 * a[1]
                 ELSE 1
LintOk(e) ==
  \A c \in 1..Len(e.a) : \A b \in 1..Len(e.a[c]) :
    Obs(e.out[c][b], RQ(e.u[b] * (FirstBelow(e.a[c][b]) - 1), e.fs), 1000, 2)
FailLint(e) == (IF Len(e.out) = Len(e.a) /\ LintOk(e) THEN {} ELSE {"integral-length"})
               \cup (IF e.mut THEN {"input-changed"} ELSE {})

\* ---- spectra: S[c][b][k] integers, frequency of k is k * fs / nf Hz
FUnit(e, x) == IF e.rad THEN FMul(x, FMul(FInt(2), FPi)) ELSE x
Freq(e, k) == FUnit(e, FQ(k * e.fs, e.nf))
\* noise floor over the top of the spectrum; the ends of the band may fall either way
DnOk(e, top, bot) ==
  LET K == SetToSortSeq({k \in 1..(e.nf \div 2) : /\ 2 * k * e.pd >= e.pn * e.nf
                                                  /\ (2 * k * e.pd = e.pn * e.nf => bot)
                                                  /\ (2 * k = e.nf => top)}, LAMBDA a, b : a < b) IN
  /\ Len(e.out) = Len(e.s)
  /\ \A c \in 1..Len(e.s) :
       /\ Len(e.out[c]) = Len(e.s[c])
       /\ \A b \in 1..Len(e.s[c]) :
            LET o == e.out[c][b]
                m == FMean([i \in 1..Len(K) |-> FMul(FInt(e.s[c][b][K[i]]), Freq(e, K[i]))]) IN
            IF K = <<>> THEN FIsNaN(o) ELSE o[1] >= 0 /\ FClose(FMul(o, o), m, 1000)
FailDn(e) == (IF \E top, bot \in BOOLEAN : DnOk(e, top, bot) THEN {} ELSE {"noise-level"})
             \cup (IF e.lab THEN {} ELSE {"axes"})
             \cup (IF e.mut THEN {"input-changed"} ELSE {})
\* slope of log S over log f inside a range; frequencies and spectra are powers of ten
InR(e) == SetToSortSeq({k \in 1..Len(e.lf) : e.lo < 2 * e.lf[k] /\ 2 * e.lf[k] < e.hi}, LAMBDA a, b : a < b)
SlopeOk(e) ==
  LET K == InR(e)
      n == Len(K)
      x == [i \in 1..n |-> e.lf[K[i]]] IN
  \A b \in 1..Len(e.ls) :
    LET y == [i \in 1..n |-> e.ls[b][K[i]]]
        sxx == n * Dot(x, x) - S1(x) * S1(x)
        sxy == n * Dot(x, y) - S1(x) * S1(y)
        m == RQ(sxy, sxx)
        c == RSub(RQ(S1(y), n), RMul(m, RQ(S1(x), n))) IN
    Obs(e.m[b], m, 1000, 2) /\ Obs(e.b[b], c, 1000, 2)
FailSlope(e) == (IF Len(e.m) = Len(e.ls) /\ Len(e.b) = Len(e.ls) /\ SlopeOk(e) THEN {} ELSE {"cascade-slope"})
                \cup (IF e.mut THEN {"input-changed"} ELSE {})

\* dissipation from the spectrum: (mean S f^5/3 / alpha)^3/2 / U over the range only.
\* The noise spectrum is the noise variance over the Nyquist band in the spectrum's own
\* units; what is not above it is set to a hundredth of the smallest magnitude.
NoiseSpec(e, c, b, alt) ==
  LET k == NoiseAt(e.noise, c, b)
      h == FQ(k * k * 2, e.nsc * e.nsc * e.fs) IN IF e.rad /\ ~alt THEN FDivF(h, FMul(FInt(2), FPi)) ELSE h
RECURSIVE FMinS(_, _)
FMinS(s, n) == IF n = 1 THEN s[1] ELSE LET r == FMinS(s, n - 1) IN IF FLt(s[n], r) THEN s[n] ELSE r
FMinSeq(s) == FMinS(s, Len(s))
RECURSIVE FMaxS(_, _)
FMaxS(s, n) == IF n = 1 THEN s[1] ELSE LET r == FMaxS(s, n - 1) IN IF FLt(r, s[n]) THEN s[n] ELSE r
FMaxSeq(s) == FMaxS(s, Len(s))
FAbs(a) == IF FIsNaN(a) THEN a ELSE <<Abs(a[1]), a[2]>>
Range2(e) == SetToSortSeq({k \in 1..(e.nf \div 2) : e.lo < 2 * k /\ 2 * k < e.hi}, LAMBDA a, b : a < b)
Eps32(a) == FPow(a, 3, 2)
LtOk(e, alt) ==
  LET D == [c \in 1..Len(e.s) |-> [b \in 1..Len(e.s[c]) |-> [k \in 1..Len(e.s[c][b]) |->
              FSub(FQ(e.s[c][b][k], e.ssc), NoiseSpec(e, c, b, alt))]]]
      floor == FDivF(FMinSeq([c \in 1..Len(D) |-> FMinSeq([b \in 1..Len(D[c]) |->
                  FMinSeq([k \in 1..Len(D[c][b]) |-> FAbs(D[c][b][k])])])]), FInt(100))
      P(c, b, k) == IF D[c][b][k][1] > 0 THEN D[c][b][k] ELSE floor
      K == Range2(e) IN
  \A c \in 1..Len(e.s) : \A b \in 1..Len(e.s[c]) :
    LET m == FMean([i \in 1..Len(K) |-> FMul(FMul(P(c, b, K[i]), FPow(Freq(e, K[i]), 5, 3)), FInt(2))])
        u == IF e.rad THEN FQ(e.u[b], e.usc) ELSE FDivF(FQ(e.u[b], e.usc), FMul(FInt(2), FPi)) IN
    FClose(e.out[c][b], FDivF(Eps32(m), u), 200)
FailLt(e) == (IF e.err # "" THEN {"refused"}
              ELSE IF Len(e.out) # Len(e.s) THEN {"dissipation"}
              ELSE IF LtOk(e, FALSE) THEN {}
              ELSE IF e.rad /\ e.noise # <<>> /\ LtOk(e, TRUE) THEN {"noise-not-per-radian"} ELSE {"dissipation"})
             \cup (IF e.mut THEN {"input-changed"} ELSE {})
\* structure function over lags l0 .. l1 - 1
DAt(s, l) == LET v == SelectSeq([i \in 1..(Len(s) - l) |-> <<s[i], s[i + l]>>],
                                LAMBDA p : p[1] # NAN /\ p[2] # NAN) IN
             IF v = <<>> THEN RNAN ELSE RQ(Sum([i \in 1..Len(v) |-> (v[i][2] - v[i][1]) * (v[i][2] - v[i][1])]), Len(v))
SfOk(e) ==
  LET bs == Split(e.x, e.p, e.q) IN
  /\ Len(e.out) = Len(bs)
  /\ \A b \in 1..Len(bs) :
      LET L == SelectSeq([i \in 1..(e.l1 - e.l0) |-> e.l0 + i - 1], LAMBDA l : DAt(bs[b], l)[1] # NAN)
          c == FMedian([i \in 1..Len(L) |-> FDivF(FDivF(FRat(DAt(bs[b], L[i])), FInt(64)),
                                                   FPow(FQ(L[i] * e.u[b], e.fs), 2, 3))]) IN
      IF L = <<>> THEN FIsNaN(e.out[b]) ELSE FCloseAbs(e.out[b], Eps32(FDivF(c, FQ(21, 10))), 200, FQ(1, 30000))
FailSf(e) == (IF SfOk(e) THEN {} ELSE {"dissipation"}) \cup (IF e.mut THEN {"input-changed"} ELSE {})
\* Trowbridge and Elgar: the integral for the turbulence ratio b (in quarters) and the
\* cosine (in fifths) of the angle between mean and fluctuation, tabulated to 1e-4 of
\* (2 pi)^-1/2 b^2/3 \int cbrt(x^2 - 2 x cos / b + 1 / b^2) exp(-x^2 / 2) dx
TeInt(b, c) == FQ(LET k == <<b, Abs(c)>> IN
  CASE k = <<1, 0>> -> 10197 [] k = <<1, 1>> -> 10188 [] k = <<1, 2>> -> 10162 [] k = <<1, 3>> -> 10115 [] k = <<1, 4>> -> 10042 [] k = <<1, 5>> -> 9926
    [] k = <<2, 0>> -> 10699 [] k = <<2, 1>> -> 10677 [] k = <<2, 2>> -> 10609 [] k = <<2, 3>> -> 10483 [] k = <<2, 4>> -> 10268 [] k = <<2, 5>> -> 9751
    [] k = <<4, 0>> -> 12137 [] k = <<4, 1>> -> 12101 [] k = <<4, 2>> -> 11989 [] k = <<4, 3>> -> 11779 [] k = <<4, 4>> -> 11408 [] k = <<4, 5>> -> 10431
    [] k = <<8, 0>> -> 15454 [] k = <<8, 1>> -> 15414 [] k = <<8, 2>> -> 15292 [] k = <<8, 3>> -> 15065 [] k = <<8, 4>> -> 14678 [] k = <<8, 5>> -> 13770, 10000)
TeOk(e) ==
  LET K == Range2(e)
      W(c, b) == FMean([i \in 1..Len(K) |-> FMul(FQ(e.s[c][b][K[i]], e.ssc), FPow(Freq(e, K[i]), 5, 3))]) IN
  /\ Len(e.out) = Len(e.s[1])
  /\ \A b \in 1..Len(e.out) :
      LET j == TeInt(e.ratio[b], e.cos[b])
          h == Eps32(FDivF(FAdd(W(1, b), W(2, b)), FMul(FQ(63, 110), j)))
          v == Eps32(FDivF(W(3, b), FMul(FQ(18, 55), j))) IN
      FClose(FMul(e.out[b], FInt(2 * e.u[b])), FUnit([rad |-> ~e.rad], FAdd(h, v)), 100)   \* U / 2 pi for Hz
FailTe(e) == (IF e.err # "" THEN {"refused"} ELSE IF TeOk(e) THEN {} ELSE {"dissipation"})
             \cup (IF e.mut THEN {"input-changed"} ELSE {})
====

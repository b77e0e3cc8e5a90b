---- MODULE Spectra ----
(* Spectral estimates.  Transforms of length 3, 4 and 6 are exact: with
   w = exp(-2 pi i / n) every element of the transform is a + b w with integer
   a, b, and w^2 = T(n) w - 1.  A detrended segment is an integer multiple of
   1/Den(n). *)
EXTENDS Binning
T(n) == CASE n = 3 -> -1 [] n = 4 -> 0 [] n = 6 -> 1
Den(n) == CASE n = 3 -> 12 [] n = 4 -> 20 [] n = 6 -> 210
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CMul(n, x, y) == << x[1] * y[1] - x[2] * y[2],
                    x[1] * y[2] + x[2] * y[1] + T(n) * x[2] * y[2] >>
CConj(n, x) == << x[1] + T(n) * x[2], -x[2] >>
Norm(n, x) == x[1] * x[1] + T(n) * x[1] * x[2] + x[2] * x[2]
RECURSIVE WPow(_, _)
WPow(n, k) == IF k = 0 THEN <<1, 0>> ELSE CMul(n, WPow(n, k - 1), <<0, 1>>)
\* real part of a + b w, times two;  imaginary part is -b sin(2 pi / n)
Re2(n, x) == 2 * x[1] + T(n) * x[2]

\* least-squares detrended segment, times Den(n)
Detr(x) == LET n == Len(x)
               g == (n * (n * n - 1)) \div Den(n)
               s == Sum(x)
               c == Sum([i \in 1..n |-> (2 * i - n - 1) * x[i]]) IN
   [i \in 1..n |-> (n * (n * n - 1) * x[i] - (n * n - 1) * s - 3 * c * (2 * i - n - 1)) \div g]
RECURSIVE CSum(_, _)
CSum(f, i) == IF i = 0 THEN <<0, 0>> ELSE CAdd(f[i], CSum(f, i - 1))
DFT(y, n, k) == CSum([j \in 1..n |-> LET w == WPow(n, (k * (j - 1)) % n) IN
                                     <<y[j] * w[1], y[j] * w[2]>>], n)
Wind(x, win) == LET y == Detr(x) IN [i \in 1..Len(x) |-> y[i] * win[i]]
Win2(win) == Sum([i \in 1..Len(win) |-> win[i] * win[i]])

\* segments of a record of length l: number, step, 0-based starts
NEns(l, n, step) == IF step > 0 THEN (l - n) \div step + 1
                    ELSE IF l = n THEN 1 ELSE (2 * l) \div n
StepFor(l, n, nens) == IF nens = 1 THEN 0 ELSE (l - n) \div (nens - 1)
StartsOf(l, n, nens, step) == [i \in 1..nens |-> (i - 1) * (IF step > 0 THEN step ELSE StepFor(l, n, nens))]
Seg(x, s, n) == SubSeq(x, s + 1, s + n)

ScaleDiv(p, d, s) == (p \div d) * s + RDiv((p % d) * s, d)
HalfSpec(n) == n \div 2

\* sum over the segments of F_a conj(F_b), as a sequence over k = 1..n/2, every
\* term already divided by Den^2 and multiplied by sc
CrossSum(a, b, n, win, step, sc) ==
  LET la == Len(a)
      lb == Len(b)
      ne == NEns(Min2(la, lb), n, step)
      sa == StartsOf(la, n, ne, step)
      sb == StartsOf(lb, n, ne, step)
      D2 == Den(n) * Den(n)
      Fa(i) == Wind(Seg(a, sa[i], n), win)
      Fb(i) == Wind(Seg(b, sb[i], n), win)
      One(i, k) == LET z == CMul(n, DFT(Fa(i), n, k), CConj(n, DFT(Fb(i), n, k))) IN
                   <<ScaleDiv(z[1], D2, sc), ScaleDiv(z[2], D2, sc)>>
  IN [k \in 1..HalfSpec(n) |-> CSum([i \in 1..ne |-> One(i, k)], ne)]
\* cross spectral density times sc: <<2 Re, -Im / sin>> scaled
CsdRe(n, z, win, ne, fs) == RDiv(Re2(n, z), Win2(win) * ne * fs)
CsdIm(z, win, ne, fs) == RDiv(-2 * z[2], Win2(win) * ne * fs)

CsdOk(out, a, b, n, win, step, fs, sc) ==
  LET ne == NEns(Min2(Len(a), Len(b)), n, step)
      S == CrossSum(a, b, n, win, step, sc) IN
  /\ Len(out) = HalfSpec(n)
  /\ \A k \in 1..HalfSpec(n) : /\ Close(out[k][1], CsdRe(n, S[k], win, ne, fs), 3)
                               /\ Close(out[k][2], CsdIm(S[k], win, ne, fs), 3)
Psd(a, n, win, step, fs, sc) ==
  LET ne == NEns(Len(a), n, step)
      S == CrossSum(a, a, n, win, step, sc) IN
  [k \in 1..HalfSpec(n) |-> CsdRe(n, S[k], win, ne, fs)]
PsdOk(out, a, n, win, step, fs, sc, noise) ==
  LET P == Psd(a, n, win, step, fs, sc)
      N0 == RDiv(2 * noise * noise * sc, fs) IN
  /\ Len(out) = HalfSpec(n)
  /\ \A k \in 1..HalfSpec(n) :
       IF noise = 0 THEN Close(out[k], P[k], 3)
       ELSE IF P[k] - N0 > 3 THEN Close(out[k], P[k] - N0, 4)
       ELSE out[k] >= 0                                 \* never negative power
FailPsd(e) == (IF PsdOk(e.out, e.a, e.n, e.win, e.step, e.fs, e.sc, 0) THEN {} ELSE {"power"})
FailCsd(e) == (IF CsdOk(e.out, e.a, e.b, e.n, e.win, e.step, e.fs, e.sc) THEN {} ELSE {"cross-power"})
\* coherence in 1/1000, when both powers are large enough to compare
ShrinkTo(v, m) == LET RECURSIVE H(_)
                      H(d) == IF v \div d <= m THEN d ELSE H(d * 2) IN H(1)
\* nz: the standard deviation of the white noise in each signal; its density
\* at unit rate, nz^2 / pi, is taken from the power
CohOk(out, a, b, n, win, debias, nz) ==
  LET ne == NEns(Min2(Len(a), Len(b)), n, 0)
      long == Max2(Len(a), Len(b))
      \* own segmentation of each signal (same as in the cross spectrum)
      St(x) == StepFor(Len(x), n, ne)
      Sab == CrossSum(a, b, n, win, 0, 10)
      P(x) == LET s == StartsOf(Len(x), n, ne, 0) IN
              [k \in 1..HalfSpec(n) |-> Sum([i \in 1..ne |->
                 ScaleDiv(Norm(n, DFT(Wind(Seg(x, s[i], n), win), n, k)), Den(n) * Den(n), 10)])]
      W(w) == RDiv(w * w * Win2(win) * ne * 5 * 113, 355)
      Pa == P(a)
      Pb == P(b)
  IN Len(out) = HalfSpec(n) /\ \A k \in 1..HalfSpec(n) :
     IF W(nz[1]) > Pa[k] \div 2 \/ W(nz[2]) > Pb[k] \div 2 THEN TRUE ELSE
     LET d == ShrinkTo(Max2(1, Max2(Pa[k], Pb[k])), 30000)
         pa == (Pa[k] - W(nz[1])) \div d
         pb == (Pb[k] - W(nz[2])) \div d
         z == <<Sab[k][1] \div d, Sab[k][2] \div d>>
         c == RDiv(Norm(n, z), (pa * pb) \div 1000)
         want == IF debias THEN RDiv(c * (ne + 1) - 1000, ne) ELSE c IN
     IF pa < 500 \/ pb < 500 THEN TRUE
     ELSE Close(out[k], want, 12)
FailCoh(e) ==
  (IF CohOk(e.out, e.a, e.b, e.n, e.win, e.debias, e.nz) THEN {} ELSE {"coherence"})
  \cup (IF e.debias \/ e.nz # <<0, 0>> \/ \A k \in 1..Len(e.out) : e.out[k] = NAN \/ (e.out[k] >= -1 /\ e.out[k] <= 1001)
        THEN {} ELSE {"coherence-range"})
  \cup (IF (e.a = e.b /\ e.nz = <<0, 0>>) => \A k \in 1..Len(e.out) : e.out[k] = NAN \/ Close(e.out[k], 1000, 1)
        THEN {} ELSE {"self-coherence"})
\* mean over the segments of the unit phasors  F_b conj(F_a) / |..|, in 1/10000
Isqrt(v) == LET RECURSIVE B(_, _)
                B(lo, hi) == IF hi - lo <= 1 THEN lo
                             ELSE LET m == (lo + hi) \div 2 IN
                                  IF m * m <= v THEN B(m, hi) ELSE B(lo, m)
            IN B(0, 46340)
\* scaled so the norm is between 2.5e7 and 1e9: precise and inside 32 bits
RECURSIVE Rescale(_, _)
Rescale(n, z) == LET m == Max2(Abs(z[1]), Abs(z[2])) IN
                 IF m > 16000 THEN Rescale(n, <<RDiv(z[1], 2), RDiv(z[2], 2)>>)
                 ELSE IF m <= 8000 THEN Rescale(n, <<2 * z[1], 2 * z[2]>>) ELSE z
Unit(n, z) == LET y == Rescale(n, z)
                  r == Isqrt(Norm(n, y)) IN
              << RDiv(Re2(n, y) * 5000, r), RDiv(-y[2] * 10000, r) >>   \* <<Re, Im / sin>>
PhaseOk(out, a, b, n, win, step) ==
  LET ne == NEns(Min2(Len(a), Len(b)), n, step)
      sa == StartsOf(Len(a), n, ne, step)
      sb == StartsOf(Len(b), n, ne, step)
      Z(i, k) == CMul(n, DFT(Wind(Seg(b, sb[i], n), win), n, k),
                         CConj(n, DFT(Wind(Seg(a, sa[i], n), win), n, k)))
  IN Len(out) = HalfSpec(n) /\ \A k \in 1..HalfSpec(n) :
     IF \E i \in 1..ne : Z(i, k) = <<0, 0>> THEN TRUE
     ELSE LET s == CSum([i \in 1..ne |-> Unit(n, Z(i, k))], ne) IN
          Close(out[k][1], RDiv(s[1], ne), 12) /\ Close(out[k][2], RDiv(s[2], ne), 12)
FailPhase(e) == IF PhaseOk(e.out, e.a, e.b, e.n, e.win, e.step) THEN {} ELSE {"phase"}
\* frequencies: e.f are the frequencies times n / fs (so 1, 2, .. n/2)
FreqOk(f, n) == f = [k \in 1..HalfSpec(n) |-> k]
FailFreq(e) == IF FreqOk(e.f, e.n) THEN {} ELSE {"frequency"}

\* ---- spectra of the bins of a record
FailBins(e) ==
  LET pad == IF e.pad >= 0 THEN e.pad ELSE Min2((e.p - e.q * e.n) \div e.q, e.n)
      A(r) == Padded(e.x[r], e.p, e.q, pad)
      A2(r) == Padded(e.y[r], e.p2, e.q, pad)
      nb(r) == IF e.fn = "psd" THEN Len(A(r)) ELSE Min2(Len(A(r)), Len(A2(r)))
      Good(r, b, o) == CASE e.fn = "psd" -> PsdOk(o, A(r)[b], e.n, e.win, e.step, e.fs, e.sc, e.noise[r])
                         [] e.fn = "csd" -> CsdOk(o, A(r)[b], A2(r)[b], e.n, e.win, 0, e.fs, e.sc)
                         [] e.fn = "coh" -> CohOk(o, A(r)[b], A2(r)[b], e.n, e.win, e.debias, e.nz)
                         [] e.fn = "phase" -> PhaseOk(o, A(r)[b], A2(r)[b], e.n, e.win, 0)
      tb == Split(e.t, e.pt, e.q)
  IN (IF /\ Len(e.out) = Len(e.x)
         /\ \A r \in 1..Len(e.x) : /\ Len(e.out[r]) = nb(r)
                                   /\ \A b \in 1..nb(r) : Good(r, b, e.out[r][b])
      THEN {} ELSE {"bin-" \o e.fn})
     \cup (IF FreqOk(e.f, e.n) THEN {} ELSE {"frequency"})
     \cup (IF Len(e.tb) = nb(1) /\ \A b \in 1..Len(e.tb) : Obs(e.tb[b], MeanR(tb[b]), 1, 2) THEN {} ELSE {"bin-time"})
     \cup (IF e.mut THEN {"input-mutated"} ELSE {})
Failures(e) == CASE e.k = "psd" -> FailPsd(e) [] e.k = "csd" -> FailCsd(e) [] e.k = "coh" -> FailCoh(e)
                 [] e.k = "phase" -> FailPhase(e) [] e.k = "freq" -> FailFreq(e)
                 [] e.k = "bins" -> FailBins(e)
====

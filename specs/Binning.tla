---- MODULE Binning ----
(* Splitting a record into ensembles.  A bin length is a rational nb = p/q; with
   m == floor(nb) samples per bin, output sample s (0-based, counted over all
   bins) is source sample floor(s * nb / m), so that bin b starts at
   floor(b * nb): fractional bins keep pace with the record by skipping. *)
EXTENDS Num, Json
M(p, q) == p \div q
Source(s, p, q) == (s * p) \div (q * M(p, q))
NBins(n, p, q) == (n * q) \div p
\* 0-based source indices of bin b
BinIdx(b, p, q) == [j \in 1..M(p, q) |-> Source(b * M(p, q) + j - 1, p, q)]
\* the record split into bins (record is a 1-based sequence)
Split(x, p, q) == [b \in 1..NBins(Len(x), p, q) |->
                     [j \in 1..M(p, q) |-> x[BinIdx(b - 1, p, q)[j] + 1]]]
\* with padding: floor(pad/2) samples of the previous bin's end before and the
\* rest from the next bin's start after; zero outside the record
Padded(x, p, q, pad) ==
  LET bs == Split(x, p, q)
      m == M(p, q)
      a == pad \div 2
      z == pad - a
      W(b) == [j \in 1..(m + pad) |->
                 IF j <= a THEN (IF b = 1 THEN 0 ELSE bs[b - 1][m - a + j])
                 ELSE IF j <= a + m THEN bs[b][j - a]
                 ELSE (IF b = Len(bs) THEN 0 ELSE bs[b + 1][j - a - m])]
  IN [b \in 1..Len(bs) |-> W(b)]

RNAN == <<NAN, 1>>      \* a missing result
Valid(s) == SelectSeq(s, LAMBDA v : v # NAN)
MeanR(s) == LET v == Valid(s) IN IF v = <<>> THEN RNAN ELSE Rat(Sum(v), Len(v))
\* population variance
VarR(s) == LET v == Valid(s)
               n == Len(v)
               sq == Sum([i \in 1..n |-> v[i] * v[i]]) IN
           IF v = <<>> THEN RNAN ELSE Rat(n * sq - Sum(v) * Sum(v), n * n)
\* deviations from the mean / from the least-squares line, missing stay missing
DemeanR(s) == [i \in 1..Len(s) |-> IF s[i] = NAN THEN RNAN ELSE RSub(RInt(s[i]), MeanR(s))]
Slope(s) == LET n == Len(s)     \* per sample: 6 sum (2i-n-1) x / (n (n^2-1))
                c == Sum([i \in 1..n |-> (2 * i - n - 1) * s[i]]) IN
            IF n = 1 THEN <<0, 1>> ELSE Rat(6 * c, n * (n * n - 1))
DetrendR(s) == LET b == Slope(s)
                   mu == MeanR(s)
                   n == Len(s) IN
   [i \in 1..n |-> RSub(RSub(RInt(s[i]), mu), RMul(b, Rat(2 * i - n - 1, 2)))]

\* observed integer o against rational (or missing) r at scale sc
Obs(o, r, sc, tol) == IF r[1] = NAN THEN o = NAN ELSE Close(o, RScaled(r, sc), tol)
ObsSeq(o, r, sc, tol) == Len(o) = Len(r) /\ \A i \in 1..Len(r) : Obs(o[i], r[i], sc, tol)
HasMiss(s) == \E i \in 1..Len(s) : s[i] = NAN
SameMissing(o, s) == Len(o) = Len(s) /\ \A i \in 1..Len(s) : (o[i] = NAN) <=> (s[i] = NAN)

\* ---- verdicts over recorded transitions; e.x is a sequence of records (rows)
FailReshape(e) == IF /\ Len(e.out) = Len(e.x)
                     /\ \A r \in 1..Len(e.x) : e.out[r] = Padded(e.x[r], e.p, e.q, e.pad)
                  THEN {} ELSE {"partition"}
PerBin(e, f, Good(_, _)) ==
  IF /\ Len(f) = Len(e.x)
     /\ \A r \in 1..Len(e.x) : LET bs == Split(e.x[r], e.p, e.q) IN
          /\ Len(f[r]) = Len(bs)
          /\ \A b \in 1..Len(bs) : Good(f[r][b], bs[b]) THEN TRUE ELSE FALSE
FailStat(e) ==
  (IF PerBin(e, e.mean, LAMBDA o, s : Obs(o, RAdd(MeanR(s), IF MeanR(s)[1] = NAN THEN <<0, 1>> ELSE RInt(e.off)), e.sc, IF e.off = 0 THEN 1 ELSE 6)) THEN {} ELSE {"mean"})
  \cup (IF e.var = <<>> \/ PerBin(e, e.var, LAMBDA o, s : Obs(o, VarR(s), e.sc, 2 + e.vt)) THEN {} ELSE {"variance"})
  \cup (IF e.std2 = <<>> \/ PerBin(e, e.std2, LAMBDA o, s : Obs(o, VarR(s), e.sc, 2 + e.vt)) THEN {} ELSE {"standard-deviation"})
  \cup (IF e.mut THEN {"input-mutated"} ELSE {})
FailSeries(e) ==
  (IF PerBin(e, e.dm, LAMBDA o, s : ObsSeq(o, DemeanR(s), e.sc, 1)) THEN {} ELSE {"demean"})
  \cup (IF PerBin(e, e.dt, LAMBDA o, s : IF Len(s) = 1 THEN TRUE ELSE IF HasMiss(s) THEN SameMissing(o, s)
                                        ELSE ObsSeq(o, DetrendR(s), e.sc, 1)) THEN {} ELSE {"detrend"})
  \cup (IF e.mut THEN {"input-mutated"} ELSE {})
\* padded series: deviation of the padded bin from its own mean / line
FailPadded(e) ==
  LET w(r) == Padded(e.x[r], e.p, e.q, e.pad) IN
  (IF \A r \in 1..Len(e.x) : Len(e.dm[r]) = Len(w(r)) /\ \A b \in 1..Len(w(r)) :
        ObsSeq(e.dm[r][b], DemeanR(w(r)[b]), e.sc, 1) THEN {} ELSE {"demean"})
  \cup (IF \A r \in 1..Len(e.x) : Len(e.dt[r]) = Len(w(r)) /\ \A b \in 1..Len(w(r)) :
        IF HasMiss(w(r)[b]) THEN SameMissing(e.dt[r][b], w(r)[b])
        ELSE ObsSeq(e.dt[r][b], DetrendR(w(r)[b]), e.sc, 1) THEN {} ELSE {"detrend"})
\* a long record of its own sample numbers (from 0), some places of the bins
FailBig(e) ==
  IF /\ e.shape = <<NBins(e.n, e.p, e.q), M(e.p, e.q)>>
     /\ \A i \in 1..Len(e.at) : 
          LET s == e.at[i] IN
          \/ e.v[i] = Source(s, e.p, e.q)
          \* the bin length is held in binary: where the product is whole it may come out just below
          \/ e.q \notin {1, 2, 4} /\ (s * e.p) % (e.q * M(e.p, e.q)) = 0 /\ e.v[i] = Source(s, e.p, e.q) - 1
     THEN {} ELSE {"partition"}
\* e.x: one row of integer millisecond offsets; e.t: bin times in the hundredths of them
FailTime(e) == IF PerBin(e, e.t, LAMBDA o, s : Obs(o, MeanR(s), 100, 3)) THEN {} ELSE {"bin-time"}
FailRefuse(e) == IF e.refused THEN {} ELSE {"short-record-accepted"}
FailBinning(e) == CASE e.k = "reshape" -> FailReshape(e) [] e.k = "stat" -> FailStat(e)
                    [] e.k = "series" -> FailSeries(e) [] e.k = "padded" -> FailPadded(e)
                    [] e.k = "time" -> FailTime(e) [] e.k = "big" -> FailBig(e) [] e.k = "refuse" -> FailRefuse(e)
====

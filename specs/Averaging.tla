---- MODULE Averaging ----
(* Averaging a dataset into bins.  The output is an accumulating dataset; an
   operation (average or variance over some or all variables) is refused when
   the output was produced with other parameters, and otherwise puts the per-bin
   statistic of each time-series variable on that variable's own bin times. *)
EXTENDS Binning
\* speed of integer vectors of length 0, 5, 10
Speed(u, v) == IF u = NAN \/ v = NAN THEN NAN
               ELSE CASE u * u + v * v = 0 -> 0 [] u * u + v * v = 25 -> 5 [] u * u + v * v = 100 -> 10
Names(s) == {s[i].name : i \in 1..Len(s)}
Get(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].name = n]
OutName(op, n) == IF op = "var" THEN n \o "_var" ELSE n
\* variables an operation produces: time series that are not ensemble counters
\* and not raw-altimeter profiles
Eligible(r) == r.time /\ ~r.counter /\ ~r.altraw
Touched(e) == {n \in Names(e.raw) : Eligible(Get(e.raw, n)) /\ n \in ToSet(e.names)}
Produced(e) == {OutName(e.op, n) : n \in Touched(e)} \cup (IF e.op = "avg" THEN {"U_std"} ELSE {})

StatOk(e, r, o) ==
  /\ Len(o.v) = Len(r.v)
  /\ \A k \in 1..Len(r.v) : LET bs == Split(r.v[k], e.p, e.q) IN
       /\ Len(o.v[k]) = Len(bs)
       /\ \A b \in 1..Len(bs) :
            IF e.op = "avg" /\ r.big THEN TRUE       \* its mean is not kept in this precision
            ELSE IF e.op = "avg" THEN Obs(o.v[k][b], MeanR(bs[b]), e.sc, 1 + e.vt)
            ELSE Obs(o.v[k][b], VarR(bs[b]), e.sc, 2 + e.vt)
AxesOk(e, r, o) ==
  /\ o.dims = r.dims
  /\ o.others                                   \* other coordinates carried over
  /\ LET bs == Split(r.t, e.p, e.q) IN
       Len(o.t) = Len(bs) /\ \A b \in 1..Len(bs) : Obs(o.t[b], MeanR(bs[b]), 1, 2)
StdOk(e) ==
  LET u == Get(e.raw, "vel")
      nz == Len(u.v) \div 3
      o == Get(e.post, "U_std") IN
  /\ Len(o.v) = nz
  /\ \A z \in 1..nz :
      LET sp == [t \in 1..Len(u.v[z]) |-> Speed(u.v[z][t], u.v[nz + z][t])]
          bs == Split(sp, e.p, e.q) IN
      Len(o.v[z]) = Len(bs) /\
      \A b \in 1..Len(bs) : Obs(o.v[z][b], VarR(bs[b]), e.sc, 4 + e.vt)   \* recorded squared
OutStatic(e) == \A n \in Names(e.post) : n \notin Names(e.pre) /\ n \notin Produced(e) =>
                  /\ n \in Names(e.raw) \/ (e.op = "var" /\ \E m \in Names(e.raw) : n = m \o "_var")
                  /\ Get(e.post, n).same        \* carried over unaltered
Kept(a, b) == a.v = b.v /\ a.t = b.t /\ a.dims = b.dims
FailStep(e) ==
  IF ~e.agree THEN
     (IF e.refused THEN {} ELSE {"mismatch-accepted"})
     \cup (IF e.post = e.pre THEN {} ELSE {"refused-changed-output"})
     \cup (IF e.mut THEN {"source-mutated"} ELSE {})
  ELSE IF e.refused THEN {"matching-refused"}
  ELSE
  (IF Produced(e) \subseteq Names(e.post) THEN {} ELSE {"variable-lost"})
  \cup (IF \A n \in Names(e.pre) : n \in Names(e.post) /\
            (n \in Produced(e) \/ Kept(Get(e.pre, n), Get(e.post, n))) THEN {} ELSE {"earlier-result-changed"})
  \cup (IF OutStatic(e) THEN {} ELSE {"averaged-over-another-axis"})
  \cup (IF \A n \in Touched(e) : OutName(e.op, n) \in Names(e.post) =>
            StatOk(e, Get(e.raw, n), Get(e.post, OutName(e.op, n))) THEN {} ELSE {"bin-statistic"})
  \cup (IF \A n \in Touched(e) : OutName(e.op, n) \in Names(e.post) =>
            AxesOk(e, Get(e.raw, n), Get(e.post, OutName(e.op, n))) THEN {} ELSE {"axes"})
  \cup (IF \A n \in Touched(e) : OutName(e.op, n) \in Names(e.post) =>
            Get(e.post, OutName(e.op, n)).attrs THEN {} ELSE {"attributes"})
  \cup (IF e.op = "avg" /\ "U_std" \in Names(e.post) => StdOk(e) THEN {} ELSE {"speed-deviation"})
  \cup (IF e.attrs THEN {} ELSE {"dataset-attributes"})
  \cup (IF e.mut THEN {"source-mutated"} ELSE {})
Failures(e) == CASE e.k = "step" -> FailStep(e)
====

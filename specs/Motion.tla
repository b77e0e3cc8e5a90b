---- MODULE Motion ----
(* Motion correction of an ADV record with inertial data.
   A record r holds, per sample, the integer earth->inst rotation o, and in the
   instrument frame the acceleration a, angular rate w and velocity v (1/8
   units); the head position (1e-5 m), the beam matrix and the head rotation.
   fs / fq is the sampling frequency, gone the samples (from 0) whose velocity
   is missing: they stay missing, motion or not.
   The state of a dataset is its frame, its declination (0 or 90 degrees east)
   and the correction it carries.  Everything a corrected dataset shows is the
   instrument-frame truth seen from the labelled frame.
   Filters: frequency 0 removes the mean (acceleration) or nothing (velocity);
   a quarter of the sampling frequency gives filters with known coefficients. *)
EXTENDS Num, Json

SV == 10000      \* accelerations, acceleration velocities
SR == 100000     \* everything else

\* ---- attitudes: the 24 rotations of the cube
RX == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
RZ == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
Det3(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
         - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
         + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
B3 == <<<<1, 1, 0>>, <<1, 2, 1>>, <<0, 1, 2>>>>
B3i == <<<<3, -2, 1>>, <<-2, 2, -1>>, <<1, -1, 1>>>>

\* ---- frames.  i: instrument-frame vector of sample t
ToEarth(o, dec, i) == LET e == MatVec(Transp(o), i) IN
                      IF dec = 90 THEN <<e[2], -e[1], e[3]>> ELSE e
ToInst(o, dec, e) == MatVec(o, IF dec = 90 THEN <<-e[2], e[1], e[3]>> ELSE e)
View(r, f, dec, t, i) ==
  CASE f = "inst" -> i
    [] f = "earth" -> ToEarth(r.o[t], dec, i)
    [] f = "beam" -> MatVec(B3i, MatVec(Transp(r.rh), i))

\* ---- filters
Odd(y, k) == LET n == Len(y) IN
  [i \in 1..(n + 2 * k) |-> IF i <= k THEN 2 * y[1] - y[k + 2 - i]
                            ELSE IF i <= k + n THEN y[i - k]
                            ELSE 2 * y[n] - y[2 * n + k - i]]
\* second order Butterworth low pass at a quarter of the sampling frequency,
\* started in its steady state
MB(x) == RDiv(x * 2929, 10000) - RDiv(x, 147500)
MA(x) == RDiv(x * 1716, 10000) - RDiv(x, 36870)
LFilt(x) ==
  FoldLeft(LAMBDA ys, i :
             LET x1 == IF i > 1 THEN x[i - 1] ELSE x[1]
                 x2 == IF i > 2 THEN x[i - 2] ELSE x[1]
                 y2 == IF i > 2 THEN ys[i - 2] ELSE x[1] IN
             Append(ys, MB(x[i] + 2 * x1 + x2) - MA(y2)),
           <<>>, [i \in 1..Len(x) |-> i])
FiltFilt(y) == LET k == 9
                   f == TLCEval(Reverse(LFilt(Reverse(LFilt(Odd(y, k)))))) IN
               SubSeq(f, k + 1, k + Len(y))

\* low-passed acceleration, times Den
Den(x, af) == IF af = 0 THEN Len(x) ELSE 4
Low(x, af) == LET n == Len(x) IN
  IF af = 0 THEN [i \in 1..n |-> Sum(x)]
  ELSE [i \in 1..n |-> IF i \in {1, n} THEN 4 * x[i] ELSE x[i - 1] + 2 * x[i] + x[i + 1]]
\* velocity from one component of one burst (acceleration in 1/8), scale SV
VelAcc(x, af, vf, fs, fq) ==
  LET n == Len(x)
      d == Den(x, af)
      lo == TLCEval(Low(x, af))
      hp == TLCEval([i \in 1..n |-> d * x[i] - lo[i]])
      cum == FoldLeft(LAMBDA s, i : Append(s, s[i] + hp[i] + hp[i + 1]), <<0>>,
                      [i \in 1..(n - 1) |-> i])
      y == TLCEval([i \in 1..n |-> RDiv(cum[i] * SV * fq, 16 * d * fs)])
      f == IF vf = 0 THEN y ELSE FiltFilt(y) IN
  IF vf = 0 THEN y ELSE [i \in 1..n |-> y[i] - f[i]]

\* bursts of a record: the whole of it unless it is duty cycled
NB(r) == IF r.nb = 0 \/ r.nb >= Len(r.a) THEN Len(r.a) ELSE r.nb
PerBurst(r, F(_), x) ==
  LET m == NB(r) IN
  FlattenSeq([b \in 1..(Len(x) \div m) |-> F(SubSeq(x, (b - 1) * m + 1, b * m))])
AccE(r) == [t \in 1..Len(r.a) |-> ToEarth(r.o[t], 0, r.a[t])]
CompOf(s, j) == [t \in 1..Len(s) |-> s[t][j]]
Zip3(c) == [t \in 1..Len(c[1]) |-> <<c[1][t], c[2][t], c[3][t]>>]
\* earth-frame velocity and low-passed acceleration, scale SV
VelAccE(r, c) == LET e == TLCEval(AccE(r)) IN
  Zip3([j \in 1..3 |-> TLCEval(PerBurst(r, LAMBDA x : VelAcc(x, c.af, c.vf, r.fs, r.fq), CompOf(e, j)))])
LowE(r, c) == LET e == TLCEval(AccE(r))
                  F(x) == LET l == TLCEval(Low(x, c.af)) IN
                          [i \in 1..Len(x) |-> RDiv(l[i] * SV, 8 * Den(x, c.af))] IN
  Zip3([j \in 1..3 |-> TLCEval(PerBurst(r, F, CompOf(e, j)))])

\* angular rate crossed with the position relative to the inertial sensor
Imu == <<635, 635, 14986>>
Cross(w, p) == <<w[2] * p[3] - w[3] * p[2], w[3] * p[1] - w[1] * p[3], w[1] * p[2] - w[2] * p[1]>>
RotAt(w, p) == Cross(w, [k \in 1..3 |-> p[k] - Imu[k]])     \* scale 8 * SR
VelRot(r, t) == RotAt(r.w[t], r.head)

\* ---- one velocity per receiver, measured along that receiver's beam only
Probe == << <<7600, 0, -4388>>, <<-3800, 6582, -4388>>, <<-3800, -6582, -4388>> >>
ProbeRot(r, t) ==      \* head rotation identity
  LET b == [p \in 1..3 |-> MatVec(B3i, RotAt(r.w[t], [k \in 1..3 |-> Probe[p][k] + r.head[k]]))[p]] IN
  MatVec(B3, b)
\* what the library computes instead (receivers and components exchanged)
ProbeRotKnown(r, t) ==
  LET u == [p \in 1..3 |-> RotAt(r.w[t], [k \in 1..3 |-> Probe[p][k] + r.head[k]])]
      b == [p \in 1..3 |-> MatVec(B3i, [k \in 1..3 |-> u[k][p]])[p]] IN
  MatVec(B3, b)

\* ---- verdicts
Near(obs, exp, tol) == CloseMat(obs, exp, tol)
ViewAll(r, f, dec, s) == [t \in 1..Len(s) |-> View(r, f, dec, t, s[t])]
\* the velocity of a missing sample is missing in every component
Gone(r) == {r.gone[i] + 1 : i \in 1..Len(r.gone)}
NoVel(r, s) == [t \in 1..Len(s) |-> IF t \in Gone(r) THEN <<NAN, NAN, NAN>> ELSE s[t]]
Sc(s, num, den) == [t \in 1..Len(s) |-> [k \in 1..3 |-> RDiv(s[t][k] * num, den)]]
\* beam matrices amplify: five times the tolerance there
Tol(f, k) == IF f = "beam" THEN 6 * k ELSE k
StateFail(e) ==
  LET r == e.r
      c == e.c
      x == e.x
      n == Len(r.a)
      V(s) == ViewAll(r, e.frame, e.dec, s)
      atol == IF c.vf = 1 THEN 12 ELSE 3
      accE == TLCEval(VelAccE(r, c))
      acc == TLCEval([t \in 1..n |-> ToInst(r.o[t], 0, accE[t])])
      lowE == TLCEval(LowE(r, c))
      low == [t \in 1..n |-> ToInst(r.o[t], 0, lowE[t])]
      rot == [t \in 1..n |-> VelRot(r, t)]
      raw == NoVel(r, Sc(V(r.v), SR, 8)) IN
  (IF e.label # e.frame THEN {"frame-label"} ELSE {})
  \cup (IF e.mut THEN {"source-changed"} ELSE {})
  \cup (IF ~c.done THEN
          (IF ~Near(x.vel, raw, Tol(e.frame, 3)) THEN {"uncorrected-velocity"} ELSE {})
          \cup (IF e.extra THEN {"unexpected-variables"} ELSE {})
        ELSE
          (IF ~Near(x.raw, raw, Tol(e.frame, 3)) THEN {"raw-velocity"} ELSE {})
          \cup (IF ~Near(x.rot, Sc(V(rot), 1, 8), Tol(e.frame, 3)) THEN {"rotation-velocity"} ELSE {})
          \cup (IF ~Near(x.acc, V(acc), Tol(e.frame, atol)) THEN {"acceleration-velocity"} ELSE {})
          \cup (IF ~Near(x.vel, NoVel(r, [t \in 1..n |-> [k \in 1..3 |->
                                   IF t \in Gone(r) THEN NAN ELSE x.raw[t][k] + x.rot[t][k] + x.acc5[t][k]]]),
                         Tol(e.frame, 6)) THEN {"sum"} ELSE {})
          \cup (IF e.frame # "beam" /\ ~Near(x.low, V(low), 3) THEN {"low-acceleration"} ELSE {})
          \cup (IF ~e.meta THEN {"attributes"} ELSE {}))
  \cup (IF e.frame # "beam" /\ ~Near(x.accel, Sc(V(r.a), SV, 8), 3) THEN {"acceleration"} ELSE {})
  \cup (IF e.frame # "beam" /\ ~Near(x.angrt, Sc(V(r.w), SR, 8), 3) THEN {"angular-rate"} ELSE {})

SepFail(e) ==
  LET r == e.r
      n == Len(r.a)
      good == [t \in 1..n |-> ProbeRot(r, t)]
      wrong == [t \in 1..n |-> ProbeRotKnown(r, t)]
      V(s) == Sc(ViewAll(r, e.frame, 0, s), 1, 8) IN
  (IF Near(e.x.rot, V(good), 12) THEN {}
   ELSE IF Near(e.x.rot, V(wrong), 12) THEN {"receivers-and-components-exchanged"}
   ELSE {"receiver-velocity"})
  \cup (IF ~Near(e.x.vel, [t \in 1..n |-> [k \in 1..3 |-> e.x.raw[t][k] + e.x.rot[t][k] + e.x.acc5[t][k]]], 6)
        THEN {"sum"} ELSE {})

\* runs that must agree (l = sum of the rs), any filter
RelFail(e) ==
  LET n == Len(e.l) IN
  IF Near(e.l, [t \in 1..n |-> [k \in 1..Len(e.l[t]) |-> Sum([i \in 1..Len(e.rs) |-> e.rs[i][t][k]])]], e.tol)
  THEN {} ELSE {e.rel}

Failures(e) ==
  CASE e.k = "state" -> StateFail(e)
    [] e.k = "sep" -> SepFail(e)
    [] e.k = "rel" -> RelFail(e)
    [] e.k = "refuse" -> (IF e.raised # e.want THEN {e.why} ELSE {})
                         \cup (IF e.mut THEN {"source-changed"} ELSE {})
    [] OTHER -> {"unknown-event"}
====

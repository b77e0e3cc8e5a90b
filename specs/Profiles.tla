---- MODULE Profiles ----
(* ADCP profiles: where the surface is, which cells lie beyond it, and the cell
   filters.  Distances are integers in units of 1/8 m; cosines in millionths. *)
EXTENDS Num, Json
MISS == <<NAN, 1>>
Med(s) == LET t == SortSeqInt(s) n == Len(s) IN
          IF (n % 2) = 1 THEN RInt(t[(n + 1) \div 2]) ELSE Rat(t[n \div 2] + t[n \div 2 + 1], 2)
\* ---- surface from the echo: amp[beam][time][cell]
ArgMax(a) == Min({i \in 1..Len(a) : \A j \in 1..Len(a) : a[j] <= a[i]})
\* the cell after the last decrease away from the transducer (second cell if none)
LastDrop(a) == LET S == {i \in 1..(Len(a) - 1) : a[i + 1] < a[i]} IN
               IF S = {} THEN 2 ELSE Max(S) + 1
Rises(a, upto, thr) == \E i \in 1..(upto - 1) : a[i + 1] - a[i] >= thr
Surface(amp, rng, thr, t) ==
  LET nb == Len(amp)
      tops == TLCEval([b \in 1..nb |-> ArgMax(amp[b][t])])
      last == [b \in 1..nb |-> LastDrop(amp[b][t])]
      far == Max({tops[b] : b \in 1..nb}) IN
  IF \E b \in 1..nb : Rises(amp[b][t], far, thr)
  THEN Med([k \in 1..(2 * nb) |-> IF k <= nb THEN rng[tops[k]] ELSE rng[last[k - nb]]])
  ELSE MISS
\* running median of odd length n, nothing (zero) beyond the ends, zero is missing
RunMed(s, n) == [i \in 1..Len(s) |->
   LET w == [k \in 1..n |-> LET j == i - n \div 2 + k - 1 IN IF j < 1 \/ j > Len(s) THEN 0 ELSE s[j]] IN
   SortSeqInt(w)[(n + 1) \div 2]]
\* ---- surface from pressure (dbar), temperature (degC) and salinity
Rho4(p, tc, sal) == 10270000 - 1500 * (tc - 10) + 7800 * (sal - 35) + 45 * p     \* 1e-4 kg/m3
LongDiv(a, b, d) == LET RECURSIVE F(_, _, _)
                        F(rr, k, acc) == IF k = 0 THEN acc
                                         ELSE F((10 * rr) % b, k - 1, 10 * acc + ((10 * rr) \div b))
                    IN F(a % b, d, a \div b)
DepthMm(p, tc, sal) == LongDiv(p * 1000000, 981 * RDiv(Rho4(p, tc, sal), 100), 5)
\* ---- blanking: verdict 1 blank, 0 keep, 2 on the line (rounding decides)
CosM(ang) == CASE ang = 0 -> 1000000 [] ang = 20 -> 939693 [] ang = 25 -> 906308
               [] ang = 30 -> 866025 [] ang = 60 -> 500000
\* reach: (depth - h) cos - cell + h, compared in millionths of a unit
Beyond(r, depth, h, ang, cell) ==
  IF depth = NAN THEN 0
  ELSE LET d == (r - h + cell) * 1000000 - (depth - h) * CosM(ang) IN
       IF Abs(d) <= 200 /\ ang # 0 THEN 2 ELSE IF d > 0 THEN 1 ELSE 0
BeyondSurface(r, depth) == IF depth # NAN /\ r > depth THEN 1 ELSE 0
\* out = val where blanked, unchanged where kept
Blanked(o, x, v, val) == CASE v = 1 -> o = val [] v = 0 -> o = x [] v = 2 -> o = val \/ o = x
FailBlank(e) ==
  LET V(name, r, t) == IF name = "echo" THEN BeyondSurface(e.rngs[name][r], e.depth[t])
                       ELSE Beyond(e.rngs["vel"][r], e.depth[t], e.h, e.ang, e.cell) IN
  (IF \A name \in DOMAIN e.vars : \A b \in 1..Len(e.vars[name].x) :
        \A r \in 1..Len(e.vars[name].x[b]) : \A t \in 1..Len(e.depth) :
          Blanked(e.vars[name].o[b][r][t], e.vars[name].x[b][r][t], V(name, r, t), e.vars[name].val)
   THEN {} ELSE {"blanking"})
  \cup (IF e.others THEN {} ELSE {"other-variable-changed"})
  \cup (IF e.mut THEN {"input-mutated"} ELSE {})
\* ---- correlation filter: in a frame that mixes beams a bad beam spoils the cell
FailCorr(e) ==
  LET bad(tag, b, r, t) == e.corr[tag][b][r][t] <= e.thr
      nb(tag) == Len(e.corr[tag])
      Gone(name, tag, b, r, t) == IF name = "vel" /\ tag = "" /\ e.frame # "beam"
                                  THEN \E c \in 1..nb(tag) : bad(tag, c, r, t) ELSE bad(tag, b, r, t)
      One(v) == \A b \in 1..Len(v.x) : \A r \in 1..Len(v.x[1]) : \A t \in 1..Len(v.x[1][1]) :
                  IF Gone(v.name, v.tag, b, r, t) THEN v.o[b][r][t] = v.miss
                  ELSE Close(v.o[b][r][t], v.x[b][r][t], v.tol) IN
  (IF \A i \in 1..Len(e.vars) : One(e.vars[i]) THEN {} ELSE {"correlation-filter"})
  \cup (IF e.cs = e.frame THEN {} ELSE {"frame-not-restored"})
  \cup (IF e.mut THEN {"input-mutated"} ELSE {})
\* ---- threshold
FailThresh(e) ==
  (IF /\ Len(e.o) = Len(e.x)
      /\ \A i \in 1..Len(e.x) : e.o[i] = IF e.x[i] # NAN /\ Abs(e.x[i]) > e.thr THEN e.val ELSE e.x[i]
   THEN {} ELSE {"threshold"}) \cup (IF e.mut THEN {"input-mutated"} ELSE {})
\* ---- gap filling along time (at the samples' times) or depth (by cell number)
PrevGood(s, i) == LET S == {j \in 1..i : s[j] # NAN} IN IF S = {} THEN 0 ELSE Max(S)
NextGood(s, i) == LET S == {j \in i..Len(s) : s[j] # NAN} IN IF S = {} THEN 0 ELSE Min(S)
FilledAt(s, t, lim, poly, i) ==
  LET p == PrevGood(s, i)
      n == NextGood(s, i) IN
  IF s[i] # NAN THEN RInt(s[i])
  ELSE IF p = 0 \/ n = 0 \/ i - p > lim THEN MISS
  ELSE IF poly = <<>> THEN RAdd(RInt(s[p]), RMul(RInt(s[n] - s[p]), Rat(t[i] - t[p], t[n] - t[p])))
  ELSE RInt(poly[1] + t[i] * (poly[2] + t[i] * (poly[3] + t[i] * poly[4])))
ObsR(o, r, sc, tol) == IF r[1] = NAN THEN o = NAN ELSE Close(o, RScaled(r, sc), tol)
NGood(s) == Cardinality({i \in 1..Len(s) : s[i] # NAN})
FailGap(e) ==
  LET few == e.poly # <<>> /\ \E k \in 1..Len(e.x) : NGood(e.x[k]) > 0 /\ NGood(e.x[k]) < 4 IN
  IF e.raised THEN (IF few THEN {} ELSE {"fill-refused"})
  ELSE (IF \A k \in 1..Len(e.x) : \A i \in 1..Len(e.x[k]) :
           ObsR(e.o[k][i], FilledAt(e.x[k], e.t, e.lim, IF e.poly = <<>> THEN <<>> ELSE e.poly[k], i), e.sc, e.tol)
        THEN {} ELSE {"gap-filling"}) \cup (IF e.exact THEN {} ELSE {"good-sample-changed"}) \cup (IF e.mut THEN {"input-mutated"} ELSE {})
\* ---- orientation filter; quaternion <<w, x, y, z>> turns instrument into earth axes
QNorm(k) == k[1] * k[1] + k[2] * k[2] + k[3] * k[3] + k[4] * k[4]
OmatQ(k) == LET w == k[1] x == k[2] y == k[3] z == k[4] IN Transp(
  << << w*w + x*x - y*y - z*z, 2 * (x*y - w*z), 2 * (x*z + w*y) >>,
     << 2 * (x*y + w*z), w*w - x*x + y*y - z*z, 2 * (y*z - w*x) >>,
     << 2 * (x*z - w*y), 2 * (y*z + w*x), w*w - x*x - y*y + z*z >> >>)
FailOrient(e) ==
  (IF \A k \in 1..Len(e.x) : e.o[k] = RunMed(e.x[k], e.n) THEN {} ELSE {"orientation-filter"})
  \cup (IF e.om = <<>> THEN {} ELSE
        IF \A t \in 1..Len(e.om) : LET w == [k \in 1..4 |-> RunMed(e.x[k], e.n)[t]] IN
             QNorm(w) > 0 => CloseMat(e.om[t], [i \in 1..3 |-> [j \in 1..3 |->
               RDiv(10000 * OmatQ(w)[i][j], QNorm(w))]], 2)
        THEN {} ELSE {"orientation-matrix-stale"})
  \cup (IF e.stale THEN {"orientation-matrix-stale"} ELSE {})
  \cup (IF e.mut THEN {"input-mutated"} ELSE {})
FailSurf(e) ==
  LET d == [t \in 1..Len(e.amp[1]) |-> Surface(e.amp, e.rng, e.thr, t)] IN
  (IF e.nf = 0 THEN IF \A t \in 1..Len(d) : ObsR(e.o[t], d[t], e.sc, 0) THEN {} ELSE {"surface"}
   ELSE IF \E t \in 1..Len(d) : d[t][1] = NAN THEN {}
   ELSE LET m == RunMed([t \in 1..Len(d) |-> RScaled(d[t], e.sc)], e.nf) IN
        IF \A t \in 1..Len(d) : e.o[t] = IF m[t] = 0 THEN NAN ELSE m[t] THEN {} ELSE {"surface-filter"})
  \cup (IF e.mut THEN {"input-mutated"} ELSE {})
FailPress(e) ==
  (IF \A t \in 1..Len(e.p) : IF e.p[t] = NAN THEN e.o[t] = NAN
        ELSE Close(e.o[t], DepthMm(e.p[t], e.tc[t], e.sal) + 125 * e.h, 2)
   THEN {} ELSE {"depth-from-pressure"})
  \cup (IF \A t \in 1..Len(e.p) : e.p[t] # NAN => Close(e.rho[t], Rho4(e.p[t], e.tc[t], e.sal), 2)
        THEN {} ELSE {"density"})
  \cup (IF e.mut THEN {"input-mutated"} ELSE {})
\* ---- histories: offsets, depths and blanking in any order.  The state is the
\* range offset, the stored depth (0 none) and the number of cells blanked per ping
OpsStep(e, s, op) ==
  CASE op.op = "offset" -> [s EXCEPT !.off = @ + op.h]
    [] op.op = "press" -> [s EXCEPT !.depth = e.pd + s.off]
    [] op.op = "blank" -> [s EXCEPT !.gone = @ \cup {r \in 1..Len(e.rng) :
            Beyond(e.rng[r] + s.off, s.depth, s.off, e.ang, e.cell) = 1}]
RECURSIVE RunOps(_, _, _)
RunOps(e, s, k) == IF k > Len(e.ops) THEN <<>> ELSE
  LET n == OpsStep(e, s, e.ops[k]) IN <<n>> \o RunOps(e, n, k + 1)
OpsInit == [off |-> 0, depth |-> NAN, gone |-> {}]
FailOps(e) ==
  LET ss == RunOps(e, OpsInit, 1) IN
  IF \A k \in 1..Len(e.ops) :
      /\ e.obs[k].rng = [r \in 1..Len(e.rng) |-> e.rng[r] + ss[k].off]
      /\ e.obs[k].h = ss[k].off
      /\ e.obs[k].gone = SeqOfSet(ss[k].gone)
      /\ e.obs[k].same
  THEN {} ELSE {"history"}
Failures(e) == CASE e.k = "surf" -> FailSurf(e) [] e.k = "press" -> FailPress(e)
                 [] e.k = "blank" -> FailBlank(e) [] e.k = "corr" -> FailCorr(e)
                 [] e.k = "thresh" -> FailThresh(e) [] e.k = "gap" -> FailGap(e)
                 [] e.k = "orient" -> FailOrient(e) [] e.k = "ops" -> FailOps(e)
====

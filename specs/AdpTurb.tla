---- MODULE AdpTurb ----
(* The analyses of a profiler's record.  x[c][z][t] are integer velocities (in
   eighths) of component or beam c in cell z. *)
EXTENDS Turb
\* ---- shear: differences over the true cell positions (rs: cell size in eighths)
Cells(e, n) == CASE e.style = "first" -> [i \in 1..(n - 1) |-> <<i, i + 1, i + 1>>]
                 [] e.style = "centered" -> [i \in 1..(n - 2) |-> <<i, i + 2, i + 1>>]
                 [] e.style = "centered_extended" -> [i \in 1..n |-> <<Max2(i - 1, 1), Min2(i + 1, n), i>>]
Der(e, c, k, t) == LET n == Len(e.x[c]) IN
   RQ(e.x[c][Cells(e, n)[k][2]][t] - e.x[c][Cells(e, n)[k][1]][t],
      (Cells(e, n)[k][2] - Cells(e, n)[k][1]) * e.rs)
Sign(e) == IF (IF e.oarg # "" THEN e.oarg ELSE e.obin) = "down" THEN -1 ELSE 1
RSq(r) == RMul(r, r)
ShearOk(e) ==
  LET n == Len(e.x[1])
      C == Cells(e, n) IN
  /\ Len(e.out) = Len(C)
  /\ \A k \in 1..Len(C) : Len(e.out[k]) = Len(e.x[1][1]) /\ \A t \in 1..Len(e.out[k]) :
       LET d(c) == Der(e, c, k, t) IN
       ObsB(e.out[k][t],
            CASE e.fn = "u" -> RMul(RInt(Sign(e)), d(1)) [] e.fn = "v" -> d(2) [] e.fn = "w" -> d(3)
              [] e.fn = "2" -> RAdd(RSq(d(1)), RSq(d(2))), e.sc, 2 + e.vt)
FailShear(e) ==
  (IF ShearOk(e) THEN {} ELSE {"shear"})
  \cup (IF e.rng = [k \in 1..Len(Cells(e, Len(e.x[1]))) |-> e.r0 + (Cells(e, Len(e.x[1]))[k][3] - 1) * e.rs]
        THEN {} ELSE {"cell-positions"})
  \cup (IF e.mut THEN {"input-changed"} ELSE {})

\* ---- stresses from beam variances
Orient(e) == IF e.oarg # "" THEN e.oarg ELSE IF e.oattr # "" THEN e.oattr ELSE e.obin
Angle(e) == IF e.aarg # 0 THEN e.aarg ELSE e.aattr
\* x axis from the first to the second beam, y axis from the third to the fourth, as if looking down
Order(e) == CASE e.make = "TRDI" /\ Orient(e) = "down" -> <<1, 2, 3, 4>>
              [] e.make = "TRDI" /\ Orient(e) = "up" -> <<1, 2, 4, 3>>
              [] e.make = "Nortek" /\ Orient(e) = "down" -> <<3, 1, 4, 2>>
              [] e.make = "Nortek" /\ Orient(e) = "up" -> <<1, 3, 4, 2>>
SinT(a) == CASE a = 20 -> FQ(34202, 100000) [] a = 25 -> FQ(42262, 100000) [] a = 30 -> FQ(1, 2)
CosT(a) == CASE a = 20 -> FQ(93969, 100000) [] a = 25 -> FQ(90631, 100000) [] a = 30 -> FQ(86603, 100000)
VarD(s) == DemCov(s, s)
\* variance of beam i (in the stress order) in cell z, bin b, noise subtracted
BVar(e, i, z, b) == LET c == IF i = 5 THEN 5 ELSE Order(e)[i]
                        v == VarD(Split(e.x[c][z], e.p, e.q)[b]) IN
                    IF v[1] = NAN THEN FNaN ELSE FRat(SubN(v, NoiseAt(e.noise, 1, b)))
BMax(e, z, b, n) == LET v == {FAbs(BVar(e, i, z, b)) : i \in 1..n} IN
   IF FNaN \in v THEN FInt(1) ELSE FAdd(FInt(1), CHOOSE m \in v : \A y \in v : ~FLt(m, y))
NB(e) == NBins(Len(e.x[1][1]), e.p, e.q)
Shape(e, o) == Len(o) = Len(e.x[1]) /\ \A z \in 1..Len(o) : Len(o[z]) = NB(e)
All(e, o, Good(_, _, _)) == Shape(e, o) /\ \A z \in 1..Len(o) : \A b \in 1..NB(e) : Good(o[z][b], z, b)
S4(e, i, j, z, b) == FDivF(FSub(BVar(e, i, z, b), BVar(e, j, z, b)), FMul(FInt(4), FMul(SinT(Angle(e)), CosT(Angle(e)))))
FailFour(e) ==
  IF e.refuse THEN (IF e.err # "" THEN {} ELSE {"geometry-unknown-accepted"}) ELSE
  IF e.err # "" THEN {"refused"} ELSE
  (IF All(e, e.out[2], LAMBDA o, z, b : FCloseAbs(o, S4(e, 1, 2, z, b), 200, BMax(e, z, b, 4))) THEN {} ELSE {"stress-x"})
  \cup (IF All(e, e.out[3], LAMBDA o, z, b : FCloseAbs(o, S4(e, 3, 4, z, b), 200, BMax(e, z, b, 4))) THEN {} ELSE {"stress-y"})
  \cup (IF All(e, e.out[1], LAMBDA o, z, b : FIsNaN(o)) THEN {} ELSE {"unmeasurable-stress-given"})
  \cup (IF e.lab = <<"upvp_", "upwp_", "vpwp_">> THEN {} ELSE {"component-labels"})
  \cup (IF TimesOk(e, e.t) THEN {} ELSE {"bin-time"})
  \cup (IF e.mut THEN {"caller-changed"} ELSE {})

\* five beams (Guerra and Thomson 2017, after Dewey and Stringer): small tilts phi2
\* (about y, degrees) and phi3 (about x)
Deg(n, d) == FMul(FQ(n, d), FDivF(FPi, FInt(180)))
Tilt(e, s, b) == LET m == MeanR(Split(s, e.p, e.q)[b]) IN FMul(FRat(m), FDivF(FPi, FInt(180)))
Phi2(e, b) == IF e.make = "TRDI" THEN Tilt(e, e.pitch, b) ELSE Tilt(e, e.roll, b)
Phi3(e, b) == IF e.make = "TRDI" THEN Tilt(e, e.roll, b) ELSE FNeg(Tilt(e, e.pitch, b))
\* instrument-frame components from the beams
Inst(e, i, z) == [t \in 1..Len(e.x[1][z]) |-> Sum([c \in 1..4 |-> e.bi[i][c] * e.x[c][z][t]])]
UV(e, z, b) == FRat(DetCov(Split(Inst(e, 1, z), e.p, e.q)[b], Split(Inst(e, 2, z), e.p, e.q)[b]))
P4(a, b, c, d) == FMul(FMul(a, b), FMul(c, d))
SC_(a, i, j) == FMul(FPowN(SinT(a), i), FPowN(CosT(a), j))
F3(a, b, c) == FAdd(FAdd(a, b), c)
\* alt: the formulas as known to be in the code
Five(e, which, alt, z, b) ==
  LET a == Angle(e)
      v == [i \in 1..5 |-> BVar(e, i, z, b)]
      d21 == FSub(v[2], v[1])
      d43 == FSub(v[4], v[3])
      two == FInt(2)
      four == FInt(4)
      den == FNeg(FMul(four, SC_(a, 6, 2)))
      ph2 == Phi2(e, b)
      ph3 == Phi3(e, b)
      c2 == IF alt THEN FMul(SC_(a, 0, 1), two) ELSE SC_(a, 0, 2)     \* known: cos * 2 for cos ^ 2
      c5 == FMul(FMul(two, SC_(a, 0, 2)), v[5])
      uv == UV(e, z, b) IN
  FDivF(CASE which = "uu" -> FAdd(P4(FInt(-2), SC_(a, 4, 2), FSub(FAdd(v[2], v[1]), c5), FInt(1)),
                                  P4(two, SC_(a, 5, 1), ph3, d21))
    [] which = "vv" -> FAdd(FAdd(FMul(FMul(FInt(-2), SC_(a, 4, 2)), FSub(FAdd(v[4], IF alt THEN v[1] ELSE v[3]), c5)),
                                 FNeg(P4(two, SC_(a, 4, 2), ph3, d21))),
                            FSub(P4(two, SC_(a, 3, 3), ph3, d21), P4(two, SC_(a, 5, 1), ph2, d43)))
    [] which = "ww" -> IF alt
         THEN FMul(FMul(FInt(-2), SC_(a, 5, 1)),
                   F3(d21, P4(two, SC_(a, 5, 1), ph2, d43), FNeg(P4(four, SC_(a, 6, 2), v[5], FInt(1)))))
         ELSE F3(P4(FInt(-2), SC_(a, 5, 1), ph3, d21), P4(two, SC_(a, 5, 1), ph2, d43), FNeg(P4(four, SC_(a, 6, 2), v[5], FInt(1))))
    [] which = "uw" -> FAdd(F3(FMul(SC_(a, 5, 1), d21),
                               P4(two, FMul(SC_(a, 4, 0), c2), ph3, FAdd(v[2], v[1])),
                               FNeg(P4(four, FMul(SC_(a, 4, 0), c2), ph3, v[5]))),
                            FNeg(P4(four, FMul(SC_(a, 6, 0), c2), ph2, uv)))
    [] which = "vw" -> FAdd(F3(FMul(SC_(a, 5, 1), d43),
                               FNeg(P4(two, FMul(SC_(a, 4, 0), c2), ph2, FAdd(v[4], v[3]))),
                               P4(four, FMul(SC_(a, 4, 0), c2), ph2, v[5])),
                            P4(four, FMul(SC_(a, 6, 0), c2), ph3, uv)),
        den)
\* absolute error: a part of the largest term
FiveTol(e, z, b) == FMul(FInt(16), FAdd(BMax(e, z, b, 5), IF e.tkeonly THEN FZ ELSE FAbs(UV(e, z, b))))
OneFive(e, o, which) ==
  IF All(e, o, LAMBDA w, z, b : FCloseAbs(w, Five(e, which, FALSE, z, b), 1000, FiveTol(e, z, b))) THEN {}
  ELSE IF All(e, o, LAMBDA w, z, b : FCloseAbs(w, Five(e, which, TRUE, z, b), 1000, FiveTol(e, z, b)))
       THEN {"formula-" \o which} ELSE {"five-beam-" \o which}
FailFive(e) ==
  IF e.refuse THEN (IF e.err # "" THEN {} ELSE {"geometry-unknown-accepted"}) ELSE
  IF e.err # "" THEN {"refused"} ELSE
  (IF Len(e.tke) # 3 THEN {"missing-components"} ELSE
     OneFive(e, e.tke[1], "uu") \cup OneFive(e, e.tke[2], "vv") \cup OneFive(e, e.tke[3], "ww"))
  \cup (IF e.tkeonly THEN (IF e.out = <<>> THEN {} ELSE {"missing-components"})
        ELSE IF Len(e.out) # 3 THEN {"missing-components"}
        ELSE (IF All(e, e.out[1], LAMBDA o, z, b : FCloseAbs(o, UV(e, z, b), 500, FInt(2))) THEN {} ELSE {"five-beam-uv"})
             \cup OneFive(e, e.out[2], "uw") \cup OneFive(e, e.out[3], "vw"))
  \cup (IF e.lab THEN {} ELSE {"component-labels"})
  \cup (IF TimesOk(e, e.t) THEN {} ELSE {"bin-time"})
  \cup (IF e.mut THEN {"caller-changed"} ELSE {})

\* ---- structure function of one beam: cells r apart, averaged over the bin
Prime(s) == DemeanR(s)
DZ(e, b, z, i) == \* cells z - i and z
  LET u == Prime(Split(e.x[z - i], e.p, e.q)[b])
      v == Prime(Split(e.x[z], e.p, e.q)[b])
      ok == SelectSeq([t \in 1..Len(u) |-> <<u[t], v[t]>>], LAMBDA w : w[1][1] # NAN /\ w[2][1] # NAN) IN
  IF ok = <<>> THEN FNaN
  ELSE FDivF(FSum([t \in 1..Len(ok) |-> FRat(RSq(RSub(ok[t][1], ok[t][2])))]), FInt(Len(ok)))
NR(e) == e.r1 \div e.rs                    \* number of separations
SfD(e) == /\ Len(e.d) = Len(e.x)
          /\ \A z \in 1..Len(e.x) : Len(e.d[z]) = NR(e) /\ \A i \in 1..NR(e) :
               Len(e.d[z][i]) = NBins(Len(e.x[1]), e.p, e.q) /\ \A b \in 1..Len(e.d[z][i]) :
                 IF i >= z THEN FIsNaN(e.d[z][i][b])
                 ELSE FCloseAbs(e.d[z][i][b], DZ(e, b, z, i), 500, FInt(1))
\* least-squares line through the recorded structure function over the requested separations
Fit(x, y) == LET n == Len(x)
                 mx == FMean(x)
                 my == FMean(y)
                 dx == [i \in 1..n |-> FSub(x[i], mx)] IN
             LET a == FDivF(FSum([i \in 1..n |-> FMul(dx[i], FSub(y[i], my))]), FSum([i \in 1..n |-> FMul(dx[i], dx[i])])) IN
             <<a, FSub(my, FMul(a, mx))>>
SfFit(e, alt, incl) ==
  \A z \in 1..Len(e.x) : \A b \in 1..NBins(Len(e.x[1]), e.p, e.q) :
    LET I == SelectSeq([i \in 1..NR(e) |-> i], LAMBDA i : i * e.rs > e.r0 \/ (incl /\ i * e.rs = e.r0))
        X(i) == LET r == FQ(i * e.rs, e.un) IN IF alt THEN FDivF(FMul(r, r), FInt(3)) ELSE FPow(r, 2, 3)
        y == [k \in 1..Len(I) |-> e.d[z][I[k]][b]]
        eps == e.eps[z][b]
        nz == e.nz[z][b] IN
    IF z <= NR(e) \/ \E k \in 1..Len(y) : FIsNaN(y[k]) THEN z <= NR(e) => FIsNaN(eps) /\ FIsNaN(nz)
    ELSE LET f == Fit([k \in 1..Len(I) |-> X(I[k])], y)
             top == FAdd(FMaxSeq([k \in 1..Len(y) |-> FAbs(y[k])]), FQ(1, 10))
             tol == FDivF(top, FInt(100)) IN
         /\ IF FIsNaN(eps) THEN FLt(f[1], tol)
            ELSE FCloseAbs(FMul(FPow(eps, 2, 3), FMul(FQ(21, 10), FInt(64))), f[1], 100, top)
         /\ IF FIsNaN(nz) THEN FLt(f[2], tol)
            ELSE FCloseAbs(FMul(FMul(nz, nz), FInt(128)), f[2], 100, top)
FailProf(e) ==
  (IF e.err # "" THEN {"refused"} ELSE
   (IF SfD(e) THEN {} ELSE {"structure-function"})
   \cup (IF e.r = [i \in 1..NR(e) |-> i * e.rs * 10] THEN {} ELSE {"separations"})
   \cup (IF ~SfD(e) \/ SfFit(e, FALSE, FALSE) \/ SfFit(e, FALSE, TRUE) THEN {}
         ELSE IF SfFit(e, TRUE, FALSE) \/ SfFit(e, TRUE, TRUE) THEN {"fit-to-r-squared-over-three"} ELSE {"dissipation"})
   \cup (IF e.lab THEN {} ELSE {"axes"})
   \cup (IF TimesOk(e, e.t) THEN {} ELSE {"bin-time"}))
  \cup (IF e.mut THEN {"caller-changed"} ELSE {})
\* friction velocity: mean of the extrapolated stress over the chosen cells
FailUstar(e) ==
  LET n == e.z1 - e.z0
      U2(t) == LET h == e.h[IF Len(e.h) = 1 THEN 1 ELSE t]
                   sg == RQ(Sum([k \in 1..n |-> Sgn(e.x[e.z0 + k][t])]), n) IN
               RMul(sg, RMul(RSum([k \in 1..n |-> RMul(RInt(e.x[e.z0 + k][t]), RQ(h, h - e.z[e.z0 + k]))]), RQ(1, n))) IN
  (IF Len(e.out) = Len(e.x[1]) /\ \A t \in 1..Len(e.out) :
        LET w == U2(t) IN
        IF w[1] < 0 THEN FIsNaN(e.out[t])
        ELSE IF w[1] = 0 THEN FIsNaN(e.out[t]) \/ FLt(e.out[t], FQ(1, 100))
        ELSE ~FIsNaN(e.out[t]) /\ e.out[t][1] > 0 /\ FCloseAbs(FMul(e.out[t], e.out[t]), FRat(w), 1000, FQ(1, 10))
   THEN {} ELSE {"friction-velocity"})
  \cup (IF e.mut THEN {"caller-changed"} ELSE {})
FailLt1(e) == {IF c = "noise-not-per-radian" THEN "dissipation" ELSE c : c \in FailLt(e)}
\* which separations are fitted does not depend on the size of the cells
FailCells(e) == IF Len(e.a) = Len(e.b) /\ \A z \in 1..Len(e.a) : \A b \in 1..Len(e.a[z]) :
                     IF FIsNaN(e.a[z][b]) \/ FIsNaN(e.b[z][b])
                     THEN (FIsNaN(e.a[z][b]) \/ FLt(e.a[z][b], FQ(1, 100))) /\ (FIsNaN(e.b[z][b]) \/ FLt(e.b[z][b], FQ(1, 100)))
                     ELSE FCloseAbs(e.a[z][b], e.b[z][b], 1000, FQ(1, 1))
                THEN {} ELSE {"separations-fitted"}
FailRel(e) == IF e.ok THEN {} ELSE {e.rel}
Failures(e) == CASE e.k = "shear" -> FailShear(e) [] e.k = "four" -> FailFour(e) [] e.k = "five" -> FailFive(e)
                 [] e.k = "sfp" -> FailProf(e) [] e.k = "ustar" -> FailUstar(e) [] e.k = "dn" -> FailDn(e)
                 [] e.k = "slope" -> FailSlope(e) [] e.k = "lt" -> FailLt1(e) [] e.k = "tke" -> FailTke(e)
                 [] e.k = "cells" -> FailCells(e)
                 [] e.k = "rel" -> FailRel(e)
====

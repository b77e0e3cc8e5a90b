---- MODULE MCAdvTurb ----
(* All small records: the moments of their bins obey the laws of (co)variances.
   The configurations of the analyses are exported as behaviours to replay. *)
EXTENDS AdvTurb
CONSTANTS NN
VARIABLES x, y, kind, opt
vars == <<x, y, kind, opt>>
Opts == [dt : BOOLEAN, noise : {"none", "scalar", "vector", "matrix"}, frac : BOOLEAN, f8 : BOOLEAN]
Kinds == {"tke", "tke1", "stress", "ti", "full", "acov", "xcov", "dn", "slope", "lt", "sf", "te"}
Init == /\ x = <<>> /\ y = <<>> /\ kind \in Kinds \cup {"law"} /\ opt \in Opts
        /\ (kind = "law" => opt = [dt |-> TRUE, noise |-> "none", frac |-> FALSE, f8 |-> TRUE])
Grow == /\ kind = "law" /\ Len(x) < NN
        /\ \E v \in {-1, 0, 2} : \E w \in {-1, 1} : x' = Append(x, v) /\ y' = Append(y, w)
        /\ UNCHANGED <<kind, opt>>
Next == Grow
Full == kind = "law" /\ Len(x) > 1
Line(a, b, s) == [i \in 1..Len(s) |-> s[i] + a + b * i]
NonNeg == Full => DetCov(x, x)[1] >= 0 /\ DemCov(x, x)[1] >= 0
LessThanDemeaned == Full => RLe(DetCov(x, x), DemCov(x, x))       \* a fitted line explains variance
NoLine == Full => /\ DetCov(Line(3, 0, x), y) = DetCov(x, y)
                  /\ DetCov(Line(1, -2, x), y) = DetCov(x, y)
                  /\ DemCov(Line(5, 0, x), y) = DemCov(x, y)
Symmetric == Full => DetCov(x, y) = DetCov(y, x) /\ DemCov(x, y) = DemCov(y, x)
Schwarz == Full => \A d \in BOOLEAN :
   RLe(RMul(Cov(x, y, d), Cov(x, y, d)), RMul(Cov(x, x, d), Cov(y, y, d)))
\* agrees with the line's residuals sample by sample
Residuals == Full => LET r == DetrendR(x)
                         s == DetrendR(y) IN
   DetCov(x, y) = RMul(RSum([i \in 1..Len(x) |-> RMul(r[i], s[i])]), RQ(1, Len(x)))
Lag0 == Full => AcovAt(x, Len(x), 1, 1, 0) = RMul(DemCov(x, x), RInt(Len(x)))
SelfX == Full => RQ(XcovNum(x, x, Len(x), 1, 0), Len(x)) = AcovAt(x, Len(x), 1, 1, 0)
Export == IF kind # "law" THEN PrintT("CASE " \o ToJson([k |-> kind, o |-> opt])) ELSE TRUE

\* ---- the small floating point
ASSUME \A n \in {1, 2, 3, 7, 8, 27, 1000, 16807, 999999} :
   /\ FClose(FPow(FInt(n), 1, 3), FRoot(FInt(n), 3), 30000)
   /\ FClose(FPowN(FRoot(FInt(n), 3), 3), FInt(n), 3000)
   /\ FClose(FPowN(FRoot(FInt(n), 2), 2), FInt(n), 3000)
   /\ FClose(FMul(FQ(1, n), FInt(n)), FInt(1), 8000)
ASSUME FClose(FPow(FInt(8), 5, 3), FInt(32), 8000) /\ FClose(FPow(FInt(4), 3, 2), FInt(8), 8000)
ASSUME FClose(FPow(FQ(1, 8), 5, 3), FQ(1, 32), 8000) /\ FClose(FPow(FQ(1, 1000), 2, 3), FQ(1, 100), 8000)
ASSUME FClose(FPow(FInt(2), 3, 2), FQ(28284, 10000), 5000) /\ ~FClose(FInt(1000), FInt(1003), 500)
ASSUME FMedian(<<FInt(5), FInt(-1), FInt(9)>>) = FInt(5) /\ FClose(FMedian(<<FInt(5), FInt(2)>>), FQ(7, 2), 9999)
ASSUME \A a, b \in -9..9 : /\ FClose(FAdd(FInt(a), FInt(b)), FInt(a + b), 9999)
                           /\ FClose(FMul(FInt(a), FInt(b)), FInt(a * b), 9999)
                           /\ (FLt(FInt(a), FInt(b)) <=> a < b)
\* theory: four times the spectrum is eight times the dissipation
ASSUME \A n \in {1, 5, 77} : FClose(Eps32(FInt(4 * n)), FMul(FInt(8), Eps32(FInt(n))), 2000)
\* a weakly turbulent flow is a frozen one; the angle matters less then
ASSUME \A c \in 0..5 : FClose(TeInt(1, c), FInt(1), 40)
ASSUME \A b \in {1, 2, 4, 8} : \A c \in 0..4 : FLt(TeInt(b, c + 1), TeInt(b, c)) /\ TeInt(b, -c) = TeInt(b, c)
\* first crossing
ASSUME FirstBelow(<<100, 50, 37, 36, 90>>) = 4 /\ FirstBelow(<<9, 9, 8>>) = 1
====

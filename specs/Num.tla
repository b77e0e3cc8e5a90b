---- MODULE Num ----
(* Integer, rational and small linear-algebra helpers shared by the
   specifications.  TLC's integers are 32 bit, so everything is kept small;
   NAN / BADQ / INF are the sentinels the recorder uses. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NAN  == 2000000001
BADQ == 2000000002
INF  == 2000000003
IsSent(x) == x >= NAN

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

\* observed a equals expected b up to tol; sentinels only match themselves
Close(a, b, tol) == IF IsSent(a) \/ IsSent(b) THEN a = b
                    ELSE b - tol <= a /\ a <= b + tol
CloseSeq(a, b, tol) == /\ Len(a) = Len(b)
                       /\ \A i \in 1..Len(b) : Close(a[i], b[i], tol)
CloseMat(a, b, tol) == /\ Len(a) = Len(b)
                       /\ \A i \in 1..Len(b) : CloseSeq(a[i], b[i], tol)

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
SumF(n, f(_)) == Sum([i \in 1..n |-> f(i)])

RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
Gcd(a, b) == GcdN(Abs(a), Abs(b))
Pow(b, n) == LET RECURSIVE P(_)
                 P(k) == IF k = 0 THEN 1 ELSE b * P(k - 1) IN P(n)

\* floor division / modulo for any sign of the dividend (divisor > 0)
FDiv(a, b) == a \div b
\* round-to-nearest quotient, for comparing with quantised observations
RDiv(a, b) == LET s == IF b < 0 THEN -1 ELSE 1
                  n == s * a
                  d == s * b IN (2 * n + d) \div (2 * d)

\* rationals <<n, d>> with d > 0, always reduced
Rat(n, d) == LET g == Gcd(n, d)
                 s == IF d < 0 THEN -1 ELSE 1 IN
             IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
RInt(n) == <<n, 1>>
RAdd(x, y) == LET g == Gcd(x[2], y[2]) IN
              Rat(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), (x[2] \div g) * y[2])
RNeg(x) == <<-x[1], x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == LET g1 == Gcd(x[1], y[2])
                  g2 == Gcd(y[1], x[2])
                  h1 == IF g1 = 0 THEN 1 ELSE g1
                  h2 == IF g2 = 0 THEN 1 ELSE g2 IN
              Rat((x[1] \div h1) * (y[1] \div h2), (x[2] \div h2) * (y[2] \div h1))
RInv(x) == Rat(x[2], x[1])
RDivR(x, y) == RMul(x, RInv(y))
RLt(x, y) == LET d == RSub(x, y) IN d[1] < 0
RLe(x, y) == LET d == RSub(x, y) IN d[1] <= 0
RECURSIVE RSumTo(_, _)
RSumTo(s, n) == IF n = 0 THEN <<0, 1>> ELSE RAdd(s[n], RSumTo(s, n - 1))
RSum(s) == RSumTo(s, Len(s))
\* the integer a recorder would log for rational x at the given scale
RScaled(x, scale) == LET g == Gcd(scale, x[2]) IN RDiv(x[1] * (scale \div g), x[2] \div g)

\* vectors and matrices (sequences of rows) of integers
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
MatVec(m, v) == [i \in 1..Len(m) |-> Dot(m[i], v)]
Transp(m) == [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
MatMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |->
                   Sum([k \in 1..Len(b) |-> a[i][k] * b[k][j]])]]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
ScaleM(m, k) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> k * m[i][j]]]
DivV(v, d) == [i \in 1..Len(v) |-> RDiv(v[i], d)]
DivM(m, d) == [i \in 1..Len(m) |-> DivV(m[i], d)]
Norm2(v) == Dot(v, v)

SeqOfSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SortSeqInt(s) == SortSeq(s, LAMBDA a, b : a < b)
====

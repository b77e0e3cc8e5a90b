---- MODULE Rotation ----
(* The coordinate-system state machine of a dolfyn dataset.
   State: the frame label, the vectors as currently expressed, the stored
   earth->instrument matrices, the declination, the principal heading and the
   ADV head matrix.  Actions: rotate, set declination, set principal heading,
   set the head rotation.  Vectors are stepped along the chain
   beam -> inst -> earth -> principal exactly as the library does; the
   invariants say that what is stepped is always the frame-free truth seen from
   the labelled frame.
   Units: velocities are 1/10000 m/s, matrices integer over a denominator,
   angles exact rational points of the unit circle. *)
EXTENDS Num, Json

\* ---- angles: clockwise compass style, <<cos, sin, denominator>> and the value
\*      handed to the library, in 1e-4 degrees
Ang == << [c |-> 1,  s |-> 0,  d |-> 1, deg |-> 0],
          [c |-> 0,  s |-> 1,  d |-> 1, deg |-> 900000],
          [c |-> 3,  s |-> 4,  d |-> 5, deg |-> 531301],
          [c |-> 3,  s |-> -4, d |-> 5, deg |-> -531301],
          [c |-> -4, s |-> 3,  d |-> 5, deg |-> 1431301],
          [c |-> -1, s |-> 0,  d |-> 1, deg |-> 1800000],
          [c |-> 0,  s |-> -1, d |-> 1, deg |-> 2700000],
          [c |-> 12, s |-> 5,  d |-> 13, deg |-> 226199] >>
AMul(a, b) == LET c == a.c * b.c - a.s * b.s
                  s == a.s * b.c + a.c * b.s
                  d == a.d * b.d
                  g == Gcd(Gcd(c, s), d) IN
              [c |-> c \div g, s |-> s \div g, d |-> d \div g]
AConj(a) == [c |-> a.c, s |-> -a.s, d |-> a.d]
A0 == [c |-> 1, s |-> 0, d |-> 1]
APlain(a) == [c |-> a.c, s |-> a.s, d |-> a.d]

\* ---- elementary rotations over a denominator, [m, d]
Rx(a) == [m |-> <<<<a.d, 0, 0>>, <<0, a.c, -a.s>>, <<0, a.s, a.c>>>>, d |-> a.d]
Ry(a) == [m |-> <<<<a.c, 0, a.s>>, <<0, a.d, 0>>, <<-a.s, 0, a.c>>>>, d |-> a.d]
Rz(a) == [m |-> <<<<a.c, -a.s, 0>>, <<a.s, a.c, 0>>, <<0, 0, a.d>>>>, d |-> a.d]
QMul(x, y) == [m |-> MatMul(x.m, y.m), d |-> x.d * y.d]
QT(x) == [m |-> Transp(x.m), d |-> x.d]
QVec(x, v) == DivV(MatVec(x.m, v), x.d)
QId == [m |-> Ident(3), d |-> 1]

\* ---- instruments
B3 == <<<<1, 1, 0>>, <<1, 2, 1>>, <<0, 1, 2>>>>
B3i == <<<<3, -2, 1>>, <<-2, 2, -1>>, <<1, -1, 1>>>>
B4 == <<<<1, 1, 0, 0>>, <<1, 2, 1, 0>>, <<0, 1, 2, 1>>, <<1, 1, 1, 2>>>>
B4i == <<<<5, -3, 2, -1>>, <<-4, 3, -2, 1>>, <<3, -2, 2, -1>>, <<-2, 1, -1, 1>>>>
ASSUME MatMul(B3, B3i) = Ident(3)
ASSUME MatMul(B4, B4i) = Ident(4)

O1 == [m |-> <<<<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>>>>, d |-> 1]
O2 == QMul(Rx(Ang[3]), Rz(Ang[5]))
O3 == QMul(Ry(Ang[3]), Rz(Ang[4]))
Omats == <<O1, O2, O3>>           \* earth -> inst, one per time step
ASSUME \A i \in 1..3 : MatMul(Omats[i].m, Transp(Omats[i].m))
                       = ScaleM(Ident(3), Omats[i].d * Omats[i].d)

Inst(mk, md, n, ori, nz, imu, st) ==
  [make |-> mk, model |-> md, n |-> n, ori |-> ori, nz |-> nz, imu |-> imu, start |-> st]
Cfgs == << Inst("Nortek", "Vector", 3, "", 1, TRUE, "beam"),
           Inst("Nortek", "Vector", 3, "", 1, TRUE, "inst"),
           Inst("Nortek", "Vector", 3, "", 1, TRUE, "earth"),
           Inst("Nortek", "AWAC", 3, "", 2, FALSE, "beam"),
           Inst("Nortek", "AWAC", 3, "", 2, FALSE, "earth"),
           Inst("Nortek", "Signature1000", 4, "up", 2, TRUE, "beam"),
           Inst("Nortek", "Signature1000", 4, "down", 2, TRUE, "inst"),
           Inst("Nortek", "Signature500", 4, "AHRS", 2, TRUE, "earth"),
           Inst("Nortek", "ad2cp", 4, "down", 2, FALSE, "earth"),
           Inst("TRDI", "Workhorse", 4, "up", 2, FALSE, "beam"),
           Inst("TRDI", "Workhorse", 4, "down", 2, FALSE, "earth"),
           Inst("TRDI", "Ocean Surveyor", 4, "down", 2, FALSE, "ship") >>

B(c) == IF c.n = 3 THEN B3 ELSE B4
Bi(c) == IF c.n = 3 THEN B3i ELSE B4i
NT == 4       \* time steps; step 4 is a missing (all-NaN) sample
OmatT(t) == Omats[IF t = 4 THEN 2 ELSE t]
V(k, t, z) == 10000 * (CASE k = 1 -> t * 2 - z * 3
                         [] k = 2 -> 5 - 2 * t * z
                         [] k = 3 -> t - 2 * z
                         [] k = 4 -> 3 * z - t)
\* the frame-free truth: head-frame vectors
Truth(c) == [t \in 1..NT |-> [z \in 1..c.nz |-> [k \in 1..c.n |-> V(k, t, z)]]]
TruthBT(c) == [t \in 1..NT |-> [z \in 1..1 |-> [k \in 1..c.n |-> V(k, t, 3)]]]
TruthImu(c) == [t \in 1..NT |-> [z \in 1..1 |-> [k \in 1..3 |-> V(k, t, 2)]]]

\* ---- one step of the chain on one vector (of time step t) ----
Sign4(c, v) == IF c.ori = "down"
               THEN [k \in 1..Len(v) |-> IF k = 1 THEN v[k] ELSE -v[k]] ELSE v
IsSig(c) == c.model \in {"Signature1000", "Signature500", "ad2cp"}
Trdi(c) == c.make = "TRDI"

OmatNow(s, t) == QMul(OmatT(t), QT(Rz(AConj(s.dec))))   \* true earth -> inst

Inst2EarthR(c, R, v) ==
  IF IsSig(c) THEN
    LET w == Sign4(c, v) IN
    IF Len(v) = 3 THEN QVec(R, w)
    ELSE LET m == R.m
             h == <<w[1], w[2], w[3], w[4]>> IN
         << RDiv(2 * (m[1][1] * h[1] + m[1][2] * h[2]) + m[1][3] * (h[3] + h[4]), 2 * R.d),
            RDiv(2 * (m[2][1] * h[1] + m[2][2] * h[2]) + m[2][3] * (h[3] + h[4]), 2 * R.d),
            RDiv(m[3][1] * h[1] + m[3][2] * h[2] + m[3][3] * h[3], R.d),
            RDiv(m[3][1] * h[1] + m[3][2] * h[2] + m[3][3] * h[4], R.d) >>
  ELSE LET e == QVec(R, SubSeq(v, 1, 3)) IN
       IF Len(v) = 4 THEN Append(e, v[4]) ELSE e

Inst2Earth(c, s, t, v) == Inst2EarthR(c, QT(OmatNow(s, t)), v)

Earth2Prin(s, v) ==      \* +u along the principal heading, +v to its left
  [k \in 1..Len(v) |->
     CASE k = 1 -> RDiv(s.ph.s * v[1] + s.ph.c * v[2], s.ph.d)
       [] k = 2 -> RDiv(-s.ph.c * v[1] + s.ph.s * v[2], s.ph.d)
       [] OTHER -> v[k]]
Prin2Earth(s, v) ==
  [k \in 1..Len(v) |->
     CASE k = 1 -> RDiv(s.ph.s * v[1] - s.ph.c * v[2], s.ph.d)
       [] k = 2 -> RDiv(s.ph.c * v[1] + s.ph.s * v[2], s.ph.d)
       [] OTHER -> v[k]]
\* Earth -> inst: the unique vector that Inst2Earth maps to v (orthonormal case)
Earth2Inst3(c, s, t, v) ==
  LET w == QVec(OmatNow(s, t), SubSeq(v, 1, 3)) IN
  IF IsSig(c) THEN Sign4(c, w) ELSE IF Len(v) = 4 THEN Append(w, v[4]) ELSE w
\* the 4-beam variant solves for the two vertical estimates
Earth2Inst4Sig(c, s, t, v) ==
  LET O == OmatNow(s, t)
      a == QVec(O, <<v[1], v[2], RDiv(v[3] + v[4], 2)>>)      \* mean vertical
      R33 == O.m[3][3]
      dw == RDiv((v[3] - v[4]) * O.d, 2 * R33)
  IN Sign4(c, <<a[1], a[2], a[3] + dw, a[3] - dw>>)
Earth2Inst(c, s, t, v) == IF IsSig(c) /\ Len(v) = 4 THEN Earth2Inst4Sig(c, s, t, v)
                          ELSE Earth2Inst3(c, s, t, v)

\* water velocity passes through the head rotation, IMU vectors do not, and stay
\* in the instrument frame while the velocity is in beam coordinates
HeadVec(s, v, isvel) == IF isvel /\ s.headset THEN QVec(s.head, v) ELSE v
UnHeadVec(s, v, isvel) == IF isvel /\ s.headset THEN QVec(QT(s.head), v) ELSE v
Beam2Inst(c, s, v, isvel) == HeadVec(s, MatVec(B(c), v), isvel)
Inst2Beam(c, s, v, isvel) == MatVec(Bi(c), UnHeadVec(s, v, isvel))

\* ---- direct views from the truth ----
ViewVec(c, s, t, v, f, isvel, inBeam) ==
  LET i0 == HeadVec(s, v, isvel) IN
  IF t = 4 THEN [k \in 1..Len(v) |-> NAN] ELSE
  CASE f = "beam" -> IF inBeam THEN MatVec(Bi(c), v) ELSE i0
    [] f \in {"inst", "ship"} -> i0
    [] f = "earth" -> Inst2Earth(c, s, t, i0)
    [] f = "principal" -> Earth2Prin(s, Inst2Earth(c, s, t, i0))
View(c, s, truth, f, isvel) ==
  [t \in 1..NT |-> [z \in 1..Len(truth[t]) |->
      ViewVec(c, s, t, truth[t][z], f, isvel, Len(truth[t][z]) = c.n)]]

Map(x, F(_, _)) == [t \in 1..NT |-> [z \in 1..Len(x[t]) |->
                     IF x[t][z][1] = NAN THEN x[t][z] ELSE F(t, x[t][z])]]

\* ---- the state machine ----
Frames == <<"beam", "inst", "earth", "principal">>
Idx(f) == IF f = "ship" THEN 2 ELSE CHOOSE i \in 1..4 : Frames[i] = f

InitS(ci) == LET c == Cfgs[ci]
                 s0 == [ci |-> ci, frame |-> c.start, dec |-> A0, decset |-> FALSE,
                        ph |-> A0, phset |-> FALSE, phdec |-> A0,
                        head |-> QId, headset |-> FALSE, vel |-> <<>>] IN
             [s0 EXCEPT !.vel = View(c, s0, Truth(c), c.start, TRUE)]

Up(s) == LET c == Cfgs[s.ci] IN
  CASE Idx(s.frame) = 1 ->
         [s EXCEPT !.frame = "inst", !.vel = Map(s.vel, LAMBDA t, v : Beam2Inst(c, s, v, TRUE))]
    [] Idx(s.frame) = 2 ->
         [s EXCEPT !.frame = "earth", !.vel = Map(s.vel, LAMBDA t, v : Inst2Earth(c, s, t, v))]
    [] Idx(s.frame) = 3 ->
         [s EXCEPT !.frame = "principal", !.vel = Map(s.vel, LAMBDA t, v : Earth2Prin(s, v))]
Down(s) == LET c == Cfgs[s.ci] IN
  CASE Idx(s.frame) = 2 ->
         [s EXCEPT !.frame = "beam", !.vel = Map(s.vel, LAMBDA t, v : Inst2Beam(c, s, v, TRUE))]
    [] Idx(s.frame) = 3 ->
         [s EXCEPT !.frame = "inst", !.vel = Map(s.vel, LAMBDA t, v : Earth2Inst(c, s, t, v))]
    [] Idx(s.frame) = 4 ->
         [s EXCEPT !.frame = "earth", !.vel = Map(s.vel, LAMBDA t, v : Prin2Earth(s, v))]
RECURSIVE Chain(_, _)
Chain(s, f) == IF s.frame = f THEN s
               ELSE IF Idx(s.frame) < Idx(f) THEN Chain(Up(s), f) ELSE Chain(Down(s), f)

\* ops: <<name, argument>>; argument is a frame name or an index into Ang
RotOk(s, f) == /\ f \in {"beam", "inst", "earth", "principal"}
               /\ s.frame = "ship" => f \in {"earth", "principal"}
               /\ f = "principal" => s.phset
DoRot(s, f) == Chain(s, f)
HeadMats == << [m |-> <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, -1>>>>, d |-> 1],
               QMul(Rz(Ang[3]), Rx(Ang[5])) >>
HeadOk(s) == Cfgs[s.ci].model = "Vector" /\ ~s.headset
\* through the instrument frame, the new matrix applied there, and back
DoHead(s, k) == LET f == s.frame
                    i == IF f \in {"beam", "inst"} THEN s ELSE Chain(s, "inst")
                    h == [i EXCEPT !.head = HeadMats[k], !.headset = TRUE] IN
                IF f = "beam" THEN h
                ELSE Chain([h EXCEPT !.vel = Map(i.vel, LAMBDA t, v : QVec(HeadMats[k], v))], f)
\* earth data goes through the instrument frame; the principal heading follows
DoDec(s, k) == LET i == IF s.frame = "earth" THEN Chain(s, "inst") ELSE s
                   dif == AMul(Ang[k], AConj(s.dec))
                   n == [i EXCEPT !.dec = APlain(Ang[k]), !.decset = TRUE,
                                  !.ph = IF s.phset THEN AMul(s.ph, dif) ELSE s.ph] IN
               IF s.frame = "earth" THEN Chain(n, "earth") ELSE n
PhOk(s) == s.frame # "principal"
DoPh(s, k) == [s EXCEPT !.ph = APlain(Ang[k]), !.phset = TRUE, !.phdec = s.dec]

OpOk(s, op) == CASE op[1] = "rot" -> RotOk(s, op[2])
                 [] op[1] = "head" -> HeadOk(s)
                 [] op[1] = "dec" -> TRUE
                 [] op[1] = "ph" -> PhOk(s)
Apply(s, op) == CASE op[1] = "rot" -> DoRot(s, op[2])
                  [] op[1] = "head" -> DoHead(s, op[2])
                  [] op[1] = "dec" -> DoDec(s, op[2])
                  [] op[1] = "ph" -> DoPh(s, op[2])

\* ---- conformance: replayed behaviours of the model ----
Labels(c, f) ==
  CASE f = "beam" -> IF c.n = 3 THEN <<"1", "2", "3">> ELSE <<"1", "2", "3", "4">>
    [] f \in {"inst", "ship"} ->
         IF Trdi(c) THEN <<"X", "Y", "Z", "err">>
         ELSE IF c.n = 4 THEN <<"X", "Y", "Z1", "Z2">> ELSE <<"X", "Y", "Z">>
    [] f = "earth" ->
         IF Trdi(c) THEN <<"E", "N", "U", "err">>
         ELSE IF c.n = 4 THEN <<"E", "N", "U1", "U2">> ELSE <<"E", "N", "U">>
    [] f = "principal" ->
         IF Trdi(c) THEN <<"streamwise", "x-stream", "vert", "err">>
         ELSE IF c.n = 4 THEN <<"streamwise", "x-stream", "vert1", "vert2">>
         ELSE <<"streamwise", "x-stream", "vert">>
ImuLabels(f) ==
  CASE f \in {"inst", "beam", "ship"} -> <<"X", "Y", "Z">>
    [] f = "earth" -> <<"E", "N", "U">>
    [] f = "principal" -> <<"streamwise", "x-stream", "vert">>

RECURSIVE RunOps(_, _, _)
RunOps(s, ops, n) == IF n = 0 THEN s ELSE Apply(RunOps(s, ops, n - 1), ops[n])

CloseView(o, w, tol) == /\ Len(o) = Len(w)
                        /\ \A t \in 1..Len(w) : CloseMat(o[t], w[t], tol)
Tol == 6
AClose(o, a) == /\ Close(o[1], RDiv(a.c * 10000, a.d), Tol)
                /\ Close(o[2], RDiv(a.s * 10000, a.d), Tol)

\* does the observed dataset o agree with abstract state s?
Disagree(c, s, o) ==
  (IF o.frame # s.frame THEN {"frame-attribute"} ELSE {})
  \* the instrument's own names for its axes do not outlive the frame they name
  \cup (IF o.axes /\ o.frame # c.start THEN {"stale-axis-names"} ELSE {})
  \cup (IF o.dir # Labels(c, o.frame) THEN {"dir-labels"} ELSE {})
  \cup (IF o.dirattr # o.frame THEN {"dir-ref-frame"} ELSE {})
  \cup (IF c.imu /\ o.dirimu # ImuLabels(o.frame) THEN {"imu-labels"} ELSE {})
  \cup (IF ~CloseView(o.vel, View(c, s, Truth(c), o.frame, TRUE), Tol)
        THEN {"velocity"} ELSE {})
  \cup (IF c.nz > 1 /\ ~CloseView(o.bt, View(c, s, TruthBT(c), o.frame, TRUE), Tol)
        THEN {"bottom-track-velocity"} ELSE {})
  \cup (IF c.imu /\ (c.n = 4 \/ o.frame # "beam")
            /\ ~CloseView(o.imu, View(c, s, TruthImu(c), o.frame, FALSE), Tol)
        THEN {"imu-vectors"} ELSE {})
  \cup (IF \E t \in 1..NT : ~CloseMat(o.omat[t],
               LET O == OmatNow(s, t) IN DivM(ScaleM(O.m, 10000), O.d), Tol)
        THEN {"orientation-matrix"} ELSE {})
  \cup (IF ~AClose(o.heading, s.dec) THEN {"heading"} ELSE {})
  \cup (IF o.hasph # s.phset THEN {"principal-heading-presence"} ELSE
        IF s.phset /\ ~AClose(o.ph, s.ph) THEN {"principal-heading"} ELSE {})
  \cup (IF o.hasdec # s.decset THEN {"declination-presence"} ELSE {})
  \cup (IF o.head # s.headset THEN {"head-matrix-presence"} ELSE {})
  \cup (IF o.other # <<>> THEN {"other-variables-changed"} ELSE {})

LastDec(ops) == LET I == {i \in 1..Len(ops) : ops[i][1] = "dec"} IN
                IF I = {} THEN 0 ELSE Ang[ops[Max(I)][2]].deg

\* e: [ci, ops, raised, mut, ret, obs]; all ops but the last succeeded
RotFailures(e) ==
  LET c == Cfgs[e.ci]
      n == Len(e.ops)
      pre == RunOps(InitS(e.ci), e.ops, n - 1)
      op == e.ops[n]
      ok == OpOk(pre, op) IN
  (IF e.mut THEN {"input-mutated"} ELSE {})
  \cup (IF ok THEN
          (IF e.raised THEN {"unexpected-error"} ELSE
           Disagree(c, Apply(pre, op), e.obs)
           \cup (IF e.ret THEN {} ELSE {"return-value"})
           \cup (IF Close(e.obs.decl, LastDec(e.ops), 1) THEN {} ELSE {"declination-attribute"}))
        ELSE IF ~e.raised THEN {"invalid-request-accepted"}
             \* a refused request may have advanced along the chain, but data and
             \* label still have to agree
             ELSE Disagree(c, IF op[1] = "rot" THEN [pre EXCEPT !.frame = e.obs.frame]
                              ELSE pre, e.obs))
====

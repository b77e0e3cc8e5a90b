---- MODULE Attitude ----
(* Attitudes: heading/pitch/roll, quaternions and orientation matrices, stated
   from the documented geometry (where the instrument axes point), not from the
   library's matrix products.  Angles are rational points of the unit circle,
   quaternions integer 4-tuples; matrices are integer over a denominator and
   have the instrument axes (in earth coordinates) as rows. *)
EXTENDS Rotation

LAng == << [c |-> 1, s |-> 0, d |-> 1], [c |-> 0, s |-> 1, d |-> 1],
           [c |-> -1, s |-> 0, d |-> 1], [c |-> 0, s |-> -1, d |-> 1],
           [c |-> 3, s |-> 4, d |-> 5], [c |-> -4, s |-> 3, d |-> 5],
           [c |-> 4, s |-> -3, d |-> 5], [c |-> -3, s |-> -4, d |-> 5],
           [c |-> 12, s |-> 5, d |-> 13], [c |-> 5, s |-> -12, d |-> 13] >>
NA == Len(LAng)

Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3],
                  a[1] * b[2] - a[2] * b[1] >>
AddV(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
MulV(a, k) == [i \in 1..Len(a) |-> k * a[i]]

\* dolfyn / Nortek convention: the x axis points along the heading (clockwise from
\* north) and up by the pitch; y is to its left; roll turns y,z about x, right handed
XAxis(h, p) == << h.s * p.c, h.c * p.c, p.s * h.d >>            \* over h.d*p.d
YLevel(h) == << -h.c, h.s, 0 >>                                 \* over h.d
ZLevel(h, p) == Cross(<<h.s * p.c, h.c * p.c, p.s * h.d>>, <<-h.c, h.s, 0>>)  \* h.d^2 p.d
OmatHPR(h, p, r) ==
  LET D == h.d * h.d * p.d * r.d
      x == MulV(XAxis(h, p), h.d * r.d)
      y0 == MulV(YLevel(h), h.d * p.d)            \* over h.d^2 p.d
      z0 == ZLevel(h, p)
      y == AddV(MulV(y0, r.c), MulV(z0, r.s))
      z == AddV(MulV(y0, -r.s), MulV(z0, r.c)) IN
  [m |-> <<x, y, z>>, d |-> D]

\* TRDI convention: the y axis (beam 3) points along the heading and up by the
\* (gimballed) pitch; x is to its right; roll turns z,x about y, right handed.
\* Upward-looking instruments have half a turn added to the roll.
OmatRDI(h, P, r) ==
  LET D == h.d * h.d * P.d * r.d
      y == MulV(<<h.s * P.c, h.c * P.c, P.s * h.d>>, h.d * r.d)
      x0 == MulV(<<h.c, -h.s, 0>>, h.d * P.d)
      z0 == Cross(<<h.c, -h.s, 0>>, <<h.s * P.c, h.c * P.c, P.s * h.d>>)
      x == AddV(MulV(x0, r.c), MulV(z0, -r.s))
      z == AddV(MulV(x0, r.s), MulV(z0, r.c)) IN
  [m |-> <<x, y, z>>, d |-> D]
Half(r) == [c |-> -r.c, s |-> -r.s, d |-> r.d]

Proper(o) == /\ MatMul(o.m, Transp(o.m)) = ScaleM(Ident(3), o.d * o.d)
             /\ Cross(o.m[1], o.m[2]) = MulV(o.m[3], o.d)

\* quaternion <<w, x, y, z>>: inst -> earth rotation; orientation = transpose
QNorm(k) == k[1] * k[1] + k[2] * k[2] + k[3] * k[3] + k[4] * k[4]
QuatRot(k) == LET w == k[1]
                  x == k[2]
                  y == k[3]
                  z == k[4] IN
  << << w*w + x*x - y*y - z*z, 2 * (x*y - w*z), 2 * (x*z + w*y) >>,
     << 2 * (x*y + w*z), w*w - x*x + y*y - z*z, 2 * (y*z - w*x) >>,
     << 2 * (x*z - w*y), 2 * (y*z + w*x), w*w - x*x - y*y + z*z >> >>
OmatQuat(k) == [m |-> Transp(QuatRot(k)), d |-> QNorm(k)]

ScaledM(o, sc) == [i \in 1..3 |-> [j \in 1..3 |-> RScaled(Rat(o.m[i][j], o.d), sc)]]
SC == 10000
CS(o, a) == Close(o[1], RScaled(Rat(a.c, a.d), SC), 3) /\ Close(o[2], RScaled(Rat(a.s, a.d), SC), 3)

\* ---- conformance -------------------------------------------------------
A0d == [c |-> 1, s |-> 0, d |-> 1]
At(e, t) == [h |-> LAng[e.h[t]], p |-> LAng[e.p[t]], r |-> LAng[e.r[t]]]
Bad(e, Ok(_), name) == IF \A t \in 1..Len(e.h) : Ok(t) THEN {} ELSE {name}

\* euler2orient over a batch of time steps; o: matrices; back: h,p,r cos/sin of
\* orient2euler(o), hd: returned headings in 1e-4 degrees; again: euler2orient of them
FailEuler(e) ==
  LET want(t) == OmatHPR(At(e, t).h, At(e, t).p, At(e, t).r) IN
  Bad(e, LAMBDA t : CloseMat(e.o[t], ScaledM(want(t), SC), 3), "euler-to-matrix")
  \cup Bad(e, LAMBDA t : At(e, t).p.c = 0 \/ CloseMat(e.again[t], ScaledM(want(t), SC), 5), "matrix-euler-matrix")
  \cup Bad(e, LAMBDA t : e.hd[t] >= 0 /\ e.hd[t] <= 3600000, "heading-range")
  \cup Bad(e, LAMBDA t : LET a == At(e, t) IN
            a.p.c <= 0 \/ (CS(e.back[1][t], a.h) /\ CS(e.back[2][t], a.p) /\ CS(e.back[3][t], a.r)),
           "matrix-to-euler")
FailQuat(e) ==
  IF \A t \in 1..Len(e.q) : CloseMat(e.o[t], ScaledM(OmatQuat(e.q[t]), SC), 3)
  THEN (IF e.dims = <<3, 3, Len(e.q)>> THEN {} ELSE {"quaternion-shape"})
  ELSE {"quaternion-matrix"}
\* tilt: triples tan(pitch)/m, tan(roll)/m, hypotenuse/m
FailTilt(e) == IF \A i \in 1..Len(e.tp) : Close(e.tt[i], e.want[i], 3)
                  /\ e.tp[i] * e.tp[i] + e.tr[i] * e.tr[i] = e.hy[i] * e.hy[i]
                  /\ e.want[i] = RDiv(e.hy[i] * SC, e.m)
               THEN {} ELSE {"tilt"}
\* rotation of a dataset that stores no orientation matrix.  With held[t] the
\* attitude of a trailing missing sample is that of the last good one.
OmatConv(e, t) ==
  LET a == At(e, t)
      c == e.cfg IN
  IF c.make = "TRDI" THEN
     IF e.ship THEN OmatRDI(a.h, A0d, A0d)
     ELSE OmatRDI(a.h, a.p, IF c.ori = "up" THEN Half(a.r) ELSE a.r)
  ELSE IF c.model = "Vector" /\ e.down[t] = 1 THEN OmatHPR(a.h, a.p, Half(a.r))
  ELSE OmatHPR(a.h, a.p, a.r)
FailConv(e) ==
  LET want(t, z) == Inst2EarthR(e.cfg, QT(OmatConv(e, t)), e.vel[t][z]) IN
  Bad(e, LAMBDA t : \A z \in 1..Len(e.vel[t]) : CloseSeq(e.out[t][z], want(t, z), 3),
      "rotation-from-own-attitude")
  \cup Bad(e, LAMBDA t : CloseMat(e.back[t], e.vel[t], 4), "inverse-from-own-attitude")
\* the orientation matrix a reader gives each sample
FailReadAtt(e) ==
  IF e.n # Len(e.h) THEN {"matrix-per-sample"}
  ELSE Bad(e, LAMBDA t : CloseMat(e.o[t], ScaledM(OmatConv(e, t), SC), e.tol), "matrix-of-recorded-attitude")
Failures(e) == CASE e.k = "read" -> FailReadAtt(e)
                 [] e.k = "euler" -> FailEuler(e)
                 [] e.k = "quat" -> FailQuat(e)
                 [] e.k = "tilt" -> FailTilt(e)
                 [] e.k = "conv" -> FailConv(e)
====

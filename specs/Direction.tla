---- MODULE Direction ----
(* Principal heading and flow direction.  The principal heading of a set of
   horizontal velocities is half the argument of the sum of the doubled-angle
   vectors  z^2/|z|; in directed mode the argument of the sum of z.  Compass
   convention: clockwise from north.  Samples come from integer vectors of
   length 0, 5 or 10 so that 10 z^2/|z| is an integer vector. *)
EXTENDS Num, Json
Miss(z) == z[1] = NAN \/ z[2] = NAN
Len2(z) == z[1] * z[1] + z[2] * z[2]
Doubled(z) == LET f == CASE Len2(z) = 25 -> 2 [] Len2(z) = 100 -> 1 [] OTHER -> 0 IN
              << f * (z[1] * z[1] - z[2] * z[2]), f * 2 * z[1] * z[2] >>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
RECURSIVE Acc(_, _, _)
Acc(vs, n, tidal) == IF n = 0 THEN <<0, 0>>
   ELSE IF Miss(vs[n]) THEN Acc(vs, n - 1, tidal)
   ELSE Add(Acc(vs, n - 1, tidal), IF tidal THEN Doubled(vs[n]) ELSE vs[n])
Turn(z, a) == << (a[1] * z[1] + a[2] * z[2]), (a[1] * z[2] - a[2] * z[1]) >>  \* clockwise by a
\* cross product / dot product of two directions
X(a, b) == a[1] * b[2] - a[2] * b[1]
D(a, b) == a[1] * b[1] + a[2] * b[2]
\* compass <<cos, sin>> (north, east) of a mathematical direction <<x, y>>
Compass(z) == <<z[2], z[1]>>
\* the doubled compass angle: heading ph = 90 - th, so 2 ph = 180 - 2 th
DoubledCompass(w) == << -w[1], w[2] >>

\* SC-scaled observed cos/sin cs point along w (integer), and the value is in range
Along(cs, w, tol) == /\ Abs(X(cs, w)) <= tol * (Abs(w[1]) + Abs(w[2]))
                     /\ D(cs, w) > 0
AllMiss(vs) == \A i \in 1..Len(vs) : Miss(vs[i])

\* e: rows of samples, per row cs = cos/sin of heading (or of twice the heading in
\* tidal mode) scaled by 10000 and the heading hd in 1e-4 degrees
RowOk(vs, cs, hd, tidal) ==
  LET w == Acc(vs, Len(vs), tidal) IN
  IF AllMiss(vs) THEN hd = NAN                         \* nothing known, nothing said
  ELSE IF w = <<0, 0>> THEN TRUE                       \* no preferred direction
  ELSE /\ ~IsSent(hd)
       /\ Along(cs, IF tidal THEN DoubledCompass(w) ELSE Compass(w), 3)
       /\ hd >= 0
       /\ hd <= (IF tidal THEN 1800000 ELSE 3600000)
FailPh(e) == (IF \A i \in 1..Len(e.rows) : RowOk(e.rows[i], e.cs[i], e.hd[i], e.tidal)
              THEN {} ELSE {IF e.tidal THEN "principal-heading" ELSE "directed-heading"})
             \cup (IF e.mut THEN {"input-mutated"} ELSE {})

\* flow direction of each sample
DirOk(z, cs, hd, earth) ==
  IF Miss(z) THEN hd = NAN
  ELSE IF z = <<0, 0>> THEN TRUE
  ELSE /\ ~IsSent(hd) /\ hd >= 0 /\ hd <= 3600000
       /\ Along(cs, IF earth THEN Compass(z) ELSE <<z[1], -z[2]>>, 3)
MagOk(z, m) == IF Miss(z) THEN m = NAN
               ELSE Close(m, 1000 * (CASE Len2(z) = 25 -> 5 [] Len2(z) = 100 -> 10 [] OTHER -> 0), 1)
FailDir(e) ==
  (IF \A i \in 1..Len(e.v) : DirOk(e.v[i], e.cs[i], e.hd[i], e.frame = "earth") THEN {} ELSE {"flow-direction"})
  \cup (IF \A i \in 1..Len(e.v) : MagOk(e.v[i], e.mag[i]) THEN {} ELSE {"speed"})
  \cup (IF e.rel = (IF e.frame = "earth" THEN "N" ELSE e.first) THEN {} ELSE {"reference-axis"})
  \cup (IF e.mut THEN {"input-mutated"} ELSE {})
\* conversion between counter-clockwise-from-east and clockwise-from-north
Mod(a, b) == a % b
FailConv(e) ==
  IF \A i \in 1..Len(e.x) :
       /\ Mod(e.y[i] - (90 - e.x[i]) * 1000 + 3600000, 360000) = 0
       /\ IF e.tidal THEN e.y[i] >= -180000 /\ e.y[i] <= 180000 ELSE e.y[i] >= 0 /\ e.y[i] < 360000
       /\ Mod(e.b[i] - e.x[i] * 1000 + 3600000, 360000) = 0
  THEN {} ELSE {"angle-convention"}
Failures(e) == CASE e.k = "ph" -> FailPh(e)
                 [] e.k = "dir" -> FailDir(e)
                 [] e.k = "conv" -> FailConv(e)
====

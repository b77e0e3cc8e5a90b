---- MODULE Shortcuts ----
(* The velocity accessor: named views of the stored variables.  A dataset state
   is vel (component -> cells, flattened over range and time), tke_vec,
   stress_vec, U_std; a view is a pure function of the state, so reading is a
   step that leaves the state as it is. *)
EXTENDS Num
Miss(s) == \E i \in 1..Len(s) : s[i] = NAN
ISqrt(n) == CHOOSE r \in 0..200 : r * r = n
View(p, s, i) ==          \* view p of cell i as a rational (NAN as <<NAN,1>>, infinity <<INF,1>>)
  LET vec(a) == [k \in 1..Len(a) |-> a[k][i]]
      nan == <<NAN, 1>>
      uv == <<s.vel[1][i], s.vel[2][i]>>
      mag == ISqrt(uv[1] * uv[1] + uv[2] * uv[2])
      over(n, d) == IF d = 0 THEN (IF n = 0 THEN nan ELSE <<INF, 1>>) ELSE Rat(n, d)
      one(x) == IF x = NAN THEN nan ELSE <<x, 1>> IN
  CASE p = "u" -> one(s.vel[1][i]) [] p = "v" -> one(s.vel[2][i]) [] p = "w" -> one(s.vel[3][i])
    [] p = "U.re" -> IF Miss(uv) THEN nan ELSE <<uv[1], 1>>
    [] p = "U.im" -> IF Miss(uv) THEN nan ELSE <<uv[2], 1>>
    [] p = "U_mag" -> IF Miss(uv) THEN nan ELSE <<mag, 1>>
    [] p = "upup_" -> one(s.tke[1][i]) [] p = "vpvp_" -> one(s.tke[2][i]) [] p = "wpwp_" -> one(s.tke[3][i])
    [] p = "upvp_" -> one(s.stress[1][i]) [] p = "upwp_" -> one(s.stress[2][i])
    [] p = "vpwp_" -> one(s.stress[3][i])
    [] p = "tke" -> IF Miss(vec(s.tke)) THEN nan ELSE Rat(Sum(vec(s.tke)), 2)
    [] p = "E_coh" -> IF Miss(vec(s.stress)) THEN nan ELSE <<ISqrt(Norm2(vec(s.stress))), 1>>
    [] p = "I" -> IF Miss(uv) \/ s.std[i] = NAN THEN nan ELSE over(s.std[i], mag)
    [] p = "I_tke" -> IF Miss(uv) \/ Miss(vec(s.tke)) THEN nan ELSE over(ISqrt(Sum(vec(s.tke))), mag)
Needs(p) == CASE p \in {"upup_", "vpvp_", "wpwp_", "tke", "I_tke"} -> {"tke_vec"}
              [] p \in {"upvp_", "upwp_", "vpwp_", "E_coh"} -> {"stress_vec"}
              [] p = "I" -> {"U_std"} [] OTHER -> {}
Views == {"u", "v", "w", "U.re", "U.im", "U_mag", "upup_", "vpvp_", "wpwp_", "tke",
          "upvp_", "upwp_", "vpwp_", "E_coh", "I", "I_tke"}
Obs(o, r, sc) == IF IsSent(r[1]) THEN o = r[1]
                 ELSE Close(o, RScaled(r, sc), 1 + Abs(r[1]) \div (r[2] * 1000))
FailRead(e) ==
  IF ~(Needs(e.p) \subseteq ToSet(e.has))
  THEN (IF e.raised THEN {} ELSE {"invented-" \o e.p}) \cup (IF e.mut THEN {"reading-changed-dataset"} ELSE {})
  ELSE IF e.raised THEN {"refused-" \o e.p} ELSE
  (IF Len(e.y) = Len(e.s.vel[1]) /\ \A i \in 1..Len(e.y) : Obs(e.y[i], View(e.p, e.s, i), e.sc)
              \* one missing component makes U missing; its other part may stay
              \/ (e.p = "U.re" /\ e.s.vel[1][i] # NAN /\ Obs(e.y[i], <<e.s.vel[1][i], 1>>, e.sc))
              \/ (e.p = "U.im" /\ e.s.vel[2][i] # NAN /\ Obs(e.y[i], <<e.s.vel[2][i], 1>>, e.sc))
   THEN {} ELSE {"value-" \o e.p})
  \cup (IF e.dims = e.cells THEN {} ELSE {"dimensions"})
  \cup (IF e.coords THEN {} ELSE {"coordinates"})
  \cup (IF e.mut THEN {"reading-changed-dataset"} ELSE {})
\* the printed summary: duration with its unit, number of pings, frame
Unit(sec) == IF sec > 86400 THEN <<"days", 86400>> ELSE IF sec > 3600 THEN <<"hours", 3600>>
             ELSE IF sec > 60 THEN <<"minutes", 60>> ELSE <<"seconds", 1>>
FailRepr(e) ==
  IF e.raised THEN {"refused-summary"} ELSE
  (IF e.timeless \/ (e.unit = Unit(e.sec)[1] /\ Close(e.dur, RScaled(Rat(e.sec, Unit(e.sec)[2]), 100), 1))
   THEN {} ELSE {"summary-duration"})
  \cup (IF e.pings = e.n /\ e.fs = e.fsok THEN {} ELSE {"summary-size"})
  \cup (IF e.frame = e.frameok THEN {} ELSE {"summary-frame"})
  \cup (IF e.vars THEN {} ELSE {"variables"})
  \cup (IF e.mut THEN {"reading-changed-dataset"} ELSE {})
Failures(e) == CASE e.k = "read" -> FailRead(e) [] e.k = "repr" -> FailRepr(e)
====

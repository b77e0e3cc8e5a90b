---- MODULE MCAttitude ----
EXTENDS Attitude
\* all attitudes of the angle lattice and all small quaternions
VARIABLES a
AInit == a = [k |-> "none"]
Quats == {k \in (-2..2) \X (-2..2) \X (-1..2) \X (-1..2) : QNorm(k) # 0}
ANext == \/ a.k = "none" /\ \E h, p, r \in 1..NA : a' = [k |-> "hpr", h |-> h, p |-> p, r |-> r]
         \/ a.k = "none" /\ \E w \in Quats : a' = [k |-> "quat", q |-> w]
\* every convention yields a proper rotation
AllProper ==
  /\ a.k = "hpr" => LET h == LAng[a.h]
                        p == LAng[a.p]
                        r == LAng[a.r] IN
       /\ LET o == OmatHPR(h, p, r) IN
            o.d <= 20000 => Proper(o)        \* 32-bit arithmetic
       /\ LET o == OmatRDI(h, p, r) IN o.d <= 20000 => Proper(o)
  /\ a.k = "quat" => Proper(OmatQuat(a.q))
\* turning the instrument half way about its own x axis flips its y and z axes
HalfTurn == a.k = "hpr" =>
   LET h == LAng[a.h]
       p == LAng[a.p]
       r == LAng[a.r] IN
   LET u == OmatHPR(h, p, r)
       v == OmatHPR(h, p, Half(r)) IN
   v.m[1] = u.m[1] /\ v.m[2] = MulV(u.m[2], -1) /\ v.m[3] = MulV(u.m[3], -1)
\* level instruments: the heading is where x (Nortek) or y (TRDI) points
Level == a.k = "hpr" /\ a.p = 1 /\ a.r = 1 =>
   /\ OmatHPR(LAng[a.h], LAng[1], LAng[1]).m[3] = <<0, 0, OmatHPR(LAng[a.h], LAng[1], LAng[1]).d>>
   /\ OmatRDI(LAng[a.h], LAng[1], LAng[1]).m[3] = <<0, 0, OmatRDI(LAng[a.h], LAng[1], LAng[1]).d>>
Export == a.k # "none" => PrintT("CASE " \o ToJson(a))
ASSUME PrintT("CASE " \o ToJson([k |-> "table", ang |-> LAng, cfgs |-> Cfgs]))
====

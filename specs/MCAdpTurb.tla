---- MODULE MCAdpTurb ----
(* Configurations of the profiler analyses, with the geometry checked: beam
   variances made from known stresses must give those stresses back. *)
EXTENDS AdpTurb
CONSTANTS DT
VARIABLES kind, opt
Opts == [make : {"TRDI", "Nortek"}, arg : {"", "up", "down"}, attr : {"", "up", "down"}, bin : {"up", "down"},
         noise : {"none", "scalar", "vector"}, aarg : BOOLEAN]
Styles == {"first", "centered", "centered_extended"}
Init == \/ kind \in {"four", "five"} /\ opt \in Opts
        \/ kind = "shear" /\ opt \in [style : Styles, fn : {"u", "v", "w", "2"}, arg : {"", "up", "down"}, bin : {"up", "down"}]
        \/ kind = "sfp" /\ opt \in [b5 : BOOLEAN, frac : BOOLEAN, miss : BOOLEAN, size : {4, 8, 16, 3}]
        \/ kind \in {"lt", "dn"} /\ opt \in [noise : {"none", "scalar", "vector"}, rad : BOOLEAN]
        \/ kind \in {"slope", "ustar"} /\ opt \in [n : 1..6]
Next == UNCHANGED <<kind, opt>>
Export == PrintT("CASE " \o ToJson([k |-> kind, o |-> opt]))
\* the beam order is a permutation that swaps a pair when turned over
Base == [make |-> "TRDI", oarg |-> "up", oattr |-> "down", obin |-> "down", aarg |-> 0, aattr |-> 20]
Turn == (kind = "four") => LET e == [Base EXCEPT !.make = opt.make]
                               d == [e EXCEPT !.oarg = "down"] IN
   /\ ToSet(Order(e)) = 1..4 /\ ToSet(Order(d)) = 1..4
   /\ Cardinality({i \in 1..4 : Order(e)[i] # Order(d)[i]}) = 2
   /\ Orient(e) = "up" /\ Orient([e EXCEPT !.oarg = ""]) = "down"
   /\ Angle(e) = 20 /\ Angle([e EXCEPT !.aarg = 25]) = 25
\* a linear profile has a constant shear in every style
Lin(m, n) == <<[z \in 1..n |-> <<m * z + 3>>], [z \in 1..n |-> <<-2 * m * z>>], [z \in 1..n |-> <<5>>]>>
Linear == kind = "shear" => \A m \in -3..3 : \A n \in 3..6 : \A rs \in {4, 8} :
   LET e == [x |-> Lin(m, n), rs |-> rs, style |-> opt.style] IN
   \A k \in 1..Len(Cells(e, n)) : /\ Der(e, 1, k, 1) = RQ(m, rs)
                                  /\ Der(e, 2, k, 1) = RQ(-2 * m, rs) /\ Der(e, 3, k, 1) = <<0, 1>>
\* ---- beams looking at sum of stresses: b_i = direction_i . velocity.  Along x (first
\* pair) and y (second pair): variances follow from the stress tensor without tilt
SinCos(a) == FMul(SinT(a), CosT(a))
\* in stress order: beam 1 leans to -x, 2 to +x, 3 to -y, 4 to +y, 5 vertical;
\* positive beam velocity is away from the instrument looking down
ASSUME \A a \in {20, 25, 30} : FClose(FAdd(FMul(SinT(a), SinT(a)), FMul(CosT(a), CosT(a))), FInt(1), 2000)
\* test tensors: variances uu, vv, ww and stresses uw, vw
FiveFrom(a, uu, vv, ww, uw, vw, which) ==
  LET s2 == FMul(SinT(a), SinT(a))
      c2 == FMul(CosT(a), CosT(a))
      k == FMul(FInt(2), SinCos(a))
      b(h, sg, hw) == FAdd(FAdd(FMul(s2, FInt(h)), FMul(c2, FInt(ww))), FMul(FMul(FInt(sg), k), FInt(hw)))
      v == <<b(uu, 1, uw), b(uu, -1, uw), b(vv, 1, vw), b(vv, -1, vw), FInt(ww)>> IN
  LET den == FNeg(FMul(FInt(4), SC_(a, 6, 2)))
      c5 == FMul(FMul(FInt(2), SC_(a, 0, 2)), v[5]) IN
  CASE which = "uu" -> FDivF(FMul(FMul(FInt(-2), SC_(a, 4, 2)), FSub(FAdd(v[2], v[1]), c5)), den)
    [] which = "vv" -> FDivF(FMul(FMul(FInt(-2), SC_(a, 4, 2)), FSub(FAdd(v[4], v[3]), c5)), den)
    [] which = "ww" -> FDivF(FNeg(FMul(FMul(FInt(4), SC_(a, 6, 2)), v[5])), den)
    [] which = "uw" -> FDivF(FMul(SC_(a, 5, 1), FSub(v[2], v[1])), den)
    [] which = "vw" -> FDivF(FMul(SC_(a, 5, 1), FSub(v[4], v[3])), den)
    [] which = "uw4" -> FDivF(FSub(v[1], v[2]), FMul(FInt(4), SinCos(a)))
\* without tilt the formulas invert the geometry
ASSUME \A a \in {20, 25, 30} : \A t \in {<<40, 20, 10, 5, -3>>, <<9, 16, 4, 0, 2>>} :
  /\ FCloseAbs(FiveFrom(a, t[1], t[2], t[3], t[4], t[5], "uu"), FInt(t[1]), 20, FInt(1))
  /\ FCloseAbs(FiveFrom(a, t[1], t[2], t[3], t[4], t[5], "vv"), FInt(t[2]), 20, FInt(1))
  /\ FCloseAbs(FiveFrom(a, t[1], t[2], t[3], t[4], t[5], "ww"), FInt(t[3]), 100, FInt(1))
  /\ FCloseAbs(FiveFrom(a, t[1], t[2], t[3], t[4], t[5], "uw"), FInt(t[4]), 50, FInt(1))
  /\ FCloseAbs(FiveFrom(a, t[1], t[2], t[3], t[4], t[5], "vw"), FInt(t[5]), 50, FInt(1))
  /\ FCloseAbs(FiveFrom(a, t[1], t[2], t[3], t[4], t[5], "uw4"), FInt(t[4]), 50, FInt(1))
\* the line through points of a line
ASSUME \A p, q \in {-2, 1, 3} : LET x == <<FInt(1), FPow(FInt(2), 2, 3), FPow(FInt(3), 2, 3), FPow(FInt(4), 2, 3)>>
      f == Fit(x, [i \in 1..4 |-> FAdd(FMul(FInt(p), x[i]), FInt(q))]) IN
   FClose(f[1], FInt(p), 300) /\ FClose(f[2], FInt(q), 200)
====

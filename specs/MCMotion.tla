---- MODULE MCMotion ----
(* Histories of rotating, setting the declination and correcting, with the
   algebra of the correction checked on every record of a small family. *)
EXTENDS Motion
CONSTANTS L
VARIABLES frame, cor, dec, hist
vars == <<frame, cor, dec, hist>>
Frames == {"beam", "inst", "earth"}
Cor == [toE : BOOLEAN, af : {0, 1}, vf : {0, 1}]
None == [toE |-> FALSE, af |-> -1, vf |-> -1]
Init == frame \in Frames /\ cor = None /\ dec = 0 /\ hist = <<>>
Rot == \E f \in Frames \ {frame} : frame' = f /\ hist' = Append(hist, <<"rot", f>>) /\ UNCHANGED <<cor, dec>>
Dec == dec = 0 /\ dec' = 90 /\ hist' = Append(hist, <<"dec">>) /\ UNCHANGED <<frame, cor>>
Correct == /\ cor = None
           /\ \E c \in Cor : /\ cor' = c
                             /\ frame' = (IF c.toE THEN "earth" ELSE "inst")
                             /\ hist' = Append(hist, <<"cor", c.toE, c.af, c.vf>>)
           /\ UNCHANGED dec
Again == cor # None /\ (hist = <<>> \/ hist[Len(hist)][1] # "again")
         /\ hist' = Append(hist, <<"again">>) /\ UNCHANGED <<frame, cor, dec>>
Next == Len(hist) < L /\ (Rot \/ Dec \/ Correct \/ Again)
Once == Cardinality({i \in 1..Len(hist) : hist[i][1] = "cor"}) <= 1
Export == IF Len(hist) > 0 THEN PrintT("CASE " \o ToJson([s |-> hist, f |-> frame, d |-> dec])) ELSE TRUE

\* ---- algebra
Os == {Ident(3), RX, RZ, MatMul(RX, RZ)}
ASSUME \A m \in Os : Det3(m) = 1 /\ MatMul(m, Transp(m)) = Ident(3)
ASSUME MatMul(B3, B3i) = Ident(3)
Xs == [1..4 -> {-1, 0, 2}]
ASSUME \A af \in {0, 1} : \A x \in Xs :
  LET y == VelAcc(x, af, 0, 4, 1) IN
  /\ y[1] = 0                                               \* starts at rest
  /\ VelAcc([i \in 1..4 |-> x[i] + 3], af, 0, 4, 1) = y        \* gravity does not matter
  /\ \A i \in 1..4 : y[i] + VelAcc([k \in 1..4 |-> -x[k]], af, 0, 4, 1)[i] \in {-1, 0, 1}
ASSUME \A x \in Xs : VelAcc(x, 0, 0, 4, 1)[4] + RDiv((x[1] + x[4]) * SV * 4 - 2 * Sum(x) * SV, 16 * 4 * 4) \in {-1, 0, 1}
                                                            \* nothing left but the end corrections
\* a filter of unit gain keeps constants and ramps
ASSUME LET y == [i \in 1..12 |-> 700] IN CloseSeq(FiltFilt(y), y, 3)
ASSUME LET y == [i \in 1..12 |-> 500 * i] IN CloseSeq(SubSeq(FiltFilt(y), 1, 12), y, 8)
ASSUME \A m \in Os : \A d \in {0, 90} : \A v \in {<<1, 2, 3>>, <<0, -4, 1>>} :
  ToInst(m, d, ToEarth(m, d, v)) = v
\* the head does not move when turning about the line through it
ASSUME \A k \in -2..2 : RotAt(<<k, 0, 0>>, <<5000, 635, 14986>>) = <<0, 0, 0>>
ASSUME \A w \in {<<1, 2, 3>>} : \A p \in {<<1000, 2000, 3000>>} : Dot(RotAt(w, p), w) = 0
\* a rigid body: with the receivers in the beam geometry one rate gives one velocity field
====

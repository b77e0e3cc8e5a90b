---- MODULE MCRotation ----
EXTENDS Rotation
RotOps == {<<"rot", "beam">>, <<"rot", "inst">>, <<"rot", "earth">>, <<"rot", "principal">>}
PhOps == {<<"ph", 3>>, <<"ph", 5>>}
DecOps == {<<"dec", 1>>, <<"dec", 2>>, <<"dec", 3>>, <<"dec", 4>>}
HeadOps == {<<"head", 1>>, <<"head", 2>>}
C01Ops == RotOps \cup PhOps
C02Ops == RotOps \cup {<<"ph", 3>>} \cup DecOps
C03Ops == RotOps \cup {<<"ph", 3>>, <<"dec", 3>>} \cup HeadOps
ASSUME PrintT("CASE " \o ToJson([table |-> TRUE, cfgs |-> Cfgs, ang |-> Ang,
   b3 |-> B3, b4 |-> B4, heads |-> HeadMats, omats |-> [t \in 1..NT |-> OmatT(t)],
   start |-> [i \in 1..Len(Cfgs) |->
      [vel |-> InitS(i).vel,
       bt |-> View(Cfgs[i], InitS(i), TruthBT(Cfgs[i]), Cfgs[i].start, TRUE),
       imu |-> View(Cfgs[i], InitS(i), TruthImu(Cfgs[i]), Cfgs[i].start, FALSE)]]]))
\* ---- design properties, checked exhaustively by TLC ----
CONSTANTS Ops, Depth
VARIABLES st, hist
RInit == \E ci \in 1..Len(Cfgs) : st = InitS(ci) /\ hist = <<>>
RNext == /\ Len(hist) < Depth
         /\ \E op \in Ops : /\ OpOk(st, op)
                            /\ st' = Apply(st, op)
                            /\ hist' = Append(hist, op)
RSpec == RInit /\ [][RNext]_<<st, hist>>

Cf == Cfgs[st.ci]
\* path independence: whatever the route, the vectors are the truth as seen from
\* the labelled frame under the current declination / heading / head matrix
Slack == 40
PathIndependent ==
  LET w == View(Cf, st, Truth(Cf), st.frame, TRUE) IN
  \A t \in 1..NT : CloseMat(st.vel[t], w[t], Slack)
\* orthonormal frames preserve length
LengthPreserved ==
  ~IsSig(Cf) /\ st.frame # "beam" =>
     \A t \in 1..3 : \A z \in 1..Cf.nz :
       Close(Norm2(DivV(SubSeq(st.vel[t][z], 1, 3), 100)),
             Norm2(DivV(SubSeq(Truth(Cf)[t][z], 1, 3), 100)), 2000)
\* principal-frame data do not depend on the declination that is in force
PrincipalInvariant ==
  st.frame = "principal" =>
    LET w == View(Cf, [st EXCEPT !.dec = A0, !.ph = AMul(st.ph, AConj(st.dec))],
                  Truth(Cf), "principal", TRUE) IN
    \A t \in 1..NT : CloseMat(st.vel[t], w[t], Slack)
\* beam data never see declination, heading or head matrix
BeamInvariant ==
  st.frame = "beam" => \A t \in 1..3 : \A z \in 1..Cf.nz :
     CloseSeq(st.vel[t][z], MatVec(Bi(Cf), Truth(Cf)[t][z]), Slack)
Export == Len(hist) = Depth => PrintT("CASE " \o ToJson([ci |-> st.ci, ops |-> hist]))

====

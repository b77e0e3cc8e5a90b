---- MODULE MCShortcuts ----
(* Histories of frame changes and reads on one sample; quarter turns keep the
   state integer.  Exports the histories that are replayed. *)
EXTENDS Shortcuts, Json
CONSTANT L
UV == {<<3, 4>>, <<-4, 3>>, <<0, -5>>, <<6, -8>>, <<0, 0>>, <<NAN, 1>>}
VARIABLES hist, vel, frame
vars == <<hist, vel, frame>>
Init == hist = <<>> /\ frame = "inst" /\ vel \in {<<u[1], u[2], 7>> : u \in UV}
\* inst x -> earth y (heading 0 turned by a quarter), principal = earth turned again
Turn(v) == <<IF v[2] = NAN THEN NAN ELSE -v[2], v[1], v[3]>>
Back(v) == <<v[2], IF v[1] = NAN THEN NAN ELSE -v[1], v[3]>>
Ord == <<"inst", "earth", "principal">>
Pos(f) == CHOOSE i \in 1..3 : Ord[i] = f
RECURSIVE Go(_, _, _)
Go(v, a, b) == IF a = b THEN v ELSE IF a < b THEN Go(Turn(v), a + 1, b) ELSE Go(Back(v), a - 1, b)
Rotate(f) == vel' = Go(vel, Pos(frame), Pos(f)) /\ frame' = f /\ hist' = Append(hist, <<"rot", f>>)
Read(p) == UNCHANGED <<vel, frame>> /\ hist' = Append(hist, <<"read", p>>)
Next == /\ Len(hist) < L
        /\ \/ \E f \in ToSet(Ord) : f # frame /\ Rotate(f)
           \/ \E p \in {"u", "v", "w", "U", "U_mag", "tke", "E_coh", "I", "I_tke"} : Read(p)
S == [vel |-> [k \in 1..3 |-> <<vel[k]>>], tke |-> <<<<4>>, <<9>>, <<12>>>>,
      stress |-> <<<<2>>, <<-3>>, <<6>>>>, std |-> <<2>>]
\* magnitude is the modulus of U in every frame and the same in all of them
Modulus == ~Miss(SubSeq(vel, 1, 2)) =>
  LET m == View("U_mag", S, 1)[1] re == View("U.re", S, 1)[1] im == View("U.im", S, 1)[1] IN
  m * m = re * re + im * im
SpeedInvariant == [][~Miss(SubSeq(vel, 1, 2)) => View("U_mag", S, 1) = View("U_mag", S, 1)']_vars
Positive == View("tke", S, 1)[1] >= 0 /\ View("E_coh", S, 1)[1] >= 0
\* turbulent energy and intensity agree: (I_tke * U)^2 = 2 tke
Intensity == LET i == View("I_tke", S, 1) m == View("U_mag", S, 1) IN
  (i[1] # NAN /\ i[1] # INF) => RMul(RMul(i, m), RMul(i, m)) = RMul(<<2, 1>>, View("tke", S, 1))
Export == (Len(hist) = L /\ vel[3] = 7) => PrintT("CASE " \o ToJson(hist))
====

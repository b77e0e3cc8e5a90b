---- MODULE MCProfiles ----
(* All histories of offsetting, finding the depth from pressure and blanking. *)
EXTENDS Profiles
CONSTANTS Depth, Angs, Hs
VARIABLES ops, s, ang, stale
PD == 81            \* true distance to the surface
Rng == [r \in 1..8 |-> 10 * r + 3]
E0(a) == [rng |-> Rng, pd |-> PD, ang |-> a, cell |-> 10, ops |-> <<>>]
PInit == ops = <<>> /\ s = OpsInit /\ ang \in Angs /\ stale = TRUE
Do(op) == /\ ops' = Append(ops, op)
          /\ s' = OpsStep(E0(ang), s, op)
PNext == /\ Len(ops) < Depth
         /\ UNCHANGED ang
         /\ \/ \E h \in Hs : Do([op |-> "offset", h |-> h]) /\ stale' = TRUE
            \/ Do([op |-> "press", h |-> 0]) /\ stale' = FALSE
            \* blanking with a depth older than the last offset is the user's error
            \/ ~stale /\ Do([op |-> "blank", h |-> 0]) /\ UNCHANGED stale
\* what is blanked does not depend on the offset history, and never includes a
\* cell that lies wholly within the beam's reach
Reach == {r \in 1..8 : Beyond(Rng[r], PD, 0, ang, 10) = 1}
SameCells == s.gone = {} \/ s.gone = Reach
Upper == \A r \in s.gone : \A q \in r..8 : q \in s.gone
Offset == s.off = Sum([k \in 1..Len(ops) |-> ops[k].h])
Export == (Len(ops) >= 1) => PrintT("CASE " \o ToJson([ops |-> ops, ang |-> ang]))
====

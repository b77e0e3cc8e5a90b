---- MODULE MCUnits ----
(* What can be derived from what, in any order: every way to a quantity gives it
   the same dimension, and everything the code computes can be derived. *)
EXTENDS Units, Json
CONSTANT S
VARIABLES known
UInit == known \in {{"vel", "len", "time"}, {"vel", "time", "num"}, {"vel", "len", "accel", "rate", "time"}}
UNext == \E r \in Rules : /\ \A i \in 1..Len(r.in) : r.in[i][1] \in known
                          /\ r.out \notin known
                          /\ known' = known \cup {r.out}
AllConsistent == \A r \in Rules : (\A i \in 1..Len(r.in) : r.in[i][1] \in known) => Consistent(r)
Full == {Results[q] : q \in DOMAIN Results}
\* nothing more to derive: every result has been reached that its inputs allow
Complete == (~ENABLED UNext /\ {"accel", "rate"} \subseteq known) => Full \subseteq known
\* stretching twice is stretching once by both
Compose == \A q \in DOMAIN Results : \A l, t \in {-2, 1} : LET d == Dim[Results[q]] IN
             Scaled(Scaled(<<<<20000, -3>>>>, l * d[1] + t * d[2]), l * d[1] + t * d[2]) = Scaled(<<<<20000, -3>>>>, 2 * (l * d[1] + t * d[2]))
Export == Cardinality(known) = 3 => \A l, t \in -S..S : (l # 0 \/ t # 0) => PrintT("CASE " \o ToJson([l |-> l, t |-> t]))
====

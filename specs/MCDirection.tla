---- MODULE MCDirection ----
EXTENDS Direction
Vecs == {<<3, 4>>, <<-3, -4>>, <<4, -3>>, <<5, 0>>, <<-5, 0>>, <<0, 5>>, <<0, -5>>,
         <<-8, 6>>, <<6, 8>>, <<0, 0>>, <<NAN, NAN>>}
CONSTANT N
VARIABLES vs, acc
DInit == vs = <<>> /\ acc = [t |-> <<0, 0>>, d |-> <<0, 0>>]
DNext == /\ Len(vs) < N
         /\ \E z \in Vecs : /\ vs' = Append(vs, z)
                            /\ acc' = IF Miss(z) THEN acc
                                      ELSE [t |-> Add(acc.t, Doubled(z)), d |-> Add(acc.d, z)]
\* the accumulators do not depend on order or (tidal) on the sign of any sample,
\* and turning the flow by 3-4-5 turns the directed mean by it and the doubled
\* mean by twice that angle (both scaled by the turn's length 5 / 25)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Neg(z) == IF Miss(z) THEN z ELSE <<-z[1], -z[2]>>
OrderFree == acc.t = Acc(Rev(vs), Len(vs), TRUE) /\ acc.d = Acc(Rev(vs), Len(vs), FALSE)
SignFree == \A i \in 1..Len(vs) : Acc([vs EXCEPT ![i] = Neg(vs[i])], Len(vs), TRUE) = acc.t
Equivariant ==
   Acc([i \in 1..Len(vs) |-> IF Miss(vs[i]) THEN vs[i] ELSE Turn(vs[i], <<0, 1>>)], Len(vs), FALSE)
     = Turn(acc.d, <<0, 1>>)
   /\ Acc([i \in 1..Len(vs) |-> IF Miss(vs[i]) THEN vs[i] ELSE Turn(vs[i], <<0, 1>>)], Len(vs), TRUE)
     = Turn(acc.t, <<-1, 0>>)
\* a flow back and forth along one line has that line as its principal heading
OneLine == (Len(vs) = 2 /\ ~Miss(vs[1]) /\ vs[2] = Neg(vs[1]) /\ vs[1] # <<0, 0>>) =>
   /\ X(acc.t, <<vs[1][1] * vs[1][1] - vs[1][2] * vs[1][2], 2 * vs[1][1] * vs[1][2]>>) = 0
   /\ acc.d = <<0, 0>>
Export == Len(vs) = N => PrintT("CASE " \o ToJson(vs))
====

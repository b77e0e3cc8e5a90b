---- MODULE MCBinning ----
(* The stream form: samples arrive one by one, each is either put in the
   current bin or skipped so that bins keep pace with a fractional length. *)
EXTENDS Binning
CONSTANTS MaxN, MaxP, Q
VARIABLES p, t, s, cur, bins, skipped
vars == <<p, t, s, cur, bins, skipped>>
BInit == /\ p \in Q..MaxP /\ t = 0 /\ s = 0 /\ cur = <<>> /\ bins = <<>> /\ skipped = {}
Take == /\ t = Source(s, p, Q)
        /\ s' = s + 1
        /\ skipped' = skipped
        /\ IF Len(cur) + 1 = M(p, Q)
           THEN /\ bins' = Append(bins, Append(cur, t)) /\ cur' = <<>>
           ELSE /\ bins' = bins /\ cur' = Append(cur, t)
Skip == /\ t # Source(s, p, Q)
        /\ skipped' = skipped \cup {t}
        /\ UNCHANGED <<s, cur, bins>>
BNext == t < MaxN /\ t' = t + 1 /\ UNCHANGED p /\ (Take \/ Skip)
\* the stream and the closed form agree; nothing is lost but skips and the tail
Flat == FlattenSeq(bins) \o cur
Agree == /\ \A b \in 1..Len(bins) : bins[b] = BinIdx(b - 1, p, Q)
         /\ NBins(t, p, Q) >= Len(bins) - 1
         /\ NBins(t, p, Q) <= Len(bins) + 1
Partition == /\ {Flat[i] : i \in 1..Len(Flat)} \cup skipped = 0..(t - 1)
             /\ \A i \in 1..(Len(Flat) - 1) : Flat[i] < Flat[i + 1]
             /\ Len(Flat) + Cardinality(skipped) = t
Pace == \A b \in 1..Len(bins) : bins[b][1] = ((b - 1) * p) \div Q
\* every bin the closed form announces for a record of t samples is inside it
Inside == \A b \in 1..NBins(t, p, Q) : Last(BinIdx(b - 1, p, Q)) < t
NoSkip == p % Q = 0 => skipped = {}
Export == (t >= M(p, Q) + 1 /\ t >= (p + Q - 1) \div Q) => PrintT("CASE " \o ToJson([n |-> t, p |-> p, q |-> Q]))
====

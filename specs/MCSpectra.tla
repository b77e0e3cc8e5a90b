---- MODULE MCSpectra ----
(* Laws of the exact transform on all small signals, and of the segmentation of
   all small records; the records are exported as behaviours to replay. *)
EXTENDS Spectra
CONSTANTS NN, MaxL
VARIABLES x, l, pos, used
SInit == x = <<>> /\ l \in NN..MaxL /\ pos = 0 /\ used = 0
Grow == Len(x) < NN /\ l = NN /\ (\E v \in {-1, 0, 2} : x' = Append(x, v)) /\ UNCHANGED <<l, pos, used>>
\* walk over the segments of a record of length l
Walk == /\ used < NEns(l, NN, 0) /\ x = <<>>
        /\ pos' = IF used + 1 < NEns(l, NN, 0) THEN pos + StepFor(l, NN, NEns(l, NN, 0)) ELSE pos
        /\ used' = used + 1 /\ UNCHANGED <<x, l>>
SNext == Grow \/ Walk
Ones == [i \in 1..NN |-> 1]
E2(y) == Sum([i \in 1..NN |-> y[i] * y[i]])
\* Parseval: the Nyquist term counts once, the others twice
Parseval == Len(x) = NN => LET y == Detr(x)
   S == [k \in 1..HalfSpec(NN) |-> (IF 2 * k = NN THEN 1 ELSE 2) * Norm(NN, DFT(y, NN, k))] IN
   Sum(S) = NN * E2(y)
NoMean == Len(x) = NN => /\ Sum(Detr(x)) = 0
                         /\ Sum([i \in 1..NN |-> i * Detr(x)[i]]) = 0
ConjLaw == Len(x) = NN => \A k \in 1..(NN - 1) : DFT(Detr(x), NN, k) = CConj(NN, DFT(Detr(x), NN, NN - k))
ScaleLaw == Len(x) = NN => \A k \in 1..HalfSpec(NN) :
   Norm(NN, DFT(Detr([i \in 1..NN |-> 3 * x[i]]), NN, k)) = 9 * Norm(NN, DFT(Detr(x), NN, k))
\* segments stay inside the record, overlap at least half, start at its start
Inside == pos + NN <= l
Overlap == l > NN => 2 * StepFor(l, NN, NEns(l, NN, 0)) <= NN + 1
Export == x = <<>> /\ pos = 0 /\ used = 0 => PrintT("CASE " \o ToJson([n |-> NN, l |-> l]))
====

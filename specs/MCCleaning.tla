---- MODULE MCCleaning ----
(* The block finder of the replacement, one sample at a time, and the laws of the
   rules on every small record. *)
EXTENDS Cleaning
CONSTANTS N, K
VARIABLES b, npt, pos, start, tail, blocks
CInit == /\ b \in UNION {[1..n -> BOOLEAN] : n \in 1..N}
         /\ npt \in 1..K
         /\ pos = 1 /\ start = 0 /\ tail = 0 /\ blocks = <<>>
CNext == /\ pos <= Len(b)
         /\ pos' = pos + 1
         /\ LET s2 == IF start = 0 /\ b[pos] THEN Max2(pos - npt, 1) ELSE start
                t2 == IF start = 0 \/ b[pos] THEN 0 ELSE tail + 1
                shut == start > 0 /\ (t2 = npt \/ pos = Len(b)) IN
            /\ blocks' = IF shut THEN Append(blocks, <<s2, pos>>) ELSE blocks
            /\ start' = IF shut THEN 0 ELSE s2
            /\ tail' = IF shut THEN 0 ELSE t2
         /\ UNCHANGED <<b, npt>>
Done == pos > Len(b)
Agrees == Done => blocks = Blocks(b, npt)
\* every missing sample is in exactly one block, with all the good neighbours the
\* replacement may use; except a gap that is the record's very last sample alone
InBlock(k, i) == k[1] <= i /\ i <= k[2]
Once == Done => \A i \in 1..Len(b) : (b[i] /\ NextGood(b, i) > 0 /\ PrevGood(b, i) > 0) =>
   LET S == {j \in 1..Len(blocks) : InBlock(blocks[j], i)} IN
   /\ Cardinality(S) = 1
   /\ \A j \in S : InBlock(blocks[j], PrevGood(b, i)) /\ InBlock(blocks[j], NextGood(b, i))
\* a block never starts inside a gap that an earlier block has filled
Fresh == Done => \A j \in 1..Len(blocks) : j = 1 \/ \A i \in blocks[j][1]..blocks[j - 1][2] : ~b[i]
\* replacement laws
X == [i \in 1..Len(b) |-> (7 * i * i) % 11]
NoInfluence == Done => \A lim \in {1, 2, 9} :
   LET Y == [i \in 1..Len(b) |-> IF b[i] THEN 99 ELSE X[i]] IN
   /\ Filled(X, [i \in 1..Len(b) |-> i], b, lim, "linear", <<0, 0, 0, 0>>)
        = Filled(Y, [i \in 1..Len(b) |-> i], b, lim, "linear", <<0, 0, 0, 0>>)
   /\ MeanFilled(X, b, lim) = MeanFilled(Y, b, lim)
Between == Done => \A i \in 1..Len(b) :
   LET f == Filled(X, [j \in 1..Len(b) |-> j], b, 9, "linear", <<0, 0, 0, 0>>)[i] IN
   f[1] # NAN => RLe(<<0, 1>>, f) /\ RLe(f, <<10, 1>>)
Quiet == Done => /\ \A i \in 1..Len(b) : ~SpikeMask([j \in 1..Len(b) |-> 7], 0)[i]
                 /\ (Len(b) >= 1 => \A i \in 1..Len(b) : GnMask([j \in 1..Len(b) |-> 7], 5)[i] = 0)
Export == (Done /\ npt = 1) => PrintT("CASE " \o ToJson(b))
====

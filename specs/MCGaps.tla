---- MODULE MCGaps ----
(* The scanner: one sample at a time, closing a run when it ends. *)
EXTENDS Gaps
CONSTANT N
VARIABLES b, runs, open
GInit == b = <<>> /\ runs = <<>> /\ open = -1
GNext == /\ Len(b) < N
         /\ \E v \in BOOLEAN :
              /\ b' = Append(b, v)
              /\ open' = IF v THEN (IF open = -1 THEN Len(b) ELSE open) ELSE -1
              /\ runs' = IF ~v /\ open # -1 THEN Append(runs, <<open, Len(b)>>) ELSE runs
Closed == IF open = -1 THEN runs ELSE Append(runs, <<open, Len(b)>>)
ScanAgrees == Closed = Runs(b)
Covers == UNION {(Closed[i][1] + 1)..Closed[i][2] : i \in 1..Len(Closed)} = {i \in 1..Len(b) : b[i]}
Apart == \A i \in 1..(Len(Closed) - 1) : Closed[i][2] < Closed[i + 1][1]
\* filling keeps good samples, is idempotent on what it filled, stays between
\* the two neighbours and never fills more with a smaller limit
X == [i \in 1..Len(b) |-> IF b[i] THEN NAN ELSE (7 * i * i) % 11]
FillSane == Len(b) <= 7 => \A lim \in {1, 2, 9}, ext \in BOOLEAN :
   LET f == Fill(X, Index(X), lim, ext) IN
   \A i \in 1..Len(X) :
     /\ X[i] # NAN => f[i] = RInt(X[i])
     /\ (X[i] = NAN /\ f[i][1] # NAN) => /\ RLe(<<0, 1>>, f[i]) /\ RLe(f[i], <<10, 1>>)
                                        /\ (lim < 9 => Fill(X, Index(X), 9, ext)[i] = f[i])
Export == Len(b) >= 1 => PrintT("CASE " \o ToJson(b))
====

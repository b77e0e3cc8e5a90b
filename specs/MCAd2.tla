---- MODULE MCAd2 ----
(* The Signature reader as a machine over packets.  An index of the file gives every
   packet of a stream its ensemble, by the stream's own counter; an ensemble starts at
   its first packet in the file; reading puts each packet into the column of the
   ensemble the file position has reached.  Streams may miss an ensemble. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Streams, Order, N, Offsets
MCOrder2 == <<"burst", "b5">>
MCOrder3 == <<"burst", "b5", "bt">>
MCOrder4 == <<"burst", "b5", "bt", "echo">>
VARIABLES present, off, file, key, pos, col, got, st
vars == <<present, off, file, key, pos, col, got, st>>
Layout(pr) == LET row(j) == SelectSeq(Order, LAMBDA s : s \in pr[j])
                  rec[j \in 0..N] == IF j = 0 THEN <<>> ELSE rec[j - 1] \o [i \in 1..Len(row(j)) |-> <<row(j)[i], j>>]
              IN rec[N]
Init == /\ present \in {p \in [1..N -> (SUBSET Streams) \ {{}}] : p[1] = Streams /\ \A s \in Streams : 2 * Cardinality({j \in 1..N : s \in p[j]}) > N}
        /\ off \in Offsets
        /\ file = Layout(present) /\ key = <<>> /\ pos = 1 /\ col = 0 /\ got = {} /\ st = "index"
\* the counter written is the ensemble's number and some more
Counter(p) == file[p][2] + off
First(s) == CHOOSE p \in 1..Len(file) : file[p][1] = s /\ \A x \in 1..(p - 1) : file[x][1] # s
Index == st = "index" /\ pos <= Len(file) /\ key' = Append(key, Counter(pos) - Counter(First(file[pos][1]))) /\ pos' = pos + 1
         /\ UNCHANGED <<present, off, file, col, got, st>>
Indexed == st = "index" /\ pos > Len(file) /\ st' = "read" /\ pos' = 1 /\ UNCHANGED <<present, off, file, key, col, got>>
\* positions where ensembles begin
Begins(p) == p = 1 \/ key[p] # key[p - 1]
Read == st = "read" /\ pos <= Len(file)
        /\ col' = (IF Begins(pos) THEN col + 1 ELSE col)
        /\ got' = got \cup {<<file[pos][1], col', pos>>}
        /\ pos' = pos + 1 /\ UNCHANGED <<present, off, file, key, st>>
Done == st = "read" /\ pos > Len(file) /\ st' = "done" /\ UNCHANGED <<present, off, file, key, pos, col, got>>
Next == Index \/ Indexed \/ Read \/ Done
Spec == Init /\ [][Next]_vars
OneEach == \A x, y \in got : x[1] = y[1] /\ x[2] = y[2] => x = y
Together == \A x, y \in got : (x[2] = y[2]) <=> (file[x[3]][2] = file[y[3]][2])
InOrder == \A x, y \in got : x[3] < y[3] => x[2] <= y[2]
NoneLost == st = "done" => Cardinality(got) = Len(file) /\ col = N
Hole == st = "done" => \A s \in Streams, j \in 1..N : (s \notin present[j]) <=> ~\E x \in got : x[1] = s /\ x[2] = j
\* The reader has no clock to tell a gap by but the order of the packets: a gap shows
\* when more packets lie in it than there are streams, and its length shows when some
\* other stream misses none of it
Between(f, a, b, s) == Cardinality({i \in (a + 1)..(b - 1) : f[i][1] = s})
Visible == \A a, b \in 1..Len(file) : a < b /\ file[a][1] = file[b][1] /\ Between(file, a, b, file[a][1]) = 0 /\ file[b][2] > file[a][2] + 1
             => /\ b - a > Cardinality(Streams)
                /\ \E s \in Streams : Between(file, a, b, s) = file[b][2] - file[a][2]
\* ... and then counting packets gives the same columns as the counters do
Skips(a, b) == IF b - a > Cardinality(Streams) THEN (CHOOSE n \in 0..N : (\E s \in Streams : Between(file, a, b, s) = n + 1) /\ \A s \in Streams : Between(file, a, b, s) <= n + 1) ELSE 0
Column[p \in 1..Len(file)] ==
  LET before == {x \in 1..(p - 1) : file[x][1] = file[p][1]}
      last == CHOOSE x \in before : \A y \in before : y <= x
  IN IF before = {} THEN 1 ELSE Column[last] + 1 + Skips(last, p)
Counted == st = "done" /\ Visible => \A x \in got : Column[x[3]] = x[2]
Export == st = "done" /\ Visible => PrintT("CASE " \o ToJson([present |-> [j \in 1..N |-> SelectSeq(Order, LAMBDA s : s \in present[j])], off |-> off]))
====

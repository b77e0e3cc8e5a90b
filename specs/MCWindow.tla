---- MODULE MCWindow ----
(* The windowed reader as a machine: it walks the records of the file (sound ones s,
   others x), keeps what lies in [start, stop) and stops when it has read enough. *)
EXTENDS Windows, TLC, Json
CONSTANTS MaxLen, MaxStop
VARIABLES file, start, stop, pos, c, kept, st
vars == <<file, start, stop, pos, c, kept, st>>
Init == /\ \E n \in 1..MaxLen : file \in [1..n -> {"s", "x"}]
        /\ file[1] = "s"
        /\ stop \in 1..MaxStop /\ start \in 0..(MaxStop - 1) /\ start < stop
        /\ pos = 1 /\ c = 0 /\ kept = <<>> /\ st = "run"
More == st = "run" /\ pos <= Len(file) /\ c < stop
Take == More /\ file[pos] = "s" /\ c' = c + 1 /\ kept' = (IF c >= start THEN Append(kept, pos) ELSE kept)
        /\ pos' = pos + 1 /\ UNCHANGED <<file, start, stop, st>>
Pass == More /\ file[pos] = "x" /\ pos' = pos + 1 /\ UNCHANGED <<file, start, stop, c, kept, st>>
End == st = "run" /\ ~More /\ st' = "done" /\ UNCHANGED <<file, start, stop, pos, c, kept>>
Next == Take \/ Pass \/ End
Spec == Init /\ [][Next]_vars
Good == SelectSeq([i \in 1..Len(file) |-> i], LAMBDA i : file[i] = "s")
IsSlice == st = "done" => kept = SubSeq(Good, start + 1, Min2(stop, Len(Good)))
Prefix == \A i \in 1..Len(kept) : start + i <= Len(Good) /\ kept[i] = Good[start + i]
\* slicing a slice
Nested == st = "done" => \A a \in 0..Len(kept) : SubSeq(kept, a + 1, Len(kept)) = SubSeq(Good, start + a + 1, Min2(stop, Len(Good)))
Export == st = "done" => PrintT("CASE " \o ToJson([items |-> file, start |-> start, stop |-> stop]))
====

---- MODULE MCNortek ----
(* The Nortek reader as a machine over the records of a file: velocity records open
   the next sample, system records fill the sample to come, inertial records the one
   before, everything else is passed over; what has been read when the file (or the
   number of samples asked for) ends is returned. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Items, MaxLen, Quota
VARIABLES file, pos, c, slow, imu, nens, st
vars == <<file, pos, c, slow, imu, nens, st>>
Init == /\ \E n \in 1..MaxLen : file \in [1..n -> Items]
        /\ \E i \in 1..Len(file) : file[i] = "v"
        /\ nens \in {0} \cup Quota      \* 0: all of it
        /\ pos = 1 /\ c = 0 /\ slow = {} /\ imu = {} /\ st = "run"
More == st = "run" /\ pos <= Len(file) /\ (nens = 0 \/ c < nens \/ file[pos] # "v")
Step == pos' = pos + 1 /\ UNCHANGED <<file, nens, st>>
Vel == More /\ file[pos] = "v" /\ c' = c + 1 /\ UNCHANGED <<slow, imu>> /\ Step
Sys == More /\ file[pos] = "sys" /\ slow' = {x \in slow : x[1] # c + 1} \cup {<<c + 1, pos>>} /\ UNCHANGED <<c, imu>> /\ Step
Imu == More /\ file[pos] = "imu" /\ imu' = (IF c = 0 THEN imu ELSE {x \in imu : x[1] # c} \cup {<<c, pos>>}) /\ UNCHANGED <<c, slow>> /\ Step
Other == More /\ file[pos] \notin {"v", "sys", "imu"} /\ UNCHANGED <<c, slow, imu>> /\ Step
End == st = "run" /\ ~More /\ st' = "done" /\ UNCHANGED <<file, pos, c, slow, imu, nens>>
Next == Vel \/ Sys \/ Imu \/ Other \/ End
Spec == Init /\ [][Next]_vars
VAt(p) == Cardinality({i \in 1..p : file[i] = "v"})
Total == VAt(Len(file))
Counts == st = "done" => c = IF nens = 0 \/ nens > Total THEN Total ELSE nens
OnePer == \A x, y \in slow \cup {<<z[1] + 1000, z[2]>> : z \in imu} : x[1] = y[1] => x = y
Aligned == /\ \A x \in slow : file[x[2]] = "sys" /\ VAt(x[2]) + 1 = x[1]
           /\ \A x \in imu : file[x[2]] = "imu" /\ VAt(x[2]) = x[1]
\* the record kept is the last of its kind for that sample
Latest == st = "done" => \A x \in slow : x[1] <= c => \A p \in (x[2] + 1)..Len(file) : file[p] = "sys" => VAt(p) + 1 # x[1]
Export == st = "done" => PrintT("CASE " \o ToJson([items |-> file, nens |-> nens]))
====

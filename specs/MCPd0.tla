---- MODULE MCPd0 ----
(* The reader as a machine over the items a file is made of: it looks for the next
   sound ensemble, fills a fresh record from that ensemble's own blocks and hands it
   on.  Junk, cut-off and damaged ensembles are passed over. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Items, MaxLen
Sound == Items \ {"junk", "trunc", "badsum"}
VARIABLES file, pos, rec, out, st
vars == <<file, pos, rec, out, st>>
Blocks(it) == {"leader"} \cup (IF it \in {"novel+bt"} THEN {} ELSE {"vel"})
              \cup (IF it \in {"full+bt", "novel+bt"} THEN {"bt"} ELSE {})
              \cup (IF it = "full+unk+alt" THEN {"alt"} ELSE {})
Init == /\ \E n \in 1..MaxLen : file \in [1..n -> Items]
        /\ file[1] # "junk"    \* such a file is of no known format
        /\ \E i \in 1..Len(file) : file[i] \in Sound
        /\ pos = 1 /\ rec = {} /\ out = <<>> /\ st = "search"
Skip == st = "search" /\ pos <= Len(file) /\ file[pos] \notin Sound /\ pos' = pos + 1 /\ UNCHANGED <<file, rec, out, st>>
Accept == st = "search" /\ pos <= Len(file) /\ file[pos] \in Sound /\ rec' = {} /\ st' = "fill" /\ UNCHANGED <<file, pos, out>>
Fill == /\ st = "fill"
        /\ \E b \in Blocks(file[pos]) : <<b, pos>> \notin rec /\ rec' = rec \cup {<<b, pos>>}
        /\ UNCHANGED <<file, pos, out, st>>
Hand == /\ st = "fill" /\ Cardinality(rec) = Cardinality(Blocks(file[pos]))
        /\ out' = Append(out, rec) /\ pos' = pos + 1 /\ st' = "search" /\ UNCHANGED <<file, rec>>
End == st = "search" /\ pos > Len(file) /\ st' = "done" /\ UNCHANGED <<file, pos, rec, out>>
Next == Skip \/ Accept \/ Fill \/ Hand \/ End
Spec == Init /\ [][Next]_vars
Good == {i \in 1..Len(file) : file[i] \in Sound}
NoMix == \A i \in 1..Len(out) : \E p \in 1..Len(file) : \A x \in out[i] : x[2] = p
Ordered == \A i, j \in 1..Len(out) : i < j => \A x \in out[i], y \in out[j] : x[2] < y[2]
Complete == st = "done" => {x[2] : x \in UNION {out[i] : i \in 1..Len(out)}} = Good /\ Len(out) = Cardinality(Good)
Export == st = "done" => PrintT("CASE " \o ToJson([items |-> file]))
====

---- MODULE MCDamage ----
(* A file of N records, faults put into it, and a reader that looks for the next
   sync mark, believes a record only if it is complete and its checksum matches,
   and otherwise goes on looking.  Faults: a byte changed in some zone of a record,
   bytes lost from it, foreign bytes before it, and the end of the file cut off. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxFaults
Zones == {"sync", "size", "head", "data", "check"}
VARIABLES faults, cut, pos, out, st
vars == <<faults, cut, pos, out, st>>
Fault == [r : 1..N, kind : {"flip", "lose"}, zone : Zones] \cup [r : 1..N, kind : {"junk"}, zone : {"before"}]
Cut == {<<N + 1, "none">>} \cup {<<r, z>> : r \in 1..N, z \in Zones \cup {"before"}}
Damaged(r) == \E f \in faults : f.r = r /\ f.kind # "junk"
Gone(r) == r >= cut[1]
Few == {{}} \cup {{f} : f \in Fault} \cup (IF MaxFaults > 1 THEN {{f, g} : f \in Fault, g \in Fault} ELSE {})
Init == /\ faults \in Few
        /\ cut \in Cut
        /\ pos = 1 /\ out = <<>> /\ st = "look"
Take == /\ st = "look" /\ pos <= N /\ ~Gone(pos) /\ ~Damaged(pos)
        /\ out' = Append(out, pos) /\ pos' = pos + 1 /\ UNCHANGED <<faults, cut, st>>
Pass == /\ st = "look" /\ pos <= N /\ ~Gone(pos) /\ Damaged(pos)
        /\ pos' = pos + 1 /\ UNCHANGED <<faults, cut, out, st>>
Stop == st = "look" /\ (pos > N \/ Gone(pos)) /\ st' = "done" /\ UNCHANGED <<faults, cut, pos, out>>
Next == Take \/ Pass \/ Stop
Spec == Init /\ [][Next]_vars
NothingInvented == \A i \in 1..Len(out) : out[i] \in 1..N /\ ~Damaged(out[i]) /\ ~Gone(out[i])
InOrder == \A i \in 1..(Len(out) - 1) : out[i] < out[i + 1]
NothingElseLost == st = "done" => \A r \in 1..N : ~Damaged(r) /\ ~Gone(r) => \E i \in 1..Len(out) : out[i] = r
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetSeq(s \ {x})
Export == st = "done" => PrintT("CASE " \o ToJson([faults |-> SetSeq(faults), cut |-> cut]))
====

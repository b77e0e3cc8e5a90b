---- MODULE MCAveraging ----
(* Histories of averaging operations into one output dataset. *)
EXTENDS Num, Json
CONSTANT L
Par == {"same", "nbin", "nfft", "fs", "rawattr"}       \* parameters the operation uses
Sel == {"all", "one", "two"}
Vars == {"vel", "pressure", "amp"}
Pick(s) == CASE s = "all" -> Vars [] s = "one" -> {"pressure"} [] s = "two" -> {"amp", "vel"}
VARIABLES hist, out
HInit == hist = <<>> /\ out = {}
Out(op, s) == {op \o "." \o v : v \in Pick(s)}
HNext == /\ Len(hist) < L
         /\ \E op \in {"avg", "var"}, s \in Sel, p \in Par :
              /\ hist' = Append(hist, [op |-> op, sel |-> s, par |-> p])
              \* without an earlier output any parameters will do, except a wrong rate
              /\ out' = IF p = "same" THEN out \cup Out(op, s) ELSE out
\* accepting is monotone, refusing is the identity, repeating is idempotent
Monotone == [][out \subseteq out']_<<hist, out>>
Exactly == out = UNION {Out(hist[i].op, hist[i].sel) :
                           i \in {j \in 1..Len(hist) : hist[j].par = "same"}}
Commute == \A i, j \in 1..Len(hist) : Out(hist[i].op, hist[i].sel) \cup Out(hist[j].op, hist[j].sel)
             = Out(hist[j].op, hist[j].sel) \cup Out(hist[i].op, hist[i].sel)
Export == (Len(hist) = L /\ hist[1].par = "same") => PrintT("CASE " \o ToJson(hist))
====

---- MODULE MCWorkflow ----
(* Every life of up to L operations. *)
EXTENDS Workflow, Json
CONSTANTS KIND, L, FRS
VARIABLES fr0, s, hist
vars == <<fr0, s, hist>>
WInit == fr0 \in FRS /\ s = Start(KIND, fr0) /\ hist = <<>>
WNext == /\ Len(hist) < L
         /\ \E o \in Ops : /\ Allowed(KIND, s, o)
                           /\ s' = Apply(s, o)
                           /\ hist' = Append(hist, o)
         /\ UNCHANGED fr0
\* the only operations whose order matters
Class(o) == IF o \in Rots THEN "rot" ELSE IF o \in Decs THEN "dec" ELSE IF o \in {"ph30", "ph200"} THEN "ph" ELSE o
Ordered == {<<"rot", "rot">>, <<"dec", "dec">>, <<"ph", "ph">>, <<"dec", "ph">>, <<"ph", "dec">>, <<"rot", "filt">>, <<"filt", "rot">>,
            <<"off", "surf">>, <<"surf", "off">>, <<"rot", "mot">>, <<"mot", "rot">>, <<"rot", "avg">>, <<"avg", "rot">>}
Diamond == \A a, b \in Ops :
  (/\ <<Class(a), Class(b)>> \notin Ordered
   /\ Allowed(KIND, s, a) /\ Allowed(KIND, Apply(s, a), b)
   /\ Allowed(KIND, s, b) /\ Allowed(KIND, Apply(s, b), a)) => Apply(Apply(s, a), b) = Apply(Apply(s, b), a)
\* going somewhere and coming back is going nowhere, unless data are missing
Return == \A a \in Rots : (Allowed(KIND, s, a) /\ Allowed(KIND, Apply(s, a), s.fr)) =>
            Apply(Apply(s, a), s.fr) = [s EXCEPT !.filt = IF @ = "pure" THEN "spread" ELSE @]
Idempotent == \A o \in {"filt", "nc", "mat"} : Allowed(KIND, s, o) => Apply(Apply(s, o), o) = Apply(s, o)
Now == s
\* nothing is in a frame it cannot be in, and averages stay where they were made
Sane == /\ s.fr = "principal" => s.phm # NO
        /\ s.filt = "pure" => s.fr = "beam"
        /\ s.avg = "fixed" => s.fr \in Fixed
        /\ s.avg \notin {"no", "fixed"} => s.fr = s.avg
        /\ s.dep >= 0 => s.off >= s.dep
        /\ s.surf <=> s.dep >= 0
Replay == Run(Start(KIND, fr0), hist) = s /\ Legal(KIND, Start(KIND, fr0), hist)
\* the physical principal direction is fixed once set, whatever the declination
Physical == [][(s.phm # NO /\ s'.phm # s.phm) => Class(hist'[Len(hist')]) = "ph"]_vars
Export == Len(hist) = L => PrintT("CASE " \o ToJson([fr |-> fr0, h |-> hist, s |-> s]))
====

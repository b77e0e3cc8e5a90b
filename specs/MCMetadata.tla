---- MODULE MCMetadata ----
(* The search for metadata step by step, and what is done with the entries found:
   each one becomes an attribute or, for the two that are more, a rotation; then
   nothing is left. *)
EXTENDS Metadata, Json
CONSTANTS Contents
VARIABLES files, sw, content, look, found, left, attrs, turned, st
vars == <<files, sw, content, look, found, left, attrs, turned, st>>
Init == /\ files \in [{"base", "full", "named"} -> BOOLEAN]
        /\ sw \in {"on", "off", "named"}
        /\ content \in SUBSET Contents
        /\ look = <<>> /\ found = "?" /\ left = {} /\ attrs = {} /\ turned = {} /\ st = "search"
Begin == st = "search" /\ look = <<>> /\ found = "?"
         /\ look' = (CASE sw = "off" -> <<"none">> [] sw = "named" -> <<"named">> [] OTHER -> <<"base", "full", "none">>)
         /\ UNCHANGED <<files, sw, content, found, left, attrs, turned, st>>
Try == st = "search" /\ look # <<>>
       /\ UNCHANGED <<files, sw, content, attrs, turned>>
       /\ (LET h == Head(look) IN
           IF h = "none" \/ (h # "none" /\ files[h])
           THEN found' = h /\ st' = "apply" /\ left' = (IF h = "none" THEN {} ELSE content) /\ UNCHANGED look
           ELSE IF Len(look) = 1 THEN st' = "error" /\ found' = "error" /\ UNCHANGED <<left, look>>
           ELSE look' = Tail(look) /\ UNCHANGED <<found, left, st>>)
Apply == st = "apply" /\ left # {}
         /\ UNCHANGED <<files, sw, content, look, found, st>>
         /\ \E x \in left : 
              /\ left' = left \ {x}
              /\ (IF Name(x) \in {"declination", "inst2head_rotmat"} THEN turned' = turned \cup {Name(x)} /\ UNCHANGED attrs
                  ELSE attrs' = attrs \cup {Name(x)} /\ UNCHANGED turned)
Done == st = "apply" /\ left = {} /\ st' = "done" /\ UNCHANGED <<files, sw, content, look, found, left, attrs, turned>>
Next == Begin \/ Try \/ Apply \/ Done
Spec == Init /\ [][Next]_vars
RightSource == st \in {"apply", "done"} => found = Source(files, sw) /\ (found = "none" \/ files[found])
OnlyError == st = "error" => sw = "named" /\ ~files["named"]
Nothing == st = "done" /\ found = "none" => attrs = {} /\ turned = {}
AllUsed == st = "done" /\ found # "none" => attrs \cup turned = {Name(x) : x \in content}
Disjoint == attrs \cap turned = {}
Export == st \in {"done", "error"} => PrintT("CASE " \o ToJson([files |-> files, sw |-> sw, content |-> [x \in Contents |-> x \in content]]))
====

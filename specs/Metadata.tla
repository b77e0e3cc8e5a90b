---- MODULE Metadata ----
(* Where the metadata of a data file comes from and what becomes of it; and which
   reader a file gets. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* files: source -> is there one; sw: "on", "off" or "named"
Source(files, sw) == IF sw = "off" THEN "none"
                     ELSE IF sw = "named" THEN "named"
                     ELSE IF files["base"] THEN "base" ELSE IF files["full"] THEN "full" ELSE "none"
\* the names of the entries: old names of two of them are still understood
Name(nm) == IF nm = "body2head_rotmat" THEN "inst2head_rotmat" ELSE IF nm = "body2head_vec" THEN "inst2head_vec" ELSE nm
Reader(b1, b2) == IF b1 = 127 /\ b2 \in {121, 127} THEN "RDI" ELSE IF b1 = 165 /\ b2 = 5 THEN "nortek"
                  ELSE IF b1 = 165 /\ b2 = 10 THEN "signature" ELSE "none"
\* ---- a read with metadata
\* e.entries: source -> [name -> code]; e.plain, e.hand: attributes of the file read
\* without metadata, and of that with declination / head rotation then set by hand;
\* e.got: attributes read; e.handvars, e.gotvars: codes of the variables
Special(e) == IF e.model = "Vector" THEN {"declination", "inst2head_rotmat"} ELSE {"declination"}
FailMeta(e) ==
  LET src == Source(e.files, e.sw)
      ent == IF src = "none" THEN [x \in {} |-> 0] ELSE e.entries[src]
      names == {Name(nm) : nm \in DOMAIN ent} \ Special(e)
      code(nm) == LET k == {x \in DOMAIN ent : Name(x) = nm} IN ent[CHOOSE x \in k : TRUE]
  IN IF src = "named" /\ ~e.files["named"] THEN (IF e.raised THEN {} ELSE {"missing-file-accepted"})
     ELSE IF e.handraised THEN (IF e.raised THEN {} ELSE {"accepted"})
     ELSE IF e.raised THEN {"refused"}
     ELSE (IF \A nm \in names : nm \in DOMAIN e.got /\ e.got[nm] = code(nm) THEN {} ELSE {"entry-lost"})
     \cup (IF \A a \in (DOMAIN e.hand) \ names : a \in DOMAIN e.got /\ e.got[a] = e.hand[a] THEN {} ELSE {"attributes"})
     \cup (IF DOMAIN e.got = DOMAIN e.hand \cup names THEN {} ELSE {"attributes-invented"})
     \cup (IF e.gotvars = e.handvars THEN {} ELSE {"not-as-set-by-hand"})
     \cup (IF e.filemut THEN {"file-changed"} ELSE {})
\* ---- which reader: e.b the leading bytes
FailType(e) ==
  IF Reader(e.b[1], e.b[2]) # "none" THEN (IF e.whole /\ (e.raised \/ e.make # Reader(e.b[1], e.b[2])) THEN {"wrong-reader"} ELSE {})
  ELSE (IF e.raised THEN {} ELSE {"unknown-accepted"}) \cup (IF e.named THEN {} ELSE {"error-does-not-name-the-file"})
       \cup (IF e.lfs = e.lfserror THEN {} ELSE {"pointer-not-recognised"})
====

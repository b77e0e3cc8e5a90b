---- MODULE Storage ----
(* A dataset in memory and the file it is stored in.  Storing narrows double
   precision to single and times to what float seconds resolve; loading restores
   everything else.  Saving leaves the memory state as it is, and storage options
   only show in the file.  A view is a sequence of variables
   [name, coord, kind, dims, v, attrs] (v: integers, <<day,sec,ns>>, strings or
   <<re,im>> by kind) together with the dataset attributes. *)
EXTENDS Clock
Names(s) == {s[i].name : i \in 1..Len(s)}
Get(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].name = n]
Narrow(k) == IF k = "f8" THEN "f4" ELSE k
SameTime(a, b) == IF IsMissing(a) \/ IsMissing(b) THEN a = b ELSE Within(a, b, 1000)
SameVals(kind, a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ IF kind = "time" THEN \A i \in 1..Len(a) : IF IsMissing(a[i]) \/ IsMissing(b[i]) THEN a[i] = b[i]
                                                 ELSE Within(a[i], b[i], tol)
     ELSE a = b
\* an attribute is [name, list, v]: v its values as text.  A list with a single
\* entry (rotate_vars excepted) may come back as that entry
SameAttr(a, b) == /\ a.v = b.v
                  /\ (Len(a.v) > 1 \/ a.name = "rotate_vars") => a.list = b.list
SameAttrs(a, b) == /\ Names(a) = Names(b)
                   /\ \A n \in Names(a) : SameAttr(Get(a, n), Get(b, n))
FailRestore(a, b, tol, free, nar(_)) ==       \* a stored, b what came back
  (IF Names(a.vars) \subseteq Names(b.vars) THEN {} ELSE {"variable-lost"})
  \cup (IF Names(b.vars) \subseteq Names(a.vars) THEN {} ELSE {"variable-invented"})
  \cup (IF \A n \in Names(a.vars) \cap Names(b.vars) :
            Get(b.vars, n).dims = Get(a.vars, n).dims /\ Get(b.vars, n).coord = Get(a.vars, n).coord
        THEN {} ELSE {"dimensions"})
  \cup (IF \A n \in Names(a.vars) \cap Names(b.vars) :
            n \in free \/ Get(b.vars, n).kind = (IF Get(a.vars, n).coord THEN Get(a.vars, n).kind ELSE nar(Get(a.vars, n).kind)) THEN {} ELSE {"kind"})
  \cup (IF \A n \in Names(a.vars) \cap Names(b.vars) :
            (Get(b.vars, n).kind = "time") = (Get(a.vars, n).kind = "time")
            /\ (Get(b.vars, n).kind = "str") = (Get(a.vars, n).kind = "str")
            /\ (Get(b.vars, n).kind \in {"c8", "c16"}) = (Get(a.vars, n).kind \in {"c8", "c16"})
            /\ SameVals(Get(a.vars, n).kind, Get(a.vars, n).v, Get(b.vars, n).v, tol) THEN {} ELSE {"values"})
  \cup (IF \A n \in Names(a.vars) \cap Names(b.vars) : SameAttrs(Get(a.vars, n).attrs, Get(b.vars, n).attrs)
        THEN {} ELSE {"variable-attributes"})
  \cup (IF SameAttrs(a.attrs, b.attrs) THEN {} ELSE {"dataset-attributes"})
FailLoad(e) ==
  IF e.raised THEN {"load-refused"} ELSE
  FailRestore(e.saved, e.loaded, 1000, ToSet(e.free), Narrow)
  \cup (IF FailRestore(e.first, e.loaded, 1000, ToSet(e.free) \cup Names(e.first.vars), Narrow) = {} THEN {} ELSE {"drift"})
  \cup (IF e.filemut THEN {"load-changed-file"} ELSE {})
\* a MATLAB file keeps every width; its times are datenums (read to 100
\* microseconds) or epoch seconds
Same(k) == k
FailMat(e) ==
  IF e.raised THEN {"load-refused"} ELSE
  LET tol == IF e.datenum THEN 61000 ELSE 1500 IN
  FailRestore(e.saved, e.loaded, tol, {}, Same)
  \cup (IF FailRestore(e.first, e.loaded, tol, {}, Same) = {} THEN {} ELSE {"drift"})
  \* times on the grid of the file are kept exactly
  \cup (IF \A i \in 1..Len(e.saved.vars) : LET v == e.saved.vars[i] IN
           (v.kind = "time" /\ v.name \in Names(e.loaded.vars) /\ Get(e.loaded.vars, v.name).kind = "time"
            /\ \A j \in 1..Len(v.v) : v.v[j][3] % 100000 = 0)
             => Get(e.loaded.vars, v.name).v = v.v THEN {} ELSE {"time-shifted"})
FailExport(e) == (IF e.raised THEN {"save-refused"} ELSE {})
                 \cup (IF e.mut THEN {"save-changed-dataset"} ELSE {})
\* how the file stores each variable
FailSave(e) ==
  IF e.raised THEN {"save-refused"} ELSE
  (IF e.mut THEN {"save-changed-dataset"} ELSE {})
  \cup (IF e.optmut THEN {"save-changed-options"} ELSE {})
  \cup (IF \A i \in 1..Len(e.store) : LET s == e.store[i]
                                          r == e.req[i] IN
            /\ r.dtype # "" => s.dtype = r.dtype
            /\ r.zlib # "" => s.zlib = (r.zlib = "yes")
            /\ r.level > 0 => s.level = r.level
            /\ (r.zlib = "" /\ r.level = 0 /\ e.comp /\ s.size > 1 /\ s.num) => (s.zlib /\ s.level = 1)
        THEN {} ELSE {"storage-options"})
\* names: an extension is added when there is none, another one is refused
FailName(e) == IF e.ext \in {"", e.want} THEN (IF e.raised \/ e.made # e.expect THEN {"file-name"} ELSE {})
               ELSE (IF e.raised /\ e.made = "" THEN {} ELSE {"file-name"})
FailPointer(e) == IF e.raised /\ e.named THEN {} ELSE {"pointer-file"}
Failures(e) == CASE e.k = "mat" -> FailMat(e) [] e.k = "export" -> FailExport(e)
                 [] e.k = "load" -> FailLoad(e) [] e.k = "save" -> FailSave(e)
                 [] e.k = "name" -> FailName(e) [] e.k = "pointer" -> FailPointer(e)
====

---- MODULE NrtTrace ----
EXTENDS Nrt
Failures(e) == FailNrt(e) \cup (IF e.filemut THEN {"file-changed"} ELSE {})
====

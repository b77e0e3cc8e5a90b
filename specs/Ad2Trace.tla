---- MODULE Ad2Trace ----
EXTENDS Ad2
Failures(e) == FailAd2(e) \cup (IF e.filemut THEN {"file-changed"} ELSE {})
====

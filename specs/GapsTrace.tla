---- MODULE GapsTrace ----
EXTENDS Gaps
Failures(e) == FailGaps(e)
====

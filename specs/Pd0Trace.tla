---- MODULE Pd0Trace ----
EXTENDS Pd0
Failures(e) == FailRead(e)
====

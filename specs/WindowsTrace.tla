---- MODULE WindowsTrace ----
EXTENDS Integers, Sequences, FiniteSets, TLC
W == INSTANCE Windows
P == INSTANCE Pd0Trace
N == INSTANCE NrtTrace
A == INSTANCE Ad2Trace
Failures(e) == CASE e.k = "slice" -> W!FailSlice(e) [] e.k = "ad2" -> A!Failures(e) [] e.k = "pd0" -> P!Failures(e) [] OTHER -> N!Failures(e)
====

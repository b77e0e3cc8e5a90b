---- MODULE BinningTrace ----
EXTENDS Binning
Failures(e) == FailBinning(e)
====

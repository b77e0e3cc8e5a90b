---- MODULE MetadataTrace ----
EXTENDS Metadata
Failures(e) == CASE e.k = "meta" -> FailMeta(e) [] OTHER -> FailType(e)
====

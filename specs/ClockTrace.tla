---- MODULE ClockTrace ----
(* Clauses over recorded conversions. *)
EXTENDS Clock
Failures(e) == CASE e.k = "hop" -> FailHop(e) [] e.k = "path" -> FailPath(e)
                 [] e.k = "exact" -> FailExact(e) [] e.k = "text" -> FailText(e)
                 [] e.k = "year" -> FailYear(e) [] e.k = "fill" -> FailFill(e)
====

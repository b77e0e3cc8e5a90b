---- MODULE AdvTurb ----
(* The analyses of a point velocimeter's record. *)
EXTENDS Turb
FailRel(e) == IF e.ok THEN {} ELSE {e.rel}
Failures(e) == CASE e.k = "tke" -> FailTke(e) [] e.k = "stress" -> FailStress(e) [] e.k = "ti" -> FailTi(e)
                 [] e.k = "full" -> FailFull(e) [] e.k = "acov" -> FailAcov(e) [] e.k = "xcov" -> FailXcov(e)
                 [] e.k = "lint" -> FailLint(e) [] e.k = "dn" -> FailDn(e) [] e.k = "slope" -> FailSlope(e)
                 [] e.k = "lt" -> FailLt(e) [] e.k = "sf" -> FailSf(e) [] e.k = "te" -> FailTe(e)
                 [] e.k = "rel" -> FailRel(e)
====

---- MODULE Windows ----
(* Reading a window of a file against reading all of it.  Every sample of every
   variable is known by a code of its value; a window is a run of the whole. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
\* e.full, e.win: variable -> sequence of codes per sample (or <<code>> for what is
\* not a time series); e.loose: those that may be known from the whole only;
\* e.drift: what the file's own ensembles disagree about
Size(e) == Min2(e.stop, e.total) - e.start
FailSlice(e) ==
  IF Size(e) <= 0 THEN {}
  ELSE IF e.raised THEN {"refused"}
  ELSE LET n == Size(e)
           both == (DOMAIN e.full) \cap (DOMAIN e.win)
           loose == {e.loose[i] : i \in 1..Len(e.loose)}
       IN (IF DOMAIN e.full \subseteq DOMAIN e.win THEN {} ELSE {"variables-lost"})
     \cup (IF DOMAIN e.win \subseteq DOMAIN e.full THEN {} ELSE {"variables-invented"})
     \cup (IF \A v \in both : Len(e.win[v]) = n THEN {} ELSE {"window-size"})
     \cup (IF \A v \in both \ loose : Len(e.win[v]) = n => \A i \in 1..n : e.win[v][i] = e.full[v][i + e.start] THEN {} ELSE {"window-values"})
     \cup (IF DOMAIN e.statics_win = DOMAIN e.statics_full
              /\ \A a \in DOMAIN e.statics_win : e.statics_win[a] = e.statics_full[a] \/ \E i \in 1..Len(e.drift) : e.drift[i] = a THEN {} ELSE {"metadata"})
     \cup (IF e.again = e.win THEN {} ELSE {"not-repeatable"})
====

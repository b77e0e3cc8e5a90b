---- MODULE DamageTrace ----
(* TRDI ensembles are judged by what is sound in the damaged bytes themselves
   (Pd0); Nortek and Signature files by what the file holds up to where it was cut (Nrt, Ad2) and, when
   the checksums are asked for, by the records whose checksum is right. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
P == INSTANCE Pd0
N == INSTANCE Nrt
A == INSTANCE Ad2
\* every velocity record in the bytes, wherever it starts
Sound(b) ==
  LET id == N!VelId(b)
      c == {p \in 784..(Len(b) - 4) : b[p + 1] = 165 /\ b[p + 2] = id /\ N!RecLen(b, p) >= 6 /\ N!Intact(b, p)}
  IN N!SetToSortSeq(c, <)
Value(b, p, nm) == CASE N!Model(b) = "Vector" -> N!VecVal(b, p, nm) [] N!Model(b) = "AWAC" -> N!AwVal(b, p, nm) [] OTHER -> N!VnVal(b, p, nm)
Names(b) == CASE N!Model(b) = "Vector" -> {"vel", "amp", "corr", "pressure"} [] N!Model(b) = "AWAC" -> {"vel", "amp", "pressure", "temp", "heading"}
              [] OTHER -> {"vel", "amp", "corr"}
Is(b, p, got, i) == \A nm \in Names(b) : got[nm][i] = Value(b, p, nm)
\* the samples returned are sound ones, in order: match each with the first left
PastEnd(b, p) == /\ b[p + 2] \in {7, 15, 17, 18, 80, 113} /\ p + 4 <= Len(b)
                 /\ p + 2 * (b[p + 3] + 256 * b[p + 4]) > Len(b)
RECURSIVE Match(_, _, _, _, _)
Match(b, S, got, i, n) ==
  IF i > n THEN TRUE
  ELSE LET k == {j \in 1..Len(S) : Is(b, S[j], got, i)} IN
       IF k = {} THEN FALSE ELSE Match(b, SubSeq(S, N!Min(k) + 1, Len(S)), got, i + 1, n)
FailChecked(e) ==
  IF e.raised THEN IF e.mild THEN {"refused"} ELSE {}
  ELSE LET b == e.bytes
           S == TLCEval(Sound(b))
           got == e.out.vars
       IN IF ~(Names(b) \subseteq DOMAIN got /\ \A nm \in Names(b) : Len(got[nm]) = e.out.n) THEN {"variables-lost"} ELSE
          (IF Match(b, S, got, 1, e.out.n) THEN {} ELSE {"invented"})
          \* (an id damaged into that of a long configuration record can reach past the end,
          \* and so can foreign bytes that look like the start of a record)
          \cup (IF e.out.n >= Len(S) - e.faults \/ \E p \in 784..(Len(b) - 2) : b[p + 1] = 165 /\ (b[p + 2] \in {0, 4, 5} \/ PastEnd(b, p)) THEN {} ELSE {"more-lost-than-damaged"})
Failures(e) ==
  (CASE e.k = "pd0" -> P!FailRead(e) [] e.k = "ad2" -> A!FailAd2(e) [] e.k = "checked" -> FailChecked(e) [] OTHER -> N!FailNrt(e))
  \cup (IF e.filemut THEN {"file-changed"} ELSE {})
====

---- MODULE RotationTrace ----
\* conformance of recorded rotation histories
EXTENDS Rotation
\* a matrix that is no rotation (num / den) never turns a velocity
Det(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
        - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
        + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
HeadFailures(e) == LET proper == Det(e.m) = e.den * e.den * e.den IN
  (IF ~proper /\ ~e.raised THEN {"not-a-rotation-applied"} ELSE {})
  \cup (IF proper /\ e.raised THEN {"refused"} ELSE {})
Failures(e) == IF e.k = "turn" THEN HeadFailures(e) ELSE RotFailures(e)
====

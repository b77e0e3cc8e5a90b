---- MODULE MCClock ----
(* The calendar (day by day), paths through the representations, and the
   filling of missing times. *)
EXTENDS Clock, Json
CONSTANTS DLO, DHI, L, FN
VARIABLES c, d, path, x
vars == <<c, d, path, x>>
\* calendar ------------------------------------------------------------------
CInit == c = <<1889, 12, 31>> /\ d = DayNo(1889, 12, 31) /\ path = <<>> /\ x = <<>>
CNext == d < DHI /\ c' = NextDay(c) /\ d' = d + 1 /\ UNCHANGED <<path, x>>
CalendarOk == DayNo(c[1], c[2], c[3]) = d
Anchors == /\ DayNo(1970, 1, 1) = 0 /\ DayNo(2000, 3, 1) = 11017 /\ DayNo(1969, 12, 31) = -1
           /\ DayNo(2012, 6, 12) = 15503
\* paths ---------------------------------------------------------------------
Rep == {"dt64", "epoch", "date", "datenum"}
PInit == c = <<>> /\ d = 0 /\ x = <<>> /\ \E r \in Rep : path = <<r>>
At(p) == IF Len(p) = 1 THEN p[1] ELSE Conv[p[Len(p)]][2]
PNext == /\ Len(path) <= L
         /\ \E f \in DOMAIN Conv : Conv[f][1] = At(path) /\ f # "epoch2str" /\ path' = Append(path, f)
         /\ UNCHANGED <<c, d, x>>
Typed == At(path) \in Rep \cup {"str"}
PExport == Len(path) > 1 => PrintT("CASE " \o ToJson(path))
\* filling -------------------------------------------------------------------
Steps == <<0, 2, 3, 7, 8, 10, 13, 14, 20>>
FInit == /\ c = <<>> /\ d = 0 /\ path = <<>>
         /\ \E n \in 1..FN : \E m \in [1..n -> BOOLEAN] :
               x = [i \in 1..n |-> IF m[i] THEN NAN ELSE Steps[i]]
FNext == UNCHANGED vars
FillLaws == Valid(x) # {} =>
  LET r == [i \in 1..Len(x) |-> FillR(x, 2, i)] IN
  /\ \A i \in Valid(x) : r[i] = <<x[i], 1>>
  /\ \A i \in 1..(Len(x) - 1) : RLt(r[i], r[i + 1])
  \* inside one gap the spacing is constant
  /\ \A i \in 2..(Len(x) - 1) : i \notin Valid(x) => RSub(r[i], r[i - 1]) = RSub(r[i + 1], r[i])
                                 \/ i + 1 > Len(x)
                                 \/ (Min(Valid(x)) > i) \/ (Max(Valid(x)) < i)
FExport == PrintT("CASE " \o ToJson([x |-> x]))
====

---- MODULE Clock ----
(* Instants and their representations.  An instant is <<day, sec, ns>>: days
   since 1970-01-01 (negative before), second of the day, nanosecond.  Civil
   dates are <<y, m, d, H, M, S, us>>.  Every conversion is a relation between
   instants with the resolution of the coarser representation. *)
EXTENDS Num
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
\* leap days in the years before y
LeapsBefore(y) == ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
DayNo(y, m, d) == (y - 1970) * 365 + LeapsBefore(y) - LeapsBefore(1970)
                   + Sum([k \in 1..(m - 1) |-> MLen(y, k)]) + d - 1
NextDay(c) == IF c[3] < MLen(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
              ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>
InstantOf(c) == <<DayNo(c[1], c[2], c[3]), c[4] * 3600 + c[5] * 60 + c[6], c[7] * 1000>>
\* b - a in ns, saturated at 2 s
Far == 2100000000
Diff(a, b) == LET dd == b[1] - a[1] IN
              IF Abs(dd) > 1 THEN Far ELSE
              LET s == dd * 86400 + b[2] - a[2] IN
              IF Abs(s) > 1 THEN Far ELSE s * 1000000000 + (b[3] - a[3])
Within(a, b, tol) == Abs(Diff(a, b)) <= tol
AddSec(a, s) == LET t == a[2] + s IN <<a[1] + (t \div 86400), t % 86400, a[3]>>

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Pad(_, _)
Pad(n, w) == IF w = 0 THEN "" ELSE Pad(n \div 10, w - 1) \o Digit[(n % 10) + 1]
Text(c) == Pad(c[1], 4) \o "-" \o Pad(c[2], 2) \o "-" \o Pad(c[3], 2) \o " " \o
           Pad(c[4], 2) \o ":" \o Pad(c[5], 2) \o ":" \o Pad(c[6], 2) \o "." \o Pad(c[7], 6)

\* conversions: <<from, to>>
Conv == [dt642epoch |-> <<"dt64", "epoch">>, epoch2dt64 |-> <<"epoch", "dt64">>,
         date2dt64 |-> <<"date", "dt64">>, dt642date |-> <<"dt64", "date">>,
         epoch2date |-> <<"epoch", "date">>, date2epoch |-> <<"date", "epoch">>,
         date2matlab |-> <<"date", "datenum">>, matlab2date |-> <<"datenum", "date">>,
         date2str |-> <<"date", "str">>, epoch2str |-> <<"epoch", "str">>]
\* resolution of each conversion, ns: float epoch seconds carry about half a
\* microsecond, datetime one, datenum ten (and is read back to a hundred)
Tol(f) == CASE f = "dt642epoch" -> 600 [] f = "epoch2dt64" -> 2 [] f = "date2dt64" -> 0
            [] f = "dt642date" -> 999 [] f = "epoch2date" -> 501 [] f = "date2epoch" -> 300
            [] f = "date2matlab" -> 15100 [] f = "matlab2date" -> 50600
            [] f = "date2str" -> 0 [] f = "epoch2str" -> 501
Coarse(f) == f \in {"date2matlab", "matlab2date"}
IsMissing(x) == x = <<NAN>>
Inst(rep, x) == IF rep = "date" THEN InstantOf(x) ELSE x
\* one hop: e.f, e.x (values in), e.y (values out), each a sequence
HopOk(f, x, y, off) ==
  LET r == Conv[f] IN
  IF r[2] = "str" /\ IsMissing(x) THEN FALSE
  ELSE IF r[2] # "str" /\ IsMissing(x) THEN IsMissing(y)
  ELSE /\ r[2] = "str" \/ ~IsMissing(y)
       /\ IF r[2] = "str"
          THEN IF r[1] = "date" THEN y = Text(x)
               ELSE TRUE                             \* through its own datetime, below
          ELSE Within(AddSec(Inst(r[1], x), off), Inst(r[2], y), Tol(f))
FailHop(e) ==
  IF e.raised THEN (IF \E i \in 1..Len(e.x) : IsMissing(e.x[i]) /\ Conv[e.f][2] \in {"date", "str"}
                    THEN {} ELSE {"refused"}) ELSE
  (IF Len(e.y) = Len(e.x) THEN {} ELSE {"count"})
  \cup (IF Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) : HopOk(e.f, e.x[i], e.y[i], e.off) THEN {}
        ELSE {"shifted-" \o e.f})
  \cup (IF e.mut THEN {"input-changed"} ELSE {})
\* a whole path returns the same instant within its coarsest resolution; times
\* on the datenum grid come back exactly
FailPath(e) ==
  IF e.raised THEN {"refused"} ELSE
  LET coarse == \E i \in 1..Len(e.fs) : Coarse(e.fs[i])
      ongrid(x) == x[3] % 100000 = 0
      tol(x) == IF ~coarse THEN 1200 * Len(e.fs)
                ELSE IF e.last = "date" /\ ongrid(x) THEN 0
                ELSE IF e.last = "datenum" THEN 70000 ELSE 70000 IN
  IF Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) :
        Within(Inst(e.first, e.x[i]), Inst(e.last, e.y[i]), tol(Inst(e.first, e.x[i]))) THEN {} ELSE {"composition"}
\* the whole-microsecond instant a datetime names is kept exactly by every fine path
FailExact(e) ==
  IF e.raised THEN {"refused"} ELSE
  IF \A i \in 1..Len(e.x) : e.y[i] = e.x[i] THEN {} ELSE {"round-trip"}
\* text of an epoch time is the text of its datetime
FailText(e) == IF e.raised THEN {"refused"} ELSE
  IF Len(e.y) = Len(e.d) /\ \A i \in 1..Len(e.d) : e.y[i] = Text(e.d[i]) THEN {} ELSE {"text"}

\* two-digit years
FullYear(y) == IF y > 100 THEN y ELSE IF y < 90 THEN 2000 + y ELSE 1900 + y
FailYear(e) == IF e.y = FullYear(e.x) THEN {} ELSE {"full-year"}

\* ---- filling missing times -------------------------------------------------
\* e.x: times (integer units, NAN missing), e.step: units per sample, e.y result
\* times the scale e.sc
Valid(x) == {i \in 1..Len(x) : x[i] # NAN}
FillR(x, step, i) ==
  LET V == Valid(x)
      lo == {j \in V : j <= i}
      hi == {j \in V : j >= i} IN
  IF lo = {} THEN LET h == Min(V) IN <<x[h] - (h - i) * step, 1>>
  ELSE IF hi = {} THEN LET l == Max(V) IN <<x[l] + (i - l) * step, 1>>
  ELSE LET l == Max(lo) h == Min(hi) IN
       IF l = h THEN <<x[i], 1>> ELSE RAdd(<<x[l], 1>>, Rat((x[h] - x[l]) * (i - l), h - l))
FailFill(e) ==
  IF Valid(e.x) = {} THEN (IF e.raised \/ \A i \in 1..Len(e.y) : e.y[i] = NAN THEN {} ELSE {"invented"}) ELSE
  IF e.raised THEN {"refused"} ELSE
  (IF Len(e.y) = Len(e.x) THEN {} ELSE {"count"})
  \cup (IF Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) : Close(e.y[i], RScaled(FillR(e.x, e.step, i), e.sc), 1)
        THEN {} ELSE {"filled-time"})
  \cup (IF \A i \in Valid(e.x) : i <= Len(e.y) => Close(e.y[i], e.x[i] * e.sc, 1) THEN {} ELSE {"valid-time-changed"})
====

---- MODULE Gaps ----
(* Runs of true values, gaps of missing samples, and the tools that find and
   fill them. *)
EXTENDS Num, Json
\* maximal runs of TRUE as <<first, stop>> 0-based half-open, in order
Starts(b) == {i \in 1..Len(b) : b[i] /\ (i = 1 \/ ~b[i - 1])}
EndOf(b, i) == Min({j \in i..Len(b) : j = Len(b) \/ ~b[j + 1]})
Runs(b) == [k \in 1..Cardinality(Starts(b)) |->
              LET i == SeqOfSet(Starts(b))[k] IN <<i - 1, EndOf(b, i)>>]
RunsMin(b, m) == SelectSeq(Runs(b), LAMBDA r : r[2] - r[1] >= m)

\* ---- filling: t are the sample positions; lim the longest gap filled
Missing(x) == [i \in 1..Len(x) |-> x[i] = NAN]
GapOf(x, i) == CHOOSE r \in ToSet(Runs(Missing(x))) : r[1] < i /\ i <= r[2]
RVal(v) == IF v = NAN THEN <<NAN, 1>> ELSE RInt(v)
FillAt(x, t, lim, ext, i) ==
  IF x[i] # NAN THEN RInt(x[i])
  ELSE LET g == GapOf(x, i)
           a == g[1]                    \* 1-based index of the neighbour before
           b == g[2] + 1                \* and after
           n == g[2] - g[1] IN
       IF n > lim \/ n = Len(x) THEN <<NAN, 1>>
       ELSE IF a = 0 THEN (IF ext THEN RInt(x[b]) ELSE <<NAN, 1>>)
       ELSE IF b > Len(x) THEN (IF ext THEN RInt(x[a]) ELSE <<NAN, 1>>)
       ELSE RAdd(RInt(x[a]), RMul(RInt(x[b] - x[a]), Rat(t[i] - t[a], t[b] - t[a])))
Fill(x, t, lim, ext) == [i \in 1..Len(x) |-> FillAt(x, t, lim, ext, i)]
Index(x) == [i \in 1..Len(x) |-> i]

ObsR(o, r, sc, tol) == IF r[1] = NAN THEN o = NAN ELSE Close(o, RScaled(r, sc), tol)
FillOk(x, o, t, lim, ext, sc) == LET f == Fill(x, t, lim, ext) IN
   Len(o) = Len(x) /\ \A i \in 1..Len(x) : ObsR(o[i], f[i], sc, 1)
FailFill(e) ==
  LET ok == \A r \in 1..Len(e.x) :
        FillOk(e.x[r], e.out[r], IF e.t = <<>> THEN Index(e.x[r]) ELSE e.t, e.lim, e.ext, e.sc)
      kept == \A r \in 1..Len(e.x) : \A i \in 1..Len(e.x[r]) :
        e.x[r][i] # NAN => e.out[r][i] = e.sc * e.x[r][i] IN
  (IF ok THEN {} ELSE {"gap-filling"}) \cup (IF kept /\ e.exact THEN {} ELSE {"good-sample-changed"})
FailGroup(e) == IF \A m \in 1..Len(e.runs) : e.runs[m] = RunsMin(e.b, m - 1) THEN {} ELSE {"runs"}
\* every 1-D slice along the axis once, in row-major order of the others
FailSlices(e) ==
  LET others == [k \in 1..(Len(e.shape) - 1) |-> IF k < e.axis THEN e.shape[k] ELSE e.shape[k + 1]]
      n == FoldLeft(LAMBDA a, b : a * b, 1, others)
      Idx(j) == [k \in 1..Len(others) |->
                   (j \div FoldLeft(LAMBDA a, b : a * b, 1, SubSeq(others, k + 1, Len(others)))) % others[k]]
  IN IF e.idx = [j \in 1..n |-> Idx(j - 1)] THEN {} ELSE {"slices"}
\* running median: zero beyond the edges; windows without missing samples are
\* exact; where more than thr/100 of the window is missing the result is missing
Window(x, i, k, r, w) ==   \* x rows; window of (2r+1) x (2w+1) around (i, k), row-major
  [p \in 1..((2 * r + 1) * (2 * w + 1)) |->
     LET ii == i - r + (p - 1) \div (2 * w + 1)
         kk == k - w + ((p - 1) % (2 * w + 1)) IN
     IF ii < 1 \/ ii > Len(x) \/ kk < 1 \/ kk > Len(x[1]) THEN 0 ELSE x[ii][kk]]
FailMed(e) ==
  IF \A i \in 1..Len(e.x) : \A k \in 1..Len(e.x[1]) :
       LET s == Window(e.x, i, k, e.r, e.w)
           nm == Len(SelectSeq(s, LAMBDA v : v = NAN)) IN
       IF nm = 0 THEN e.out[i][k] = SortSeqInt(s)[(Len(s) + 1) \div 2]
       ELSE IF e.thr > 0 /\ nm * 100 > e.thr * Len(s) THEN e.out[i][k] = NAN
       ELSE e.out[i][k] = NAN \/ e.out[i][k] \in ToSet(s)
  THEN {} ELSE {"running-median"}
FailGaps(e) == CASE e.k = "group" -> FailGroup(e) [] e.k = "fill" -> FailFill(e)
                 [] e.k = "slices" -> FailSlices(e) [] e.k = "med" -> FailMed(e)
====

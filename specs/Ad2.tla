---- MODULE Ad2 ----
(* An AD2CP file (Nortek Signature) as the sequence of bytes it is: packets behind
   ten-byte headers, told apart by their id, each holding one stream's share of an
   ensemble; which ensemble follows from the stream's own counter.  Decoded
   independently of the reader. *)
EXTENDS Bytes, TLC
Streams == {21, 22, 23, 24, 28}        \* a packet of each in every ensemble
Raws == {26, 31}                       \* now and then
Tag(id) == CASE id = 21 -> "" [] id = 22 -> "_avg" [] id = 23 -> "_bt" [] id = 24 -> "_b5" [] id = 28 -> "_echo"
             [] id = 26 -> "raw" [] OTHER -> "raw_avg"
Id(b, p) == b[p + 3]
Size(b, p) == U16(b, p + 4)
RECURSIVE PacketsFrom(_, _)
PacketsFrom(b, p) == IF p + 10 > Len(b) \/ b[p + 1] # 165 \/ p + 10 + Size(b, p) > Len(b) THEN <<>>
                     ELSE <<p>> \o PacketsFrom(b, p + 10 + Size(b, p))
Packets(b) == PacketsFrom(b, 0)
End(b, R) == IF R = <<>> THEN 0 ELSE R[Len(R)] + 10 + Size(b, R[Len(R)])
Of(b, R, id) == SelectSeq(R, LAMBDA p : Id(b, p) = id)
Counter(b, p) == U32(b, p + 10 + (IF Id(b, p) = 23 THEN 74 ELSE 72))
\* a counter that starts again goes on
RECURSIVE Unwrap(_, _, _)
Unwrap(cs, i, last) == IF i > Len(cs) THEN <<>>
  ELSE LET u == IF i > 1 /\ (cs[i] = 1 \/ cs[i] < last) THEN last + 1 ELSE cs[i] IN <<u>> \o Unwrap(cs, i + 1, u)
\* the keys of a stream's packets, the first of them 0
Keys(b, P) == LET cs == [i \in 1..Len(P) |-> Counter(b, P[i])] u == Unwrap(cs, 1, 0) IN [i \in 1..Len(P) |-> u[i] - u[1]]
\* ---- fields; p is where the packet's body starts
Flag(b, p, k) == Bit(U16(b, p + 2), k)
Cy(b, p) == U16(b, p + 30)
NC(b, id, p) == IF id = 28 THEN Cy(b, p) ELSE Cy(b, p) % 1024
NB(b, id, p) == IF id \in {24, 26, 31} THEN 1 ELSE Cy(b, p) \div 4096
Len2(b, id, p) == NB(b, id, p) * NC(b, id, p)
OVel(b, id, p) == p + (IF id = 23 THEN 78 ELSE 76)
OAmp(b, id, p) == OVel(b, id, p) + 2 * Flag(b, p, 5) * Len2(b, id, p)
OCorr(b, id, p) == OAmp(b, id, p) + Flag(b, p, 6) * Len2(b, id, p)
OLe(b, id, p) == OCorr(b, id, p) + Flag(b, p, 7) * Len2(b, id, p)
OAst(b, id, p) == OLe(b, id, p) + 8 * Flag(b, p, 8)
ORaw(b, id, p) == OAst(b, id, p) + 20 * Flag(b, p, 10)
NSamp(b, id, p) == U32(b, ORaw(b, id, p))
OAhrs(b, id, p) ==
  CASE id = 28 -> p + 76 + 2 * NC(b, id, p) * Flag(b, p, 11)
    [] id = 23 -> p + 78 + NB(b, id, p) * (4 * Flag(b, p, 5) + 4 * Flag(b, p, 8) + 2 * Flag(b, p, 9))
    [] OTHER -> ORaw(b, id, p) + (IF Flag(b, p, 9) = 1 THEN 6 + 2 * NSamp(b, id, p) ELSE 0)
OStd(b, id, p) == OAhrs(b, id, p) + 64 * Flag(b, p, 12) + NC(b, id, p) * Flag(b, p, 13)
HasAhrs(b, id, p) == Flag(b, p, IF id = 23 THEN 10 ELSE 12) = 1
Scale(b, id, p) == LET s == I8(b, p + (IF id = 23 THEN 60 ELSE 58)) IN IF s = -2 THEN 100 ELSE IF s = -3 THEN 10 ELSE 1
Names(b, id, p) ==
  {"c_sound", "temp", "pressure", "heading", "pitch", "roll", "mag", "accel", "batt", "temp_clock", "error", "status", "ensemble", "xmit_energy"}
  \cup (IF id = 23 THEN {} ELSE {"temp_press"})
  \cup (IF HasAhrs(b, id, p) THEN {"orientmat", "quaternions", "angrt"} ELSE {})
  \cup (IF id = 23 THEN (IF Flag(b, p, 5) = 1 THEN {"vel"} ELSE {}) \cup (IF Flag(b, p, 8) = 1 THEN {"dist"} ELSE {}) \cup (IF Flag(b, p, 9) = 1 THEN {"fom"} ELSE {})
        ELSE IF id = 28 THEN (IF Flag(b, p, 11) = 1 THEN {"echo"} ELSE {})
        ELSE (IF Flag(b, p, 5) = 1 THEN {"vel"} ELSE {}) \cup (IF Flag(b, p, 6) = 1 THEN {"amp"} ELSE {}) \cup (IF Flag(b, p, 7) = 1 THEN {"corr"} ELSE {})
             \cup (IF Flag(b, p, 8) = 1 THEN {"le_dist_alt", "le_quality_alt", "status_alt"} ELSE {})
             \cup (IF Flag(b, p, 10) = 1 THEN {"ast_dist_alt", "ast_quality_alt", "ast_offset_time_alt", "pressure_alt"} ELSE {})
             \cup (IF Flag(b, p, 9) = 1 THEN {"nsamp_alt", "dsamp_alt", "samp_alt"} ELSE {})
             \cup (IF Flag(b, p, 14) = 1 THEN {"pitch_std", "roll_std", "heading_std", "press_std"} ELSE {}))
Val(b, id, p, nm) ==
  LET nb == NB(b, id, p) nc == NC(b, id, p) bt == id = 23
      cell(k) == (k - 1) \div nb
      beam(k) == (k - 1) % nb
      at(k) == beam(k) * nc + cell(k)
  IN CASE nm = "c_sound" -> <<U16(b, p + 16)>> [] nm = "temp" -> <<I16(b, p + 18)>> [] nm = "pressure" -> <<U32(b, p + 20)>>
       [] nm = "heading" -> <<U16(b, p + 24)>> [] nm = "pitch" -> <<I16(b, p + 26)>> [] nm = "roll" -> <<I16(b, p + 28)>>
       [] nm = "temp_press" -> <<U8(b, p + 37)>> [] nm = "batt" -> <<U16(b, p + 38)>>
       [] nm = "mag" -> [i \in 1..3 |-> I16(b, p + 38 + 2 * i)] [] nm = "accel" -> [i \in 1..3 |-> I16(b, p + 44 + 2 * i)]
       [] nm = "xmit_energy" -> <<U16(b, p + (IF bt THEN 58 ELSE 56))>> [] nm = "temp_clock" -> <<I16(b, p + (IF bt THEN 64 ELSE 62))>>
       [] nm = "error" -> <<IF bt THEN U32(b, p + 66) ELSE U16(b, p + 64)>> [] nm = "status" -> <<U32(b, p + (IF bt THEN 70 ELSE 68))>>
       [] nm = "vel" -> IF bt THEN [i \in 1..nb |-> Scale(b, id, p) * I32(b, p + 74 + 4 * i)]
                        ELSE [k \in 1..(nb * nc) |-> Scale(b, id, p) * I16(b, OVel(b, id, p) + 2 * at(k))]
       [] nm = "amp" -> [k \in 1..(nb * nc) |-> U8(b, OAmp(b, id, p) + at(k))]
       [] nm = "corr" -> [k \in 1..(nb * nc) |-> U8(b, OCorr(b, id, p) + at(k))]
       [] nm = "dist" -> [i \in 1..nb |-> U32(b, p + 78 + 4 * nb * Flag(b, p, 5) + 4 * (i - 1))]
       [] nm = "fom" -> [i \in 1..nb |-> U16(b, p + 78 + 4 * nb * (Flag(b, p, 5) + Flag(b, p, 8)) + 2 * (i - 1))]
       [] nm = "echo" -> [i \in 1..nc |-> U16(b, p + 74 + 2 * i)]
       [] nm = "le_dist_alt" -> <<F32(b, OLe(b, id, p), 6)>> [] nm = "le_quality_alt" -> <<U16(b, OLe(b, id, p) + 4)>>
       [] nm = "status_alt" -> <<U16(b, OLe(b, id, p) + 6)>>
       [] nm = "ast_dist_alt" -> <<F32(b, OAst(b, id, p), 6)>> [] nm = "ast_quality_alt" -> <<U16(b, OAst(b, id, p) + 4)>>
       [] nm = "ast_offset_time_alt" -> <<I16(b, OAst(b, id, p) + 6)>> [] nm = "pressure_alt" -> <<F32(b, OAst(b, id, p) + 8, 6)>>
       [] nm = "nsamp_alt" -> <<NSamp(b, id, p)>> [] nm = "dsamp_alt" -> <<U16(b, ORaw(b, id, p) + 4)>>
       [] nm = "samp_alt" -> [i \in 1..NSamp(b, id, p) |-> I16(b, ORaw(b, id, p) + 4 + 2 * i)]
       \* earth by instrument: the packet's matrix is the other way about
       [] nm = "orientmat" -> [k \in 1..9 |-> F32(b, OAhrs(b, id, p) + 4 * (3 * ((k - 1) % 3) + (k - 1) \div 3), 6)]
       [] nm = "quaternions" -> [k \in 1..4 |-> F32(b, OAhrs(b, id, p) + 32 + 4 * k, 6)]
       [] nm = "angrt" -> [k \in 1..3 |-> F32(b, OAhrs(b, id, p) + 48 + 4 * k, 6)]
       [] nm = "pitch_std" -> <<I16(b, OStd(b, id, p))>> [] nm = "roll_std" -> <<I16(b, OStd(b, id, p) + 2)>>
       [] nm = "heading_std" -> <<I16(b, OStd(b, id, p) + 4)>> [] nm = "press_std" -> <<I16(b, OStd(b, id, p) + 6)>>
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysIn(y, m - 1) + DaysBefore(y, m - 1)
RECURSIVE YearDays(_)
YearDays(y) == IF y <= 2000 THEN 0 ELSE (IF IsLeap(y - 1) THEN 366 ELSE 365) + YearDays(y - 1)
\* <<seconds since 2000, 1/10000 s>>
TimeOf(b, p) ==
  LET y == 1900 + U8(b, p + 8) m == U8(b, p + 9) + 1
  IN <<((YearDays(y) + DaysBefore(y, m) + U8(b, p + 10) - 1) * 24 + U8(b, p + 11)) * 3600 + 60 * U8(b, p + 12) + U8(b, p + 13), U16(b, p + 14)>>
TimeOk(b, p) == ValidDate(1900 + U8(b, p + 8), U8(b, p + 9) + 1, U8(b, p + 10), U8(b, p + 11), U8(b, p + 12), U8(b, p + 13))
Near(a, b, t) == a - b <= t /\ b - a <= t
SameTime(t, x) == Len(t) = 2 /\ (t[1] - x[1]) \in -1..1 /\ Near((t[1] - x[1]) * 10000 + t[2], x[2], 1)
Red == {"c_sound", "temp", "pressure", "temp_press", "temp_clock", "batt"}
Ang == {"heading", "pitch", "roll"}
\* a value of the slant beams' and the vertical beam's packet in one
Mid2(nm, x, y) == IF nm \in Red THEN {x + y}
  ELSE LET d == (((y - x) + 54000) % 36000) - 18000 IN IF Near(d, -18000, 2) THEN {} ELSE {2 * x + d}
\* v in half units
SameMid(nm, v, x, y) == LET m == Mid2(nm, x, y) IN m = {} \/ \E w \in m : IF nm \in Red THEN v = w ELSE (v - w + 144000 + 2) % 72000 <= 4
Zero(v) == \A i \in 1..Len(v) : v[i] = 0 \/ v[i] = NANV
\* what one stream's variables are called
Called(id, nm, ids) ==
  IF id \in Raws THEN nm \o Tag(id)
  ELSE IF nm = "echo" THEN "echo"
  ELSE IF nm = "orientmat" /\ id = 22 /\ ids \cap {21} = {} THEN "orientmat"
  ELSE nm \o Tag(id)
Bool(x) == IF x THEN 1 ELSE 0
\* ---- one data set: streams ids of the file, E the ensembles to be seen: a function
\* from stream to a sequence with the body of the packet of each (-1: there is none)
FailSet(e, b, o, ids, E, start) ==
  LET both == {21, 24} \subseteq ids
      first(id) == E[id][CHOOSE i \in 1..Len(E[id]) : E[id][i] >= 0]
      named(id) == LET all == Names(b, id, first(id)) IN
        IF id \in Raws THEN (all \cap {"le_dist_alt", "le_quality_alt", "ast_dist_alt", "ast_quality_alt", "ast_offset_time_alt", "pressure_alt", "nsamp_alt", "dsamp_alt", "samp_alt"})
        ELSE (all \ (IF id = 24 /\ both THEN Red \cup Ang ELSE {}))
               \ (IF (id = 21 /\ 26 \in ids) \/ (id = 22 /\ 31 \in ids) THEN {"status_alt"} ELSE {})
      want == UNION {{Called(id, nm, ids) : nm \in named(id)} : id \in ids}
      status == IF 21 \in ids THEN 21 ELSE 22
      \* the averages of a dual-profile file carry no state of the instrument
      part == e.dp /\ 21 \notin ids
      sts == IF part THEN {} ELSE {"low_volt_skip", "active_config", "telemetry_data", "boost_running"}
      times == {"time" \o (CASE id = 26 -> "_altraw" [] id = 31 -> "_altraw_avg" [] OTHER -> Tag(id)) : id \in ids}
      ok(id, nm, i, v) ==
        LET p == E[id][i]
            p2 == IF both THEN (IF id = 21 THEN E[24][i] ELSE E[21][i]) ELSE -1
        IN IF nm = "ensemble" THEN e.dp \/ v = <<start + i>>
           ELSE IF both /\ id = 21 /\ nm \in Red \cup Ang THEN
                  (IF p >= 0 /\ p2 >= 0 THEN SameMid(nm, v[1], Val(b, 21, p, nm)[1], Val(b, 24, p2, nm)[1])
                   ELSE IF p >= 0 THEN SameMid(nm, v[1], Val(b, 21, p, nm)[1], Val(b, 21, p, nm)[1])
                   ELSE IF p2 >= 0 THEN SameMid(nm, v[1], Val(b, 24, p2, nm)[1], Val(b, 24, p2, nm)[1]) ELSE TRUE)
           ELSE IF p < 0 THEN Zero(v)
           ELSE IF nm \in Red \cup Ang THEN SameMid(nm, v[1], Val(b, id, p, nm)[1], Val(b, id, p, nm)[1])
           ELSE IF nm = "mag" /\ id = 23 THEN v = Val(b, id, p, nm) \/ v = [i_ \in 1..3 |-> 10 * Val(b, id, p, nm)[i_]]
           ELSE v = Val(b, id, p, nm)
      bad(id) == {Called(id, nm, ids) : nm \in {x \in named(id) : Called(id, x, ids) \in DOMAIN o.vars
                    /\ ~(Len(o.vars[Called(id, x, ids)]) = Len(E[id]) /\ \A i \in 1..Len(E[id]) : ok(id, x, i, o.vars[Called(id, x, ids)][i]))}}
      tm(id) == "time" \o (CASE id = 26 -> "_altraw" [] id = 31 -> "_altraw_avg" [] OTHER -> Tag(id))
      badtime(id) == ~(tm(id) \in DOMAIN o.vars /\ Len(o.vars[tm(id)]) = Len(E[id])
                      /\ \A i \in 1..Len(E[id]) : E[id][i] >= 0 /\ TimeOk(b, E[id][i]) => SameTime(o.vars[tm(id)][i], TimeOf(b, E[id][i])))
      st(nm, p) == LET s == U32(b, p + 68) IN CASE nm = "low_volt_skip" -> Bit(s, 17) [] nm = "active_config" -> Bit(s, 16)
                                                [] nm = "telemetry_data" -> Bit(s, 11) [] OTHER -> Bit(s, 10)
      p1(id) == first(id)
      att(id) == LET p == p1(id) t == IF id \in Raws THEN "_alt" \o (IF id = 31 THEN "_avg" ELSE "") ELSE Tag(id) IN
        [n_beams |-> <<"n_beams" \o t, Cy(b, p) \div 4096>>,
         cell |-> <<"cell_size" \o t, U16(b, p + 32)>>,
         blank |-> <<"blank_dist" \o t, U16(b, p + 34) * (IF id = 28 THEN 1 ELSE 10)>>,
         nominal_corr |-> <<"nominal_corr" \o t, U8(b, p + 36)>>,
         ambig |-> <<"ambig_vel" \o t, IF id = 23 THEN U32(b, p + 52) ELSE U16(b, p + 52)>>,
         power |-> <<"power_level_dB" \o t, I8(b, p + (IF id = 23 THEN 61 ELSE 59))>>,
         serial |-> <<"SerialNum" \o t, U32(b, p + 4)>>]
      badatt(id) == id \notin Raws /\ 2 * Cardinality({i \in 1..Len(E[id]) : E[id][i] >= 0}) > Len(E[id]) /\ \E k \in DOMAIN att(id) \ (IF id = 28 THEN {"n_beams"} ELSE {}) :
            ~(att(id)[k][1] \in DOMAIN o.attrs /\ o.attrs[att(id)[k][1]] = att(id)[k][2])
      \* what the flags say the packets hold (bottom track has a table of its own, not judged)
      cfgbits(id) == LET x == U16(b, p1(id) + 2) IN FoldLeft(LAMBDA a, i : a + (IF Bit(x, i) = 1 THEN 2^i ELSE 0), 0, <<0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14>>)
      badcfg(id) == id # 23 /\ LET a == "burst_config" \o (IF id \in Raws THEN "_alt" \o (IF id = 31 THEN "_avg" ELSE "") ELSE Tag(id)) IN
                    ~(a \in DOMAIN o.attrs /\ o.attrs[a] = cfgbits(id))
      \* the altimeter's own state
      badalt(id) == LET x == U16(b, OLe(b, id, p1(id)) + 6) t == IF id = 31 THEN "_avg" ELSE "" IN
                    "le_dist_alt" \in Names(b, id, p1(id)) /\
                    ~({"tilt_over_5deg" \o t, "tilt_over_10deg" \o t, "multibeam_alt" \o t, "power_level_alt" \o t} \subseteq DOMAIN o.attrs
                      /\ o.attrs["tilt_over_5deg" \o t] = Bit(x, 0) /\ o.attrs["tilt_over_10deg" \o t] = Bit(x, 1) /\ o.attrs["multibeam_alt" \o t] = Bit(x, 2)
                      /\ o.attrs["power_level_alt" \o t] = <<"high", "med-high", "med-low", "low">>[Bits(x, 7, 3) + 1])
      i0 == U16(b, p1(status) + 66)
      idle == {"proc_idle_less_3pct", "proc_idle_less_6pct", "proc_idle_less_12pct"}
      cyid == IF 21 \in ids THEN 21 ELSE 22
      cs == <<"earth", "inst", "beam">>[Bits(Cy(b, p1(cyid)), 10, 2) + 1]
      s0 == U32(b, p1(status) + 68)
      rng(id) == [k \in 1..NC(b, id, p1(id)) |-> k * U16(b, p1(id) + 32) + U16(b, p1(id) + 34) * (IF id = 28 THEN 1 ELSE 10)]
      rot == {nm \in want : nm \in {"vel", "vel_bt", "vel_avg"} \/ \E x \in {"accel", "mag", "angrt"} : \E id \in ids : nm = x \o Tag(id)}
  IN (IF want \cup sts \subseteq DOMAIN o.vars THEN {} ELSE {"variables-lost"})
     \cup (IF DOMAIN o.vars \subseteq want \cup sts \cup times \cup {"time", "orientmat"} THEN {} ELSE {"variables-invented"})
     \cup UNION {bad(id) : id \in ids}
     \cup UNION {IF badtime(id) THEN {tm(id)} ELSE {} : id \in ids}
     \cup (IF \A nm \in sts \cap DOMAIN o.vars : Len(o.vars[nm]) = Len(E[status])
              /\ \A i \in 1..Len(E[status]) : E[status][i] >= 0 => o.vars[nm][i] = <<st(nm, E[status][i])>> THEN {} ELSE {"status-bits"})
     \cup (IF \E id \in ids : badatt(id) THEN {"stream-attributes"} ELSE {})
     \cup (IF \E id \in ids : badcfg(id) THEN {"flags-of-the-packets"} ELSE {})
     \cup (IF \E id \in ids \cap Raws : badalt(id) THEN {"altimeter-status"} ELSE {})
     \cup (IF part \/ o.attrs["wakeup_state"] = <<"bad power", "power on", "break", "clock">>[Bits(s0, 28, 4) + 1] THEN {} ELSE {"wakeup-state"})
     \cup (IF part THEN {} ELSE IF Bit(i0, 15) = 1 THEN (IF idle \subseteq DOMAIN o.attrs /\ o.attrs["proc_idle_less_3pct"] = Bit(i0, 0)
                                       /\ o.attrs["proc_idle_less_6pct"] = Bit(i0, 1) /\ o.attrs["proc_idle_less_12pct"] = Bit(i0, 2) THEN {} ELSE {"idle-state"})
            ELSE (IF idle \cap DOMAIN o.attrs = {} THEN {} ELSE {"idle-state"}))
     \cup (IF o.attrs["coord_sys"] = cs THEN {} ELSE {"frame"})
     \cup (IF o.attrs["orientation"] = (CASE Bits(s0, 25, 3) = 4 -> "up" [] Bits(s0, 25, 3) = 5 -> "down" [] Bits(s0, 25, 3) = 7 -> "AHRS" [] OTHER -> "horizontal")
              /\ o.attrs["orient_status"] = (CASE Bits(s0, 22, 3) = 0 -> "fixed" [] Bits(s0, 22, 3) = 1 -> "auto_UD" [] OTHER -> "AHRS-3D") THEN {} ELSE {"mounting"})
     \cup (IF \A id \in ids \cap {21, 22, 24, 28} : o.ranges["range" \o Tag(id)] = rng(id) THEN {} ELSE {"range"})
     \cup (IF {o.rotate[i] : i \in 1..Len(o.rotate)} = rot THEN {} ELSE {"rotated-variables"})
     \cup (IF o.attrs["has_imu"] = Bool(\E id \in ids : id \in {21, 22} /\ HasAhrs(b, id, p1(id))) THEN {} ELSE {"imu-flag"})
     \cup (IF o.matrix = e.matrix /\ o.attrs["beam_angle"] = e.theta THEN {} ELSE {"geometry"})
     \* bursts come at their sampling rate, averages once in a measurement interval
     \* (fs in millionths of a Hertz)
     \cup (IF IF 21 \in ids THEN o.attrs["fs"] = e.sr * 1000000
             ELSE o.attrs["fs"] <= 1000000 \div e.mi + 1 /\ Near(o.attrs["fs"] * e.mi, 1000000, e.mi) THEN {} ELSE {"rate"})
     \cup (IF 22 \in ids /\ ~e.dp => o.attrs["avg_interval_sec"] = e.ai THEN {} ELSE {"averaging-interval"})
\* ---- the whole of it
FailAd2(e) ==
  LET b == e.bytes
      R == TLCEval(Packets(b))
      ids == {Id(b, R[i]) : i \in 1..Len(R)} \cap Streams
      dp == {21, 22} \subseteq ids
      P == TLCEval([id \in ids \cup Raws |-> Of(b, R, id)])
      K == TLCEval([id \in ids |-> Keys(b, P[id])])
      keys == TLCEval(SetToSortSeq(UNION {Range(K[id]) : id \in ids}, <))
      at(id, k) == IF \E i \in 1..Len(P[id]) : K[id][i] = k THEN P[id][CHOOSE i \in 1..Len(P[id]) : K[id][i] = k] + 10 ELSE -1
      open(k) == Min({at(id, k) : id \in ids} \ {-1}) - 10
      N == Len(keys)
      torn == End(b, R) # Len(b)
      start(j) == open(keys[j])
      size(j) == start(j + 1) - start(j)
      often(s) == Cardinality({j \in 1..(N - 1) : size(j) = s})
      \* the last ensemble is taken for whole if it is as long as most are
      must == ~(torn /\ N > 0 /\ Len(b) >= End(b, R) + 80 /\ Id(b, End(b, R)) # Id(b, start(N)))
              /\ (N = 1 \/ \E len \in {End(b, R), Len(b)} : \A j \in 1..(N - 1) : size(j) = len - start(N) \/ often(size(j)) < often(len - start(N)))
      Rof(id, lo, hi) == SelectSeq(P[id], LAMBDA p : (lo = 1 \/ p >= open(keys[lo])) /\ (hi >= N \/ p < open(keys[hi + 1])))
      try(total) ==
        LET stop == IF e.nens >= 0 /\ e.nens < total THEN e.nens ELSE total
            E == [id \in ids |-> [j \in 1..(stop - e.start) |-> at(id, keys[e.start + j])]]
            raws == {id \in Raws : Rof(id, e.start + 1, stop) # <<>>}
            All == [id \in ids \cup raws |-> IF id \in ids THEN E[id] ELSE [i \in 1..Len(Rof(id, e.start + 1, stop)) |-> Rof(id, e.start + 1, stop)[i] + 10]]
            seen == {id \in ids : \E j \in 1..Len(E[id]) : E[id][j] >= 0}
        IN IF seen # ids THEN {}    \* a stream without any packet here
           ELSE FailSet(e, b, e.out[1], ids \cup raws, All, e.start)
      \* two profiles: each a data set; Q, the packets to be seen
      split(Q) ==
        LET g(s) == s \cap (ids \cup {id \in Raws : P[id] # <<>>})
            body(id) == LET w == SelectSeq(P[id], LAMBDA p : p \in Q) IN [i \in 1..Len(w) |-> w[i] + 10]
        IN FailSet(e, b, e.out[1], g({21, 24, 26}), [id \in g({21, 24, 26}) |-> body(id)], 0)
           \cup FailSet(e, b, e.out[2], g({22, 31}), [id \in g({22, 31}) |-> body(id)], 0)
      \* ... the last block of packets (a slant and a vertical ping; an average) may be let go
      lastof == Max({P[id][Len(P[id])] : id \in ids \ {24}})
      few == LET n == IF N > 1 THEN N - 1 ELSE N IN IF e.nens >= 0 /\ e.nens < n THEN e.nens ELSE n
      \* a stream without any usable clock where we look
      noclock == \E id \in ids : \A j \in (e.start + 1)..few : at(id, keys[j]) < 0 \/ ~TimeOk(b, at(id, keys[j]))
      least == IF N = 1 THEN 1 ELSE IF N = 0 THEN 0 ELSE N - 1
  IN IF ids = {} \/ ids \cap {21, 22} = {} \/ e.start >= least THEN {}
     ELSE IF e.raised THEN (IF (torn /\ N < 2) \/ noclock THEN {} ELSE {"refused"})
     ELSE IF dp THEN (IF Len(e.out) # 2 THEN {"data-sets"} ELSE
                    LET full == split(Range(R)) less == IF full = {} THEN {} ELSE split({p \in Range(R) : p < lastof}) IN
                    IF less = {} THEN {} ELSE full)
     ELSE IF Len(e.out) # 1 THEN {"data-sets"}
     ELSE LET full == try(N) IN
          IF full = {} \/ must THEN full
          ELSE LET less == try(N - 1) IN IF Cardinality(less) < Cardinality(full) THEN less ELSE full
====

---- MODULE Pd0 ----
(* A TRDI PD0 file as the sequence of bytes it is, decoded independently of the
   reader: the ensembles are the stretches that start with 7F7F, are complete and
   carry a right checksum; their blocks are found through the recorded offsets and
   their fields by the documented layout.  Values are in the integer units they are
   stored in; NANV marks a missing one. *)
EXTENDS Bytes, TLC
Good(b, p) ==
  /\ p + 6 <= Len(b) /\ b[p + 1] = 127 /\ b[p + 2] = 127
  /\ LET n == U16(b, p + 2) IN
       /\ n >= 6 /\ n < 32768 /\ p + n + 2 <= Len(b)
       /\ ByteSum(b, p, n) % 65536 = U16(b, p + n)
Cand(b) == {p \in 0..(Len(b) - 6) : b[p + 1] = 127 /\ b[p + 2] = 127 /\ Good(b, p)}
RECURSIVE Walk(_, _, _)
Walk(b, c, p) == LET s == {x \in c : x >= p} IN
  IF s = {} THEN <<>> ELSE LET x == Min(s) IN <<x>> \o Walk(b, c, x + U16(b, x + 2) + 2)
Starts(b) == Walk(b, Cand(b), 0)
\* blocks of the ensemble at p
NDat(b, p) == U8(b, p + 5)
Off(b, p, i) == U16(b, p + 4 + 2 * i)
BlkEnd(b, p, i) == IF i < NDat(b, p) THEN p + Off(b, p, i + 1) ELSE p + U16(b, p + 2) - 2
BlkIds(b, p) == {U16(b, p + Off(b, p, i)) : i \in 1..NDat(b, p)}
\* [at, len] of the last block with this id (at = -1: none)
Blk(b, p, id) ==
  LET s == {i \in 1..NDat(b, p) : U16(b, p + Off(b, p, i)) = id} IN
  IF s = {} THEN [at |-> -1, len |-> 0]
  ELSE LET i == Max(s) IN [at |-> p + Off(b, p, i), len |-> BlkEnd(b, p, i) - p - Off(b, p, i)]
Family(v) == IF v \in {4, 5} THEN "bb" ELSE IF v \in {14, 23} THEN "os" ELSE "wh"
Cells(b, p) == U8(b, Blk(b, p, 0).at + 9)
SLCells(b, p) == U8(b, Blk(b, p, 16).at + 2)
Missing(n) == [i \in 1..n |-> NANV]
Quad(b, o, w, f(_, _)) == [i \in 1..4 |-> f(b, o + w * (i - 1))]
BadToNan(v) == IF v = -32768 THEN NANV ELSE v
\* n cells of four beams, to nc cells
Grid(b, k, n, nc, w, f(_, _)) ==
  [i \in 1..(4 * nc) |-> IF k.at < 0 \/ i > 4 * n THEN NANV ELSE f(b, k.at + 2 + w * (i - 1))]
BI16(b, p) == BadToNan(I16(b, p))
\* the clock: date and hundredths
Clk(b, p) ==
  LET k == Blk(b, p, 128)
      fam == Family(U8(b, Blk(b, p, 0).at + 2))
      cent == fam # "os" /\ k.len >= 65
      o == IF cent THEN k.at + 58 ELSE k.at + 4
      yr == IF cent THEN 100 * U8(b, k.at + 57) + U8(b, o) ELSE 2000 + U8(b, o)
      y == IF yr < 100 THEN 2000 + yr ELSE yr
  IN IF ValidDate(y, U8(b, o + 1), U8(b, o + 2), U8(b, o + 3), U8(b, o + 4), U8(b, o + 5)) /\ U8(b, o + 6) < 100
     THEN <<y>> \o [i \in 1..6 |-> U8(b, o + i)] ELSE <<NANV>>
RECURSIVE BinDec(_)
BinDec(n) == IF n = 0 THEN 0 ELSE (n % 2) + 10 * BinDec(n \div 2)
HasP(b, p) == Family(U8(b, Blk(b, p, 0).at + 2)) = "wh" /\ Blk(b, p, 128).len >= 56
\* the NMEA blocks of WinRiver: the last one of a kind; a short one holds no data
Nmea(b, p, ids, lim) ==
  LET s == {i \in 1..NDat(b, p) : /\ U16(b, p + Off(b, p, i)) = 8226
                                  /\ U16(b, p + Off(b, p, i) + 2) \in ids
                                  /\ U16(b, p + Off(b, p, i) + 4) > lim} IN
  IF s = {} THEN -1 ELSE p + Off(b, p, Max(s))
NmeaAny(b, p, ids) == \E i \in 1..NDat(b, p) : U16(b, p + Off(b, p, i)) = 8226 /\ U16(b, p + Off(b, p, i) + 2) \in ids
GGA(b, p) == Nmea(b, p, {4, 104}, 43)
\* the first WinRiver hid the position in the bottom-track block
Wr1Ids == 8448..8452
HasWr1(b, p) == BlkIds(b, p) \cap Wr1Ids # {}
Wr1Lat(b, p) == LET k == Blk(b, p, 1536).at IN
  IF k < 0 \/ U8(b, k + 64) = 0 \/ I32(b, k + 12) = 0 THEN NANV ELSE I32(b, k + 12) \div 1048576
Wr1Lon(b, p) == LET k == Blk(b, p, 1536).at
                    h == U16(b, k + 46) \div 16
                IN IF k < 0 \/ U8(b, k + 64) = 0 \/ (U16(b, k + 46) = 0 /\ U16(b, k + 4) = 0) THEN NANV
                   ELSE IF h > 2048 THEN h - 4096 ELSE h
Sgn(c) == IF c \in {83, 87} THEN -1 ELSE 1
\* time of the last position: <<year, month, day, millisecond of the day>>
GpsClock(b, p) ==
  LET v == Blk(b, p, 8192)
      g == GGA(b, p)
      c == Clk(b, p)
      o == g + 21
  IN IF v.at >= 0 THEN <<U16(b, v.at + 4), U8(b, v.at + 3), U8(b, v.at + 2), U32(b, v.at + 22) \div 10>>
     ELSE IF g >= 0 THEN <<c[1], c[2], c[3],
        3600000 * (10 * Digit(b[o + 1]) + Digit(b[o + 2])) + 60000 * (10 * Digit(b[o + 3]) + Digit(b[o + 4]))
        + 1000 * (10 * Digit(b[o + 5]) + Digit(b[o + 6])) + 100 * Digit(b[o + 8]) + 10 * Digit(b[o + 9])>>
     ELSE <<NANV>>
Fld(b, p, id, f(_, _), o) == LET k == Blk(b, p, id) IN IF k.at < 0 THEN <<NANV>> ELSE <<f(b, k.at + o)>>
\* value of a variable in the ensemble at p (nc, ns: cells of the profile and of
\* the surface layer in the result)
Val(b, p, nm, nc, ns) ==
  LET l == Blk(b, p, 128).at
      bt == Blk(b, p, 1536)
      g == GGA(b, p)
      t == Nmea(b, p, {5, 105}, 22)
      d == Nmea(b, p, {6, 106}, 20)
      h == Nmea(b, p, {7, 107}, 14)
      v == Blk(b, p, 8192).at
      one(x) == <<x>>
      gg(x) == IF v < 0 /\ g < 0 THEN <<NANV>> ELSE <<x>>
  IN CASE nm = "time" -> Clk(b, p)
  [] nm = "number" -> one(U16(b, l + 2) + 65536 * U8(b, l + 11))
  [] nm = "builtin_test_fail" -> one(IF U16(b, l + 12) = 0 THEN 0 ELSE 1)
  [] nm = "c_sound" -> one(U16(b, l + 14))
  [] nm = "depth" -> one(U16(b, l + 16))
  [] nm = "heading" -> one(U16(b, l + 18))
  [] nm = "pitch" -> one(I16(b, l + 20))
  [] nm = "roll" -> one(I16(b, l + 22))
  [] nm = "salinity" -> one(I16(b, l + 24))
  [] nm = "temp" -> one(I16(b, l + 26))
  [] nm = "min_preping_wait" -> one(6000 * U8(b, l + 28) + 100 * U8(b, l + 29) + U8(b, l + 30))
  [] nm = "heading_std" -> one(U8(b, l + 31))
  [] nm = "pitch_std" -> one(U8(b, l + 32))
  [] nm = "roll_std" -> one(U8(b, l + 33))
  [] nm = "pressure" -> IF HasP(b, p) THEN one(U32(b, l + 48)) ELSE <<NANV>>
  [] nm = "pressure_std" -> IF HasP(b, p) THEN one(U32(b, l + 52)) ELSE <<NANV>>
  [] nm = "vel" -> Grid(b, Blk(b, p, 256), Cells(b, p), nc, 2, BI16)
  [] nm = "corr" -> Grid(b, Blk(b, p, 512), Cells(b, p), nc, 1, U8)
  [] nm = "amp" -> Grid(b, Blk(b, p, 768), Cells(b, p), nc, 1, U8)
  [] nm = "prcnt_gd" -> Grid(b, Blk(b, p, 1024), Cells(b, p), nc, 1, U8)
  [] nm = "status" -> Grid(b, Blk(b, p, 1280), Cells(b, p), nc, 1, U8)
  [] nm = "vel_sl" -> Grid(b, Blk(b, p, 272), ns, ns, 2, BI16)
  [] nm = "corr_sl" -> Grid(b, Blk(b, p, 528), ns, ns, 1, U8)
  [] nm = "amp_sl" -> Grid(b, Blk(b, p, 784), ns, ns, 1, U8)
  [] nm = "prcnt_gd_sl" -> Grid(b, Blk(b, p, 1040), ns, ns, 1, U8)
  [] nm = "status_sl" -> Grid(b, Blk(b, p, 1296), ns, ns, 1, U8)
  [] nm = "dist_bt" -> IF bt.at < 0 THEN Missing(4)
       ELSE [i \in 1..4 |-> U16(b, bt.at + 14 + 2 * i) + (IF bt.len >= 81 THEN 65536 * U8(b, bt.at + 76 + i) ELSE 0)]
  [] nm = "vel_bt" -> IF bt.at < 0 THEN Missing(4) ELSE Quad(b, bt.at + 24, 2, BI16)
  [] nm = "corr_bt" -> IF bt.at < 0 THEN Missing(4) ELSE Quad(b, bt.at + 32, 1, U8)
  [] nm = "amp_bt" -> IF bt.at < 0 THEN Missing(4) ELSE Quad(b, bt.at + 36, 1, U8)
  [] nm = "prcnt_gd_bt" -> IF bt.at < 0 THEN Missing(4) ELSE Quad(b, bt.at + 40, 1, U8)
  [] nm = "alt_eval" -> Fld(b, p, 16640, U8, 2)
  [] nm = "alt_rssi" -> Fld(b, p, 16640, U8, 3)
  [] nm = "alt_dist" -> Fld(b, p, 16640, U32, 4)
  [] nm = "alt_status" -> Fld(b, p, 16640, U8, 8)
  [] nm = "dist_nmea" -> IF d < 0 THEN <<NANV>> ELSE one(F32(b, d + 26, 4))
  \* per position fix
  [] nm = "time_gps" -> GpsClock(b, p)
  [] nm = "hdwtime_gps" -> Clk(b, p)
  [] nm = "clock_offset_UTC_gps" -> Fld(b, p, 8192, I32, 10)
  [] nm = "latitude_gps" -> gg(IF v >= 0 THEN I32(b, v + 26) \div 1048576 ELSE Sgn(U8(b, g + 39)) * F64(b, g + 31, 6))
  [] nm = "longitude_gps" -> gg(IF v >= 0 THEN I32(b, v + 30) \div 1048576 ELSE Sgn(U8(b, g + 48)) * F64(b, g + 40, 6))
  [] nm = "avg_speed_gps" -> Fld(b, p, 8192, U16, 34)
  [] nm = "avg_dir_gps" -> Fld(b, p, 8192, U16, 36)
  [] nm = "speed_made_good_gps" -> Fld(b, p, 8192, U16, 40)
  [] nm = "dir_made_good_gps" -> Fld(b, p, 8192, U16, 42)
  [] nm = "flags_gps" -> LET x == Fld(b, p, 8192, U16, 46) IN IF x[1] = NANV THEN x ELSE <<BinDec(x[1])>>
  [] nm = "pitch_gps" -> Fld(b, p, 8192, U16, 62)
  [] nm = "roll_gps" -> Fld(b, p, 8192, U16, 64)
  [] nm = "heading_gps" -> IF v >= 0 THEN <<U16(b, v + 66)>> ELSE IF h < 0 THEN <<NANV>> ELSE <<F64(b, h + 21, 6)>>
  [] nm = "fix_gps" -> gg(U8(b, g + 49))
  [] nm = "n_sat_gps" -> gg(U8(b, g + 50))
  [] nm = "hdop_gps" -> gg(F32(b, g + 51, 4))
  [] nm = "elevation_gps" -> gg(F32(b, g + 55, 4))
  [] nm = "rtk_age_gps" -> gg(F32(b, g + 65, 4))
  [] nm = "speed_over_grnd_gps" -> IF t < 0 THEN <<NANV>> ELSE one(F32(b, t + 31, 4))
  [] nm = "dir_over_grnd_gps" -> IF t < 0 THEN <<NANV>> ELSE one(F32(b, t + 21, 4))
Leader == {"time", "number", "builtin_test_fail", "c_sound", "depth", "heading", "pitch", "roll", "salinity",
           "temp", "min_preping_wait", "heading_std", "pitch_std", "roll_std"}
BtVars == {"dist_bt", "vel_bt", "corr_bt", "amp_bt", "prcnt_gd_bt"}
AltVars == {"alt_eval", "alt_rssi", "alt_dist", "alt_status"}
VmVars == {"time_gps", "hdwtime_gps", "clock_offset_UTC_gps", "latitude_gps", "longitude_gps", "avg_speed_gps",
           "avg_dir_gps", "speed_made_good_gps", "dir_made_good_gps", "flags_gps", "pitch_gps", "roll_gps", "heading_gps"}
GgaVars == {"time_gps", "hdwtime_gps", "latitude_gps", "longitude_gps", "fix_gps", "n_sat_gps", "hdop_gps",
            "elevation_gps", "rtk_age_gps"}
VtgVars == {"speed_over_grnd_gps", "dir_over_grnd_gps"}
GpsVars == VmVars \cup GgaVars \cup VtgVars
\* integers have no mark for a missing sample: zero or missing
IntVars == {"corr", "amp", "prcnt_gd", "corr_sl", "amp_sl", "prcnt_gd_sl", "corr_bt", "amp_bt", "prcnt_gd_bt",
            "alt_eval", "alt_rssi", "alt_status", "fix_gps", "n_sat_gps"}
ById == [i \in {256, 512, 768, 1024, 1280, 272, 528, 784, 1040, 1296} |->
   CASE i = 256 -> "vel" [] i = 512 -> "corr" [] i = 768 -> "amp" [] i = 1024 -> "prcnt_gd" [] i = 1280 -> "status"
     [] i = 272 -> "vel_sl" [] i = 528 -> "corr_sl" [] i = 784 -> "amp_sl" [] i = 1040 -> "prcnt_gd_sl" [] OTHER -> "status_sl"]
Vars(b, E) ==
  LET ids == UNION {BlkIds(b, E[i]) : i \in 1..Len(E)} IN
  Leader \cup {ById[i] : i \in ids \cap DOMAIN ById}
  \cup (IF Family(U8(b, Blk(b, E[1], 0).at + 2)) = "wh" THEN {"pressure", "pressure_std"} ELSE {})
  \cup (IF 1536 \in ids THEN BtVars ELSE {}) \cup (IF 16640 \in ids THEN AltVars ELSE {})
  \cup (IF 8192 \in ids THEN VmVars ELSE {})
  \cup (IF \E i \in 1..Len(E) : NmeaAny(b, E[i], {4, 104}) THEN GgaVars ELSE {})
  \cup (IF \E i \in 1..Len(E) : NmeaAny(b, E[i], {5, 105}) THEN VtgVars ELSE {})
  \cup (IF \E i \in 1..Len(E) : NmeaAny(b, E[i], {6, 106}) THEN {"dist_nmea"} ELSE {})
  \cup (IF \E i \in 1..Len(E) : NmeaAny(b, E[i], {7, 107}) THEN {"heading_gps"} ELSE {})
Same(nm, got, want) ==
  /\ Len(got) = Len(want)
  /\ \A i \in 1..Len(want) : got[i] = want[i] \/ (want[i] = NANV /\ nm \in IntVars /\ got[i] = 0)
Wr1Vars == {"latitude_gps", "longitude_gps"}
\* which program wrote the file is known from its first block on: until then the
\* positions are missing
OkWr1(b, E, got) ==
  LET ok(nm, i, v) == got[nm][i] = <<v>> \/ (~(\E j \in 1..(i - 1) : HasWr1(b, E[j])) /\ got[nm][i] = <<NANV>>)
  IN /\ \A nm \in Wr1Vars : nm \in DOMAIN got => Len(got[nm]) = Len(E)
     /\ "latitude_gps" \in DOMAIN got => \A i \in 1..Len(E) : ok("latitude_gps", i, Wr1Lat(b, E[i]))
     /\ "longitude_gps" \in DOMAIN got => \A i \in 1..Len(E) : ok("longitude_gps", i, Wr1Lon(b, E[i]))
     /\ (\E i \in 2..Len(E) : HasWr1(b, E[i - 1]) /\ Blk(b, E[i], 1536).at >= 0) => Wr1Vars \subseteq DOMAIN got
MaxCells(b, E) == Max({Cells(b, E[i]) : i \in 1..Len(E)})
MaxSL(b, E) == LET s == {i \in 1..Len(E) : Blk(b, E[i], 16).at >= 0} IN IF s = {} THEN 0 ELSE SLCells(b, E[Max(s)])
\* distance of the first cell of the surface layer, and their size
SLGrid(b, E) == LET s == {i \in 1..Len(E) : Blk(b, E[i], 16).at >= 0} IN
  IF s = {} THEN <<0, 0>> ELSE LET k == Blk(b, E[Max(s)], 16).at IN <<U16(b, k + 5), U16(b, k + 3)>>
\* the ensembles whose position fix is kept: the first of each distinct time, in order
Ord(t) == <<((t[1] - 1980) * 12 + t[2]) * 31 + t[3], t[4]>>
Before(x, y) == LET a == Ord(x) c == Ord(y) IN a[1] < c[1] \/ (a[1] = c[1] /\ a[2] < c[2])
Fixes(b, E) ==
  LET T == [i \in 1..Len(E) |-> GpsClock(b, E[i])]
      first == {i \in 1..Len(E) : T[i][1] # NANV /\ ~\E j \in 1..(i - 1) : T[j] = T[i]}
  IN SetToSortSeq(first, LAMBDA i, j : Before(T[i], T[j]))
\* configuration: the fixed leader of the last ensemble read
Model(v) == CASE v \in {4, 5} -> "Broadband" [] v \in {6, 19, 37, 53} -> "Navigator" [] v = 10 -> "Rio Grande" [] v = 11 -> "H-ADCP"
              [] v \in {14, 23} -> "Ocean Surveyor" [] v \in {16, 43, 50, 51, 52, 77, 78} -> "Workhorse" [] v = 28 -> "ChannelMaster"
              [] v = 31 -> "StreamPro" [] v = 34 -> "Explorer" [] v \in {41, 55} -> "DVS" [] v = 44 -> "RiverRay"
              [] v \in {47, 66} -> "SentinelV" [] v = 56 -> "RiverPro" [] OTHER -> "unrecognized firmware version"
\* the program that wrote the navigation data
Programs(b, E) ==
  LET ids == UNION {BlkIds(b, E[i]) : i \in 1..Len(E)} IN
  (IF 8192 \in ids THEN {"VMDAS"} ELSE {}) \cup (IF 8226 \in ids THEN {"WinRiver2"} ELSE {}) \cup (IF ids \cap Wr1Ids # {} THEN {"WINRIVER"} ELSE {})
Attrs(b, p) ==
  LET k == Blk(b, p, 0)
      o == k.at
      c0 == U8(b, o + 4)
      c1 == U8(b, o + 5)
      cs == U8(b, o + 25)
      ver == 100 * U8(b, o + 2) + U8(b, o + 3)
  IN [prog_ver |-> 100 * U8(b, o + 2) + U8(b, o + 3),
      freq |-> <<75, 150, 300, 600, 1200, 2400, 38>>[(c0 % 8) + 1],
      beam_pattern |-> IF Bit(c0, 3) = 1 THEN "convex" ELSE "concave",
      orientation |-> IF Bit(c0, 7) = 1 THEN "up" ELSE "down",
      beam_angle |-> IF k.len >= 59 /\ U8(b, o + 58) # 0 THEN U8(b, o + 58) ELSE <<15, 20, 30, 0>>[(c1 % 4) + 1],
      n_beams |-> U8(b, o + 8) + Bit(c1, 4),
      pings_per_ensemble |-> U16(b, o + 10), cell_size |-> U16(b, o + 12), blank_dist |-> U16(b, o + 14),
      profiling_mode |-> U8(b, o + 16), min_corr_threshold |-> U8(b, o + 17), n_code_reps |-> U8(b, o + 18),
      min_prcnt_gd |-> U8(b, o + 19), max_error_vel |-> U16(b, o + 20),
      sec_between_ping_groups |-> 6000 * U8(b, o + 22) + 100 * U8(b, o + 23) + U8(b, o + 24),
      coord_sys |-> <<"beam", "inst", "ship", "earth">>[Bits(cs, 3, 2) + 1],
      use_pitchroll |-> Bit(cs, 2), use_3beam |-> Bit(cs, 1), bin_mapping |-> Bit(cs, 0),
      heading_misalign_deg |-> I16(b, o + 26), magnetic_var_deg |-> I16(b, o + 28),
      bin1_dist_m |-> U16(b, o + 32), transmit_pulse_m |-> U16(b, o + 34),
      sensors_src |-> U8(b, o + 30), sensors_avail |-> U8(b, o + 31),
       \* later firmware wrote more; an absent one is not an attribute
       bandwidth |-> IF ver >= 824 /\ U8(b, o + 2) # 14 THEN U16(b, o + 50) ELSE -1, power_level |-> IF ver >= 1605 THEN U8(b, o + 52) ELSE -1,
       serialnum |-> IF ver >= 1627 THEN <<U16(b, o + 56), U16(b, o + 54)>> ELSE <<>>,
       inst_model |-> Model(U8(b, o + 2)),
       ref0 |-> U8(b, o + 36), ref1 |-> U8(b, o + 37), false_target_threshold |-> U8(b, o + 38),
      transmit_lag_m |-> U16(b, o + 40)]
\* sine and cosine, times 1e5, of the beam angles that can be recorded
BeamAngles == (15 :> <<25882, 96593>>) @@ (20 :> <<34202, 93969>>) @@ (25 :> <<42262, 90631>>) @@ (30 :> <<50000, 86603>>)
\* four beams slanted by the beam angle: 1 and 2 give X, 3 and 4 give Y (mirrored for a
\* concave head), all of them Z, the two estimates of Z the error velocity; times 1e4
RoundDiv(n, d) == (2 * n + d) \div (2 * d)
BeamMatrix(angle, convex) ==
  LET a == RoundDiv(500000000, BeamAngles[angle][1])
      b == RoundDiv(250000000, BeamAngles[angle][2])
      d == RoundDiv(a * 7071, 10000)
      c == IF convex THEN a ELSE -a
  IN <<c, -c, 0, 0, 0, 0, -c, c, b, b, b, b, d, d, -d, -d>>
\* a period (in 1/100 s) that is the mean of the intervals, rounded as a rate is (to 1/100 Hz)
ByClocks(per, c, d, n) ==
  \/ n = 1 \/ c = <<NANV>> \/ d = <<NANV>> \/ SubSeq(c, 1, 3) # SubSeq(d, 1, 3)
  \/ LET cs(x) == ((x[4] * 60 + x[5]) * 60 + x[6]) * 100 + x[7]
         m == (cs(d) - cs(c)) \div (n - 1)
         t == IF m > 20000 THEN 0 ELSE 2 + m \div 50 + ((m \div 100) * (m \div 100)) \div 2
     IN m > 20000 \/ m < 0 \/ per - m \in (-t)..t
FailRead(e) ==
  LET b == e.bytes
      A == TLCEval(Starts(b))
      E == IF e.nens >= 0 /\ e.nens < Len(A) THEN SubSeq(A, 1, e.nens) ELSE A
      N == Len(E)
      unrecognised == Len(b) < 2 \/ b[1] # 127 \/ b[2] # 127     \* the format is told from the first bytes
  IN IF e.raised /\ unrecognised THEN {}
  ELSE IF N = 0 THEN (IF e.raised THEN {} ELSE {"invented-ensembles"})
  ELSE IF e.raised THEN {"refused"}
  ELSE IF e.out.n # N THEN {"number-of-ensembles"} ELSE
  LET nc == MaxCells(b, E)
      ns == MaxSL(b, E)
      want == TLCEval(Vars(b, E))
      got == e.out.vars
      F == IF "time_gps" \in want THEN Fixes(b, E) ELSE <<>>
      ok(nm) == LET n == IF nm \in GpsVars THEN Len(F) ELSE N
                    at(i) == IF nm \in GpsVars THEN E[F[i]] ELSE E[i]
                IN Len(got[nm]) = n /\ \A i \in 1..n : Same(nm, got[nm][i], Val(b, at(i), nm, nc, ns))
      at == Attrs(b, E[N])
      wr1 == \E i \in 1..N : HasWr1(b, E[i])
      SL == SLGrid(b, E)
  IN (IF want \subseteq DOMAIN got THEN {} ELSE {"variables-lost"})
     \cup (IF wr1 => OkWr1(b, E, got) THEN {} ELSE {"position-in-bottom-track"})
     \cup (IF DOMAIN got \subseteq want \cup (IF wr1 THEN Wr1Vars ELSE {}) THEN {} ELSE {"variables-invented"})
     \cup {nm \in want \cap DOMAIN got : ~ok(nm)}
     \cup (IF \A a \in DOMAIN at : a \in DOMAIN e.out.attrs /\ e.out.attrs[a] = at[a] THEN {} ELSE {"configuration"})
     \cup (IF at.beam_angle \notin DOMAIN BeamAngles
              \/ (Len(e.out.matrix) = 16
                  /\ LET M == BeamMatrix(at.beam_angle, at.beam_pattern = "convex")
                     IN \A i \in 1..16 : e.out.matrix[i] - M[i] \in -2..2)
           THEN {} ELSE {"beam-matrix"})
     \cup (IF e.out.attrs.sourceprog \in (IF Programs(b, E) = {} THEN {""} ELSE Programs(b, E)) THEN {} ELSE {"source-program"})
     \cup (IF e.out.range = [i \in 1..nc |-> at.bin1_dist_m + (i - 1) * at.cell_size] THEN {} ELSE {"range"})
     \* (files of the ship's software may go by their clocks instead)
     \cup (IF e.out.period = at.pings_per_ensemble * at.sec_between_ping_groups
              \/ ((wr1 \/ (GpsVars \cup {"dist_nmea"}) \cap want # {}) /\ ByClocks(e.out.period, Clk(b, E[1]), Clk(b, E[N]), N))
           THEN {} ELSE {"sampling-period"})
     \cup (IF (e.out.gps_corrected = 1) = (e.ext = "ENX") THEN {} ELSE {"gps-corrected-flag"})
     \cup (IF e.out.range_sl = [i \in 1..ns |-> SL[1] + (i - 1) * SL[2]] THEN {} ELSE {"range-of-the-surface-layer"})
     \cup (IF e.out.n_cells = nc THEN {} ELSE {"number-of-cells"})
     \cup (IF e.out.declination = at.magnetic_var_deg /\ e.out.turned = 0 THEN {} ELSE {"declination"})
     \cup (IF e.out.rotate_vars = (<<"vel">> \o (IF ns > 0 THEN <<"vel_sl">> ELSE <<>>)
                                   \o (IF "vel_bt" \in want THEN <<"vel_bt">> ELSE <<>>)) THEN {} ELSE {"rotate-vars"})
====

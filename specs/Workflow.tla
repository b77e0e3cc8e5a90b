---- MODULE Workflow ----
(* The whole life of a dataset: read from an instrument's file, rotated,
   re-declined, cleaned, cut, saved and loaded again, averaged - in any order.
   A life is a sequence of operations; the state says what of the past still
   matters.  Two lives that end in the same state must end in the same dataset,
   and at every moment the dataset must describe itself truthfully. *)
EXTENDS Num
NO == 999999
Rots == {"beam", "inst", "earth", "principal"}
Fixed == {"earth", "principal"}
Profile(kind) == kind \in {"awac", "wh", "sig"}

NONE == -1      \* depth of the water: unknown, from the file, or found with the given number of range offsets
FILE == -2
Start(kind, fr) ==
  [fr |-> fr, dec |-> NO, phm |-> NO, head |-> FALSE, filt |-> "no",
   dep |-> IF kind = "wh" THEN FILE ELSE NONE, surf |-> FALSE, off |-> 0, cut |-> FALSE, avg |-> "no", mot |-> FALSE]
Dec0(s) == IF s.dec = NO THEN 0 ELSE s.dec
DecOf(o) == CASE o = "dec10" -> 10 [] o = "decm25" -> -25 [] o = "dec0" -> 0
Decs == {"dec10", "decm25", "dec0"}
Ops == Rots \cup Decs \cup {"ph30", "ph200", "head", "filt", "surf", "off", "cut", "nc", "avg", "mot", "mat"}
PhOf(o) == CASE o = "ph30" -> 30 [] o = "ph200" -> 200

Allowed(kind, s, o) ==
  CASE o \in Rots -> /\ o # s.fr
                     /\ o = "principal" => s.phm # NO
                     /\ s.avg # "no" => {o, s.fr} \subseteq Fixed
    [] o \in Decs -> s.avg = "no" /\ s.dec # DecOf(o)
    [] o \in {"ph30", "ph200"} -> s.fr # "principal"
    [] o = "head" -> kind \in {"vec", "imu"} /\ ~s.head /\ s.avg = "no" /\ ~s.mot
    [] o = "filt" -> kind \in {"wh", "sig"} /\ s.avg = "no"
    [] o = "surf" -> Profile(kind) /\ ~s.surf /\ s.avg = "no"
    [] o = "off" -> Profile(kind) /\ s.off < 2
    [] o = "mot" -> kind = "imu" /\ ~s.mot /\ ~s.cut /\ s.avg = "no"
    \* what MATLAB files can hold is a dataset as it was read
    [] o = "mat" -> s.avg = "no" /\ ~s.mot
    [] o = "cut" -> ~s.cut /\ s.avg = "no"
    [] o = "nc" -> TRUE
    [] o = "avg" -> s.avg = "no"

\* where one component is missing in beam coordinates, all are after a rotation
Apply(s, o) ==
  CASE o \in Rots -> [s EXCEPT !.fr = o, !.filt = IF @ = "pure" THEN "spread" ELSE @]
    [] o \in Decs -> [s EXCEPT !.dec = DecOf(o)]
    \* the heading is given relative to the present north; it belongs to the water
    [] o \in {"ph30", "ph200"} -> [s EXCEPT !.phm = PhOf(o) - Dec0(s)]
    [] o = "head" -> [s EXCEPT !.head = TRUE]
    [] o = "filt" -> [s EXCEPT !.filt = IF s.fr = "beam" /\ @ # "spread" THEN "pure" ELSE "spread"]
    [] o = "surf" -> [s EXCEPT !.surf = TRUE, !.dep = s.off]
    [] o = "off" -> [s EXCEPT !.off = @ + 1]
    \* motion correction filters in the earth frame, where it leaves the data
    [] o = "mot" -> [s EXCEPT !.mot = TRUE, !.fr = "earth"]
    [] o = "mat" -> s
    [] o = "cut" -> [s EXCEPT !.cut = TRUE]
    [] o = "nc" -> s
    [] o = "avg" -> [s EXCEPT !.avg = IF s.fr \in Fixed THEN "fixed" ELSE s.fr]
RECURSIVE Run(_, _)
Run(s, h) == IF h = <<>> THEN s ELSE Run(Apply(s, h[1]), Tail(h))
Legal(kind, s, h) == \A i \in 1..Len(h) : Allowed(kind, Run(s, SubSeq(h, 1, i - 1)), h[i])

\* ---- what a dataset says about itself
Four(kind) == kind \in {"wh", "sig", "vno"}
Up(kind) == CASE kind = "wh" -> <<"Z", "err", "U", "err", "vert", "err">>
              [] kind \in {"sig", "vno"} -> <<"Z1", "Z2", "U1", "U2", "vert1", "vert2">>
              [] OTHER -> <<"Z", "", "U", "", "vert", "">>
Dirs(kind, fr) ==
  LET u == Up(kind) IN
  CASE fr = "beam" -> IF Four(kind) THEN <<"1", "2", "3", "4">> ELSE <<"1", "2", "3">>
    [] fr = "inst" -> IF Four(kind) THEN <<"X", "Y", u[1], u[2]>> ELSE <<"X", "Y", u[1]>>
    [] fr = "earth" -> IF Four(kind) THEN <<"E", "N", u[3], u[4]>> ELSE <<"E", "N", u[3]>>
    [] fr = "principal" -> IF Four(kind) THEN <<"streamwise", "x-stream", u[5], u[6]>> ELSE <<"streamwise", "x-stream", u[5]>>
DirsIMU(fr) == CASE fr \in {"beam", "inst"} -> <<"X", "Y", "Z">> [] fr = "earth" -> <<"E", "N", "U">>
                 [] fr = "principal" -> <<"streamwise", "x-stream", "vert">>

Units == [vel |-> "m s-1", amp |-> "1", accel |-> "m s-2", angrt |-> "rad s-1", orientmat |-> "1", quaternions |-> "1",
          beam2inst_orientmat |-> "1", inst2head_rotmat |-> "1", batt |-> "V", c_sound |-> "m s-1", heading |-> "degree", pitch |-> "degree",
          roll |-> "degree", temp |-> "degree_C", temp_clock |-> "degree_C", temp_press |-> "degree_C", pressure |-> "dbar", depth |-> "m",
          water_density |-> "kg m-3", salinity |-> "psu", heading_std |-> "degree", pitch_std |-> "degree", roll_std |-> "degree",
          pressure_std |-> "dbar", press_std |-> "dbar", pressure_alt |-> "dbar", dist |-> "m", prcnt_gd |-> "%", min_preping_wait |-> "s",
          echo |-> "dB", le_dist_alt |-> "m", ast_dist_alt |-> "m", le_quality_alt |-> "dB", ast_quality_alt |-> "dB",
          ast_offset_time_alt |-> "s", dsamp_alt |-> "m", nsamp_alt |-> "1", samp_alt |-> "1", error |-> "1", status |-> "1", status_alt |-> "1",
          orientation_down |-> "1", number |-> "1", builtin_test_fail |-> "1", fom |-> "1", U_std |-> "m s-1", xmit_energy |-> "dB",
          range |-> "m", vel_raw |-> "m s-1", velrot |-> "m s-1", velacc |-> "m s-1", acclow |-> "m s-2"]
UnitOf(kind, b) == CASE b = "mag" -> IF kind = "sig" THEN "uT" ELSE "gauss"
                     [] b = "corr" -> IF kind = "wh" THEN "1" ELSE "%"
                     [] OTHER -> Units[b]
Std == [c_sound |-> "speed_of_sound_in_sea_water", heading |-> "platform_orientation", pitch |-> "platform_pitch", roll |-> "platform_roll",
        temp |-> "sea_water_temperature", pressure |-> "sea_water_pressure", salinity |-> "sea_water_salinity", depth |-> "depth",
        water_density |-> "sea_water_density",
        amp |-> "signal_intensity_from_multibeam_acoustic_doppler_velocity_sensor_in_sea_water",
        prcnt_gd |-> "proportion_of_acceptable_signal_returns_from_acoustic_instrument_in_sea_water",
        le_dist_alt |-> "altimeter_range", ast_dist_alt |-> "altimeter_range", pressure_alt |-> "sea_water_pressure",
        echo |-> "acoustic_target_strength_in_sea_water", number |-> "number_of_observations", ensemble |-> "number_of_observations"]
Known(kind, b) == b \in DOMAIN Units \cup {"mag", "corr"}
VecBases == {"accel", "angrt", "mag"}
\* dimensions a variable is to have; <<>> where nothing is required
Lead(kind, b) == CASE b = "vel" -> <<"dir">> [] b \in {"amp", "corr", "prcnt_gd", "dist"} -> <<"beam">>
                   [] b \in VecBases -> IF Four(kind) THEN <<"dirIMU">> ELSE <<"dir">>
                   [] b = "orientmat" -> <<"earth", "inst">> [] b = "quaternions" -> <<"q">>
                   [] OTHER -> <<"?">>
DimsOf(kind, x) ==
  LET tm == IF kind = "wh" THEN "time" ELSE "time" \o x.tag
      cells == Profile(kind) /\ x.b \in {"vel", "amp", "corr", "prcnt_gd"} /\ x.tag # "_bt" IN
  IF x.tag = "_b5" /\ x.b \in {"vel", "amp", "corr"} THEN <<"range_b5", "time_b5">>
  ELSE Lead(kind, x.b) \o (IF cells THEN <<"range" \o x.tag>> ELSE <<>>) \o <<tm>>
DimsOk(kind, x) == Lead(kind, x.b) = <<"?">> \/ x.tag \notin {"", "_avg", "_b5", "_bt", "_sl", "_echo"}
                   \/ (kind = "wh" /\ x.tag = "_sl") \/ x.dims = DimsOf(kind, x)
UnitsFail(kind, vs) ==
  {IF x.u # UnitOf(kind, x.b) THEN "unit-of-" \o x.n ELSE "" : x \in {y \in vs : Known(kind, y.b)}}
  \cup {IF x.sn # Std[x.b] THEN "standard-name-of-" \o x.n ELSE "" : x \in {y \in vs : y.b \in DOMAIN Std}}
  \cup {IF x.b \in DOMAIN Units \ {"U_std", "inst2head_rotmat", "range"} /\ ~x.ln THEN "no-long-name-of-" \o x.n ELSE "" : x \in vs}
  \cup {IF (x.b = "vel") # (x.lab \in {"water", "bottom"}) \/ (x.b = "vel" /\ x.lab # IF x.tag = "_bt" THEN "bottom" ELSE "water")
        THEN "velocity-label-of-" \o x.n ELSE "" : x \in vs}
  \cup {IF DimsOk(kind, x) THEN "" ELSE "dimensions-of-" \o x.n : x \in vs}
Increasing(t) == \A i \in 1..(Len(t) - 1) : t[i] < t[i + 1]
\* sample times after cutting the first and the last and averaging pairs
Cutted(t, s) == IF s.cut THEN SubSeq(t, 2, Len(t) - 1) ELSE t
Times(t, s) == LET c == Cutted(t, s) IN
               IF s.avg = "no" THEN c ELSE [i \in 1..(Len(c) \div 2) |-> (c[2 * i - 1] + c[2 * i]) \div 2]
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                     a[i] = b[i] \/ (Abs(a[i]) < NAN /\ Abs(b[i]) < NAN /\ Abs(a[i] - b[i]) <= tol)
OffMm == 2000
WellFormed(kind, s, v, o) ==       \* o: the view of the file as read
  \* averaging keeps what is sampled in time; it need not keep fixed matrices and what is said of the axes
  (IF v.coord = s.fr /\ (v.refframe = s.fr \/ (s.avg # "no" /\ v.refframe = "")) THEN {} ELSE {"coordinate-system"})
  \cup (IF v.dir = Dirs(kind, s.fr) THEN {} ELSE {"direction-labels"})
  \cup (IF v.dirimu = <<>> \/ v.dirimu = DirsIMU(s.fr) THEN {} ELSE {"direction-labels-of-the-motion-sensor"})
  \cup (IF v.dec = (IF s.dec = NO THEN NO ELSE 100 * s.dec) THEN {} ELSE {"declination"})
  \cup (IF s.phm = NO THEN IF v.ph = NO THEN {} ELSE {"principal-heading"}
        ELSE IF Abs(v.ph - 100 * (s.phm + Dec0(s))) <= 1 THEN {} ELSE {"principal-heading"})
  \cup (IF v.hdep = (IF s.off > 0 THEN s.off * OffMm ELSE NO) THEN {} ELSE {"deployment-height"})
  \cup (IF v.nbin = (IF s.avg = "no" THEN NO ELSE 2) THEN {} ELSE {"bin-size"})
  \cup (IF v.fs = o.fs THEN {} ELSE {"sample-rate"})
  \cup (IF ToSet(v.rotate) = ToSet(o.rotate) \cup (IF s.mot THEN {"vel_raw", "velrot", "velacc", "acclow"} ELSE {}) /\ ToSet(v.rotate) \subseteq {x.n : x \in ToSet(v.vars)} THEN {} ELSE {"rotated-variables"})
  \cup (IF {x.n : x \in {y \in ToSet(o.vars) : s.avg = "no" \/ (y.times # <<>> /\ y.b # "ensemble")}} \subseteq {x.n : x \in ToSet(v.vars)} THEN {} ELSE {"variable-lost"})
  \cup (IF Near(v.range, [i \in 1..Len(o.range) |-> o.range[i] + s.off * OffMm], 1) THEN {} ELSE {"range"})
  \cup (IF Near(v.time, Times(o.time, s), 1) /\ Increasing(v.time) THEN {} ELSE {"time"})
  \cup (IF \A x \in ToSet(v.vars) : Len(x.times) <= 1 /\ \A y \in ToSet(x.times) : y \in ToSet(v.timecoords) THEN {} ELSE {"time-coordinate"})
  \cup (UnitsFail(kind, {x \in ToSet(v.vars) : s.avg = "no" \/ x.b # "range"}) \ {""})
\* a file as read
FailFile(e) ==
  LET s == [Start(e.kind, e.view.coord) EXCEPT !.dec = IF e.view.dec = NO THEN NO ELSE e.view.dec \div 100] IN
  (WellFormed(e.kind, s, e.view, e.view) \ {"time", "declination"})
  \cup (IF e.view.coord \in Rots THEN {} ELSE {"coordinate-system"})
\* one life, observed after every step
FailLife(e) ==
  LET s0 == Start(e.kind, e.fr) IN
  IF ~Legal(e.kind, s0, e.h) THEN {"harness-illegal-life"}
  ELSE IF e.refused THEN {"refused"}
  ELSE (IF e.mut THEN {"changed-its-source"} ELSE {})
       \cup UNION {WellFormed(e.kind, Run(s0, SubSeq(e.h, 1, i - 1)), e.views[i], e.views[1]) : i \in 1..Len(e.views)}
\* two lives that meet
Same(a, b) == /\ DOMAIN a = DOMAIN b
              /\ \A n \in DOMAIN a : a[n].scale = b[n].scale /\ Near(a[n].v, b[n].v, IF a[n].exact THEN 0 ELSE 2)
FailMeet(e) ==
  LET s0 == Start(e.kind, e.fr) IN
  IF Run(s0, e.ha) # Run(s0, e.hb) THEN {"harness-lives-do-not-meet"}
  ELSE IF DOMAIN e.va # DOMAIN e.vb THEN {"variables-depend-on-the-way"}
  ELSE {"way-dependent-" \o n : n \in {n \in DOMAIN e.va : ~(e.va[n].d = e.vb[n].d /\ Near(e.va[n].v, e.vb[n].v, IF e.va[n].x THEN 0 ELSE 2))}}
Failures(e) == CASE e.k = "file" -> FailFile(e) [] e.k = "life" -> FailLife(e) [] e.k = "meet" -> FailMeet(e)
====

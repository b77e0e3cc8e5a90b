---- MODULE Nrt ----
(* A classic Nortek file (Vector, AWAC or Vectrino) as the sequence of bytes it is,
   decoded independently of the reader: three configuration records, then data
   records told apart by their second byte, each as long as its size word says
   (velocity records: a fixed length).  System records carry whole-second times and
   slow sensors for the velocity sample that follows; inertial records belong to the
   velocity sample before them. *)
EXTENDS Bytes, TLC
RecLen(b, p) == IF b[p + 2] = 16 THEN 24 ELSE IF b[p + 2] = 81 THEN 22
  ELSE IF b[p + 2] = 32 THEN 120 + 9 * U16(b, 276 + 30) ELSE 2 * U16(b, p + 2)
RECURSIVE RecsFrom(_, _)
RecsFrom(b, p) ==
  IF p + 4 > Len(b) \/ b[p + 1] # 165 THEN <<>>
  ELSE LET n == RecLen(b, p) IN
       IF n < 6 \/ p + n - 2 > Len(b) THEN <<>> ELSE <<p>> \o RecsFrom(b, p + n)
\* (a record without its checksum is still a whole one)
Recs(b) == RecsFrom(b, 784)
Sum(b, p) == (46476 + WordSum(b, p, RecLen(b, p) - 2)) % 65536
Intact(b, p) == p + RecLen(b, p) <= Len(b) /\ Sum(b, p) = U16(b, p + RecLen(b, p) - 2)
Id(b, p) == b[p + 2]
Model(b) == IF b[5] = 87 THEN "AWAC" ELSE IF b[7] = 67 THEN "Vector" ELSE "Vectrino"
VelId(b) == CASE Model(b) = "AWAC" -> 32 [] Model(b) = "Vector" -> 16 [] OTHER -> 81
Pick(b, R, id) == SelectSeq(R, LAMBDA p : Id(b, p) = id)
\* configuration
UW(b, i) == U16(b, 276 + 2 * i)
Avg(b) == UW(b, 6)
NBeams(b) == UW(b, 7)
Tim(b) == UW(b, 8)
NBins(b) == UW(b, 15)
Mode0(b) == U16(b, 274 + 56)
NBurst(b) == U16(b, 274 + 450)
VelUnit(b) == IF Bit(Mode0(b), 4) = 1 THEN 1 ELSE 10          \* tenths of a mm/s
BCD(x) == IF x > 153 THEN 99 ELSE 10 * (x \div 16) + (x % 16)
\* seconds since 2000-01-01 of the six bytes at p
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysIn(y, m - 1) + DaysBefore(y, m - 1)
RECURSIVE YearDays(_)
YearDays(y) == IF y <= 2000 THEN 0 ELSE (IF IsLeap(y - 1) THEN 366 ELSE 365) + YearDays(y - 1)
Secs(b, p) ==
  LET y == 2000 + BCD(U8(b, p + 4))
  IN ((YearDays(y) + DaysBefore(y, BCD(U8(b, p + 5))) + BCD(U8(b, p + 2)) - 1) * 24 + BCD(U8(b, p + 3))) * 3600
     + 60 * BCD(U8(b, p)) + BCD(U8(b, p + 1))
\* ---- Vector
VecVal(b, p, nm) ==
  CASE nm = "vel" -> [i \in 1..3 |-> VelUnit(b) * I16(b, p + 8 + 2 * i)]
    [] nm = "amp" -> [i \in 1..3 |-> U8(b, p + 15 + i)]
    [] nm = "corr" -> [i \in 1..3 |-> U8(b, p + 18 + i)]
    [] nm = "pressure" -> <<65536 * U8(b, p + 4) + U16(b, p + 6)>>
\* the sample each system / inertial record goes with (0: none before / after)
CountVel(R, b, j) == Cardinality({i \in 1..j : Id(b, R[i]) = VelId(b)})
SysAt(b, R, n) ==     \* sample -> position of its (last) system record
  LET s == {j \in 1..Len(R) : Id(b, R[j]) = 17}
      at == [j \in s |-> CountVel(R, b, j) + 1]
      idx == {at[j] : j \in s} \cap 1..n
  IN [i \in idx |-> R[Max({j \in s : at[j] = i})]]
ImuKinds == {195, 204, 211}
ImuAt(b, R, n) ==
  LET s == {j \in 1..Len(R) : Id(b, R[j]) = 113 /\ U8(b, R[j] + 5) \in ImuKinds}
      at == [j \in s |-> CountVel(R, b, j)]
      idx == {at[j] : j \in s} \cap 1..n
  IN [i \in idx |-> R[Max({j \in s : at[j] = i})]]
Fl(b, p, i) == F32(b, p + 6 + 4 * (i - 1), 6)
\* the sensor's axes (x, y, z) are the instrument's (z, y, -x)
Turn(v) == <<-v[3], v[2], v[1]>>
Vec3(b, p, i) == Turn(<<Fl(b, p, i), Fl(b, p, i + 1), Fl(b, p, i + 2)>>)
ImuVal(b, p, nm) ==
  LET id == U8(b, p + 5)
      first == IF id = 204 THEN "accel" ELSE "angrt"
      o == IF id = 195 THEN 6 ELSE 9
      M == [r \in 1..3 |-> [c \in 1..3 |-> Fl(b, p, o + 3 * (r - 1) + c)]]
      T == <<[c \in 1..3 |-> -M[3][c]], M[2], M[1]>>       \* rows
  IN CASE nm = "mag" -> Vec3(b, p, 7)
       [] nm \in {"accel", "angrt"} -> Vec3(b, p, IF nm = first THEN 1 ELSE 4)
       [] nm = "orientmat" -> [k \in 1..9 |-> LET r == ((k - 1) \div 3) + 1 c == ((k - 1) % 3) + 1 IN
             IF c = 1 THEN T[r][2] ELSE IF c = 2 THEN T[r][1] ELSE -T[r][3]]
ImuVars(id) == CASE id = 195 -> {"accel", "angrt", "orientmat"} [] id = 204 -> {"accel", "angrt", "mag", "orientmat"}
                 [] OTHER -> {"accel", "angrt", "mag"}
SlowOff == [batt |-> 10, c_sound |-> 12, heading |-> 14, pitch |-> 16, roll |-> 18, temp |-> 20]
Slow(b, p, nm) == IF nm \in {"batt", "c_sound"} THEN U16(b, p + SlowOff[nm]) ELSE I16(b, p + SlowOff[nm])
Wrap(nm, d) == IF nm # "heading" THEN d ELSE IF d > 1800 THEN d - 3600 ELSE IF d < -1800 THEN d + 3600 ELSE d
Near(a, b, t) == a - b <= t /\ b - a <= t
NearH(nm, a, b, t) == Near(a, b, t) \/ (nm = "heading" /\ (Near(a + 360000, b, t) \/ Near(a - 360000, b, t)))
Burst(b, n, i) == IF NBurst(b) = 0 THEN 0 ELSE (i - 1) \div NBurst(b)
\* slow sensors: as written where written, linear in between, missing outside
\* (v in hundredths of the file's unit)
OkSlow(b, S, n, nm, i, v) ==
  LET D == DOMAIN S
      lo == {j \in D : j <= i}
      hi == {j \in D : j >= i}
      \* the clock is what the weights follow: it has to go forward
      clock == \A x, y \in D : x < y => Secs(b, S[x] + 4) < Secs(b, S[y] + 4)
  IN IF i \notin D /\ ~clock THEN TRUE ELSE
     \* a burst without any clock may be left out
     IF v = NANV /\ \A j \in D : Burst(b, n, j) # Burst(b, n, i) THEN TRUE ELSE
     IF lo = {} \/ hi = {} THEN v = NANV
     ELSE LET l == Max(lo) h == Min(hi)
              a == Slow(b, S[l], nm)
              d == Wrap(nm, Slow(b, S[h], nm) - a)
          IN IF l = h THEN NearH(nm, v, 100 * a, 1)
             ELSE IF nm = "heading" /\ a \in 0..3600 /\ ~(v >= 0 /\ v <= 360000) THEN FALSE
             ELSE IF Burst(b, n, l) = Burst(b, n, h) THEN NearH(nm, v, 100 * a + (100 * d * (i - l)) \div (h - l), 3)
             ELSE \* across a pause the weights follow the clock: anything in between
               \E w \in {v - 360000, v, v + 360000} : (w = v \/ nm = "heading") /\
                  (IF d >= 0 THEN w >= 100 * a - 3 /\ w <= 100 * (a + d) + 3 ELSE w <= 100 * a + 3 /\ w >= 100 * (a + d) - 3)
\* time: <<seconds since 2000, 512ths>>; through the stamps of a burst's system
\* records where these are evenly spaced at the sampling rate (the first of several is
\* no good: it may be late)
At(p, b) == Secs(b, p + 4)
TimeIs(t, sec, u) == \* t = sec + u/512, to a 512th
  LET q == u \div 512
      x == <<sec + q, u - 512 * q>>
  IN t[1] >= x[1] - 1 /\ t[1] <= x[1] + 1 /\ Near((t[1] - x[1]) * 512 + t[2], x[2], 1)
OkTime(b, S, n, i, t) ==
  LET D == {j \in DOMAIN S : Burst(b, n, j) = Burst(b, n, i)}
      use == IF Cardinality(D) > 1 THEN D \ {Min(D)} ELSE D
      l == Min(use)
      even == \A j \in use : (At(S[j], b) - At(S[l], b)) * 512 = (j - l) * Avg(b)
  IN IF D = {} THEN t # <<NANV>>
     ELSE ~even \/ TimeIs(t, At(S[l], b), (i - l) * Avg(b))
OkDown(b, S, n, i, v) ==
  LET D == {j \in DOMAIN S : Burst(b, n, j) = Burst(b, n, i)}
      lo == {j \in D : j <= i}
      j == IF lo # {} THEN Max(lo) ELSE Min(D)
  IN v = (IF D = {} THEN 0 ELSE Bit(U8(b, S[j] + 23), 0))
\* ---- AWAC
AwVal(b, p, nm) ==
  LET nb == NBins(b) IN
  CASE nm = "batt" -> <<U16(b, p + 14)>> [] nm = "c_sound" -> <<U16(b, p + 16)>>
    [] nm = "heading" -> <<I16(b, p + 18)>> [] nm = "pitch" -> <<I16(b, p + 20)>> [] nm = "roll" -> <<I16(b, p + 22)>>
    [] nm = "temp" -> <<I16(b, p + 28)>> [] nm = "error" -> <<U16(b, p + 10)>> [] nm = "status" -> <<U8(b, p + 25)>>
    [] nm = "pressure" -> <<65536 * U8(b, p + 24) + U16(b, p + 26)>>
    [] nm = "vel" -> [k \in 1..(3 * nb) |-> VelUnit(b) * 0 + 10 * I16(b, p + 118 + 2 * (((k - 1) % 3) * nb + (k - 1) \div 3))]
    [] nm = "amp" -> [k \in 1..(3 * nb) |-> U8(b, p + 118 + 6 * nb + ((k - 1) % 3) * nb + (k - 1) \div 3)]
Coef(f) == CASE f = 2000 -> 239 [] f = 1000 -> 478 [] f = 600 -> 797 [] OTHER -> 1195
Freq(b) == U16(b, 54)
\* to the centimetre, of ten-thousandths; near a half either way
Rounds(x) == {(x + 50 + d) \div 100 : d \in {-2, 0, 2}}
CellCm(b) == Rounds((((UW(b, 16) * Coef(Freq(b))) \div 256) * 9063) \div 10000)
BlankCm(b, cs) == Rounds((UW(b, 1) * 229 * 9063) \div 10000 - 100 * cs)
OkRange(b, r) == \E cs \in CellCm(b) : \E bd \in BlankCm(b, cs) :
  r = [k \in 1..NBins(b) |-> k * cs + bd]
\* ---- Vectrino
VnVal(b, p, nm) ==
  CASE nm = "vel" -> [i \in 1..4 |-> VelUnit(b) * I16(b, p + 2 + 2 * i)]
    [] nm = "amp" -> [i \in 1..4 |-> U8(b, p + 11 + i)]
    [] nm = "corr" -> [i \in 1..4 |-> U8(b, p + 15 + i)]
    [] nm = "status" -> <<U8(b, p + 2)>>
\* ---- configuration as attributes
Text(b, p, n) == [i \in 1..n |-> b[p + i]]
\* text up to its first zero byte
CText(b, p, n) == LET z == {i \in 1..n : b[p + i] = 0} IN Text(b, p, IF z = {} THEN n ELSE Min(z) - 1)
\* free text of the user: its plain characters (the encoding of others is not known)
Plain(s) == SelectSeq(s, LAMBDA c : c < 128)
Mode1(b) == U16(b, 708)
Config(b) ==
  LET t == Tim(b) nb == IF Model(b) = "Vectrino" THEN 4 ELSE 3 IN
  [inst_model |-> Model(b), n_beams |-> NBeams(b), n_bins |-> NBins(b),
   profile_mode |-> <<"single", "continuous">>[Bit(t, 1) + 1], burst_mode |-> 1 - Bit(t, 2), power_level |-> Bits(t, 5, 2) + 1,
   sync_out_pos |-> <<"middle", "end">>[Bit(t, 7) + 1], sample_on_sync |-> Bit(t, 8), start_on_sync |-> Bit(t, 9),
   compass_update_rate |-> UW(b, 13), coord_sys |-> <<"earth", "inst", "beam">>[UW(b, 14) + 1],
   salinity |-> U16(b, 274 + 72), analog_in |-> U16(b, 274 + 68), software |-> U16(b, 274 + 70), carrier_freq_kHz |-> Freq(b),
   pressure_sensor |-> Bit(U16(b, 52), 0), compass |-> Bit(U16(b, 52), 1), tilt_sensor |-> Bit(U16(b, 52), 2),
   serial_number |-> Text(b, 4, 8), firmware_version |-> Text(b, 42, 4), vel_range |-> <<"normal", "high">>[Bit(U16(b, 28), 0) + 1],
   recorder_size |-> U16(b, 26), pic |-> U16(b, 22), hardware_rev |-> U16(b, 24),
   period |-> Avg(b), n_burst |-> NBurst(b), interval |-> IF NBurst(b) > 0 THEN UW(b, 17) ELSE 0,
   matrix |-> [k \in 1..(nb * nb) |-> I16(b, 78 + 2 * (k - 1))],
   inst_make |-> "Nortek", inst_type |-> IF Model(b) = "AWAC" THEN "ADCP" ELSE "ADV",
   deployment_name |-> Plain(CText(b, 312, 6)), comments |-> Plain(CText(b, 528, 80)), prolog |-> Text(b, 14, 4),
   wrap_mode |-> IF U16(b, 318) = 0 THEN 0 ELSE 1,
   user_specified_sound_speed |-> Bit(Mode0(b), 0), analog_output |-> Bit(Mode0(b), 2),
   output_format |-> <<"Vector", "ADV">>[Bit(Mode0(b), 3) + 1], serial_output |-> Bit(Mode0(b), 5),
   power_output_analog |-> Bit(Mode0(b), 8)]
  @@ (IF Model(b) = "AWAC"
      THEN [avg_interval |-> Avg(b), wave_processing_method |-> <<"PUV", "SUV", "MLM", "MLMST", "None">>[U16(b, 656) + 1],
            prc_dyn_wave_cell_pos |-> (U16(b, 710) * 100) \div 32767, wave_cell_size |-> U16(b, 716), n_samples_wave |-> U16(b, 718),
            wave_mode |-> <<"Disabled", "Enabled">>[Bit(Mode0(b), 1) + 1], wave_fs |-> <<"1 Hz", "2 Hz">>[Bit(Mode1(b), 0) + 1],
            wave_cell_position |-> <<"fixed", "dynamic">>[Bit(Mode1(b), 1) + 1],
            type_wave_cell_pos |-> <<"pct_of_mean_pressure", "pct_of_min_re">>[Bit(Mode1(b), 2) + 1]]
      ELSE [n_pings_per_burst |-> UW(b, 5)])
  @@ (IF NBurst(b) > 0 /\ Model(b) = "Vector" /\ Avg(b) < 512        \* burst length and interval in words
      THEN [duty |-> <<NBurst(b) * Avg(b), UW(b, 17)>>] ELSE << >>)
\* ---- the whole of it
FailNrt(e) ==
  LET b == e.bytes
      m == Model(b)
      R == TLCEval(Recs(b))
      V == TLCEval(Pick(b, R, VelId(b)))
      stop == IF e.nens >= 0 /\ e.nens < Len(V) THEN e.nens ELSE Len(V)
      imu == TLCEval(IF m = "Vector" THEN ImuAt(b, R, stop) ELSE <<>>)
      S == TLCEval(IF m = "Vector" THEN SysAt(b, R, stop) ELSE <<>>)
      \* samples at the end without the inertial data the others have are incomplete,
      \* and those of a last burst without any clock have no time
      whole == {i \in 1..stop : (DOMAIN imu = {} \/ i \in DOMAIN imu)
                                /\ (m # "Vector" \/ \E j \in DOMAIN S : Burst(b, stop, j) = Burst(b, stop, i))}
      n == IF whole = {} THEN 0 ELSE Max(whole)
      k == e.start
      got == e.out.vars
      want == CASE m = "Vector" -> {"vel", "amp", "corr", "pressure", "error", "status", "orientation_down", "time"} \cup DOMAIN SlowOff
                     \cup (IF DOMAIN imu = {} THEN {} ELSE ImuVars(U8(b, imu[Min(DOMAIN imu)] + 5)))
                [] m = "AWAC" -> {"batt", "c_sound", "heading", "pitch", "roll", "temp", "error", "status", "pressure", "vel", "amp", "time"}
                [] OTHER -> {"vel", "amp", "corr", "status", "time"}
      ev == Pick(b, R, 15)
      ok(nm, i, v) ==
        CASE m = "AWAC" -> IF nm = "time" THEN TimeIs(v, At(V[i], b), 0) ELSE v = AwVal(b, V[i], nm)
          [] m = "Vectrino" -> IF nm = "time" THEN LET u == (i - 1) * Avg(b) IN
                   v[1] = Secs(b, ev[1] + 4) + u \div 50000 /\ Near(v[2], u % 50000, 1)
                 ELSE v = VnVal(b, V[i], nm)
          [] nm \in {"vel", "amp", "corr", "pressure"} -> v = VecVal(b, V[i], nm)
          [] nm = "time" -> OkTime(b, S, n, i, v)
          [] nm \in DOMAIN SlowOff -> OkSlow(b, S, n, nm, i, v[1])
          [] nm = "error" -> v = (IF i \in DOMAIN S THEN <<U8(b, S[i] + 22)>> ELSE <<0>>)
          [] nm = "status" -> v = (IF i \in DOMAIN S THEN <<U8(b, S[i] + 23)>> ELSE <<0>>)
          [] nm = "orientation_down" -> OkDown(b, S, n, i, v[1])
          [] OTHER -> IF i \in DOMAIN imu THEN v = ImuVal(b, imu[i], nm) ELSE \A x \in Range(v) : x = NANV
      c == Config(b)
      timed == m = "AWAC" \/ (m = "Vector" /\ DOMAIN S \cap 1..n # {}) \/ (m = "Vectrino" /\ ev # <<>>)
  IN IF stop = 0 \/ ~timed \/ k >= n THEN {}       \* nothing to return, or no time to give it
  ELSE IF e.raised THEN {"refused"}
  ELSE IF e.out.n # n - k THEN {"number-of-samples"} ELSE
     (IF want \subseteq DOMAIN got THEN {} ELSE {"variables-lost"})
     \cup (IF DOMAIN got \subseteq want THEN {} ELSE {"variables-invented"})
     \cup {nm \in want \cap DOMAIN got : ~(Len(got[nm]) = n - k /\ \A i \in (k + 1)..n : ok(nm, i, got[nm][i - k]))}
     \cup (IF \A a \in DOMAIN c : a \in DOMAIN e.out.attrs /\ e.out.attrs[a] = c[a] THEN {} ELSE {"configuration"})
     \cup (IF m # "AWAC" \/ OkRange(b, e.out.range) THEN {} ELSE {"range"})
     \cup (IF e.out.has_imu = (IF m = "Vector" /\ DOMAIN imu # {} THEN 1 ELSE 0) THEN {} ELSE {"imu-flag"})
====

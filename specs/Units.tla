---- MODULE Units ----
(* Dimensional analysis.  Every result is a product of powers of its inputs, so
   it has a dimension <<length, time>>: stretch the ruler by 2^l and the clock by
   2^t and the result is stretched by 2^(l * length + t * time), for any formula,
   and the units it declares have that dimension. *)
EXTENDS Fl
\* ---- what is measured and what is computed from it, and its dimension
Dim == [len |-> <<1, 0>>, time |-> <<0, 1>>, freq |-> <<0, -1>>, vel |-> <<1, -1>>, accel |-> <<1, -2>>, rate |-> <<0, -1>>,
        num |-> <<0, 0>>, energy |-> <<2, -2>>, energy2 |-> <<4, -4>>, spectrum |-> <<2, -1>>, diss |-> <<2, -3>>, shear |-> <<0, -1>>, shear2 |-> <<0, -2>>,
        accel2 |-> <<2, -4>>, rate2 |-> <<0, -2>>, density |-> <<-3, 0>>]  \* the kilogram is not stretched
\* quantities are products of halves of powers: <<result, <<factor, twice the power>>, ...>>
Rules == {[n |-> "complex-velocity", out |-> "vel", in |-> <<<<"vel", 2>>>>],
          [n |-> "variance", out |-> "energy", in |-> <<<<"vel", 4>>>>],
          [n |-> "covariance", out |-> "energy", in |-> <<<<"vel", 2>>, <<"vel", 2>>>>],
          [n |-> "deviation", out |-> "vel", in |-> <<<<"energy", 1>>>>],
          [n |-> "intensity", out |-> "num", in |-> <<<<"vel", 2>>, <<"vel", -2>>>>],
          [n |-> "tke-intensity", out |-> "num", in |-> <<<<"energy", 1>>, <<"vel", -2>>>>],
          [n |-> "coherent-energy", out |-> "energy", in |-> <<<<"energy2", 1>>>>],
          [n |-> "energy-squared", out |-> "energy2", in |-> <<<<"energy", 4>>>>],
          [n |-> "spectrum", out |-> "spectrum", in |-> <<<<"energy", 2>>, <<"freq", -2>>>>],
          [n |-> "integral", out |-> "energy", in |-> <<<<"spectrum", 2>>, <<"freq", 2>>>>],
          [n |-> "noise-level", out |-> "vel", in |-> <<<<"spectrum", 1>>, <<"freq", 1>>>>],
          [n |-> "inertial-range", out |-> "diss", in |-> <<<<"spectrum", 3>>, <<"freq", 5>>, <<"vel", -2>>>>],
          [n |-> "structure-function", out |-> "energy", in |-> <<<<"vel", 4>>>>],
          [n |-> "two-thirds-law", out |-> "diss", in |-> <<<<"energy", 3>>, <<"len", -2>>>>],
          [n |-> "taylor", out |-> "len", in |-> <<<<"vel", 2>>, <<"freq", -2>>>>],
          [n |-> "integral-scale", out |-> "len", in |-> <<<<"vel", 2>>, <<"time", 2>>>>],
          [n |-> "shear", out |-> "shear", in |-> <<<<"vel", 2>>, <<"len", -2>>>>],
          [n |-> "shear-squared", out |-> "shear2", in |-> <<<<"shear", 4>>>>],
          [n |-> "friction", out |-> "vel", in |-> <<<<"energy", 1>>, <<"len", 2>>, <<"len", -2>>>>],
          [n |-> "period", out |-> "freq", in |-> <<<<"time", -2>>>>],
          [n |-> "surface", out |-> "len", in |-> <<<<"len", 2>>, <<"num", 2>>>>],
          [n |-> "coherence", out |-> "num", in |-> <<<<"spectrum", 4>>, <<"spectrum", -2>>, <<"spectrum", -2>>>>],
          [n |-> "slope", out |-> "num", in |-> <<<<"spectrum", 2>>, <<"spectrum", -2>>>>],
          [n |-> "swing", out |-> "vel", in |-> <<<<"rate", 2>>, <<"len", 2>>>>],
          [n |-> "integrated", out |-> "vel", in |-> <<<<"accel", 2>>, <<"time", 2>>>>],
          [n |-> "smoothed", out |-> "accel", in |-> <<<<"accel", 2>>>>],
          [n |-> "density", out |-> "density", in |-> <<<<"len", -6>>>>],
          [n |-> "accel-variance", out |-> "accel2", in |-> <<<<"accel", 4>>>>],
          [n |-> "rate-variance", out |-> "rate2", in |-> <<<<"rate", 4>>>>]}
Twice(r) == FoldLeft(LAMBDA a, f : <<a[1] + f[2] * Dim[f[1]][1], a[2] + f[2] * Dim[f[1]][2]>>, <<0, 0>>, r.in)
Consistent(r) == Twice(r) = <<2 * Dim[r.out][1], 2 * Dim[r.out][2]>>

\* ---- units: the meaning of a word
Word(w) == CASE w \in {"1", "rad", "rad-1", "%", "[0,1]", "degree", "degrees", "dB", "kg"} -> <<0, 0>>
             [] w = "m" -> <<1, 0>> [] w = "m2" -> <<2, 0>> [] w = "m-3" -> <<-3, 0>> [] w = "m/s" -> <<1, -1>> [] w = "s" -> <<0, 1>>
             [] w \in {"s-1", "Hz"} -> <<0, -1>> [] w = "s-2" -> <<0, -2>> [] w = "s-3" -> <<0, -3>> [] w = "Hz-1" -> <<0, 1>>
             [] w = "direction" -> <<0, 0>> [] OTHER -> <<999, 999>>
Meaning(tok, pow) == FoldLeft(LAMBDA a, w : <<a[1] + pow * Word(w)[1], a[2] + pow * Word(w)[2]>>, <<0, 0>>, tok)

\* ---- results of the code: what each is, and whether it says its units
Results ==
  [u |-> "vel", v |-> "vel", w |-> "vel", U |-> "vel", U_mag |-> "vel", U_dir |-> "num", U_std |-> "vel", mean |-> "vel", vel_var |-> "energy",
   accel_var |-> "accel2", angrt_var |-> "rate2",
   tke_vec |-> "energy", stress_vec |-> "energy", tke |-> "energy", E_coh |-> "energy", I |-> "num", I_tke |-> "num", ti |-> "num",
   upup_ |-> "energy", vpvp_ |-> "energy", wpwp_ |-> "energy", upvp_ |-> "energy", upwp_ |-> "energy", vpwp_ |-> "energy",
   psd |-> "spectrum", csd |-> "spectrum", freq |-> "freq", coh_freq |-> "freq", f |-> "freq", coh |-> "num", phase |-> "num", acov |-> "energy", xcov |-> "energy",
   noise |-> "vel", eps_LT |-> "diss", eps_SF |-> "diss", eps_TE |-> "diss", L_int |-> "len", slope |-> "num", dudz |-> "shear", dvdz |-> "shear", dwdz |-> "shear",
   tau2 |-> "shear2", SF |-> "energy", struct_noise |-> "vel", range_SF |-> "len", ustar |-> "vel", depth |-> "len", filled |-> "vel", mask |-> "num",
   velacc |-> "vel", acclow |-> "accel", velrot |-> "vel", range |-> "len", profile_psd |-> "spectrum", tke_only |-> "energy",
   psd_fs |-> "spectrum", freq_fs |-> "freq", csd_fs |-> "spectrum", coh_freq_fs |-> "freq", L_int_fs |-> "len", eps_SF_fs |-> "diss", ustar_H |-> "vel", depth_P |-> "len", water_density |-> "density", range_off |-> "len"]
\* results that are plain arrays or carry no units
Silent == {"coh", "phase", "acov", "xcov", "slope", "mask", "range_SF", "mean", "u", "v", "w", "range", "upup_", "vpvp_", "wpwp_", "upvp_", "upwp_", "vpwp_", "filled"}
Std == [U_mag |-> "sea_water_speed", U_dir |-> "sea_water_to_direction", tke |-> "specific_turbulent_kinetic_energy_of_sea_water",
        tke_vec |-> "specific_turbulent_kinetic_energy_of_sea_water", depth |-> "depth", depth_P |-> "depth", water_density |-> "sea_water_density",
        eps_LT |-> "specific_turbulent_kinetic_energy_dissipation_in_sea_water", eps_SF |-> "specific_turbulent_kinetic_energy_dissipation_in_sea_water",
        eps_TE |-> "specific_turbulent_kinetic_energy_dissipation_in_sea_water", L_int |-> "turbulent_mixing_length_of_sea_water"]
Stretch(x, k) == IF FIsNaN(x) \/ x[1] = 0 THEN x ELSE <<x[1], x[2] + k>>
Size(a) == FoldLeft(LAMBDA m, x : IF ~FIsNaN(x) /\ FLt(m, <<Abs(x[1]), x[2]>>) THEN <<Abs(x[1]), x[2]>> ELSE m, FZ, a)
\* equal to a part in 3000, or in 200000 of the largest
Alike(a, b) == /\ Len(a) = Len(b)
               /\ LET s == Size(b) IN \A i \in 1..Len(a) : FCloseAbs(a[i], b[i], 3000, <<s[1], s[2] - 6>>)
Scaled(a, k) == [i \in 1..Len(a) |-> Stretch(a[i], k)]
FailLabel(e) ==
  IF e.q \notin DOMAIN Results THEN {"harness-unknown-result"}
  ELSE LET d == Dim[Results[e.q]] IN
       (IF e.tok = <<>> THEN IF e.q \in Silent THEN {} ELSE {"no-units-of-" \o e.q}
             ELSE IF Meaning(e.tok, e.pow) = d THEN {} ELSE {"units-of-" \o e.q})
       \cup (IF e.q \in DOMAIN Std /\ e.sn # Std[e.q] THEN {"standard-name-of-" \o e.q} ELSE {})
FailScale(e) ==
  IF e.q \notin DOMAIN Results THEN {"harness-unknown-result"}
  ELSE LET d == Dim[Results[e.q]] IN
       (IF Alike(Scaled(e.a, e.l * d[1] + e.t * d[2]), e.b) THEN {}
        \* the structure function of profiles is fitted to r * r / 3: its dissipation does not know the length
        ELSE IF e.q = "eps_SF" /\ e.src = "profile" /\ Alike(Scaled(e.a, e.t * d[2]), e.b) THEN {"dissipation-ignores-length"}
        ELSE {"scale-of-" \o e.q})
       \cup FailLabel(e)
\* the same in Hz and in radians per second
TwoPi == FMul(FInt(2), FPi)
Factor(q) == CASE Results[q] = "freq" -> TwoPi [] Results[q] = "spectrum" -> FDivF(FInt(1), TwoPi) [] OTHER -> FInt(1)
\* coherence and phase are always given against Hz
FailTurns(e) == IF e.q = "f" \/ Alike([i \in 1..Len(e.a) |-> FMul(e.a[i], Factor(e.q))], e.b) THEN {}
                \* the noise taken off a spectrum in radians is the one for Hz, so too much
                ELSE IF e.q = "eps_LT" /\ e.noise /\ Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : FIsNaN(e.b[i]) \/ (~FIsNaN(e.a[i]) /\ ~FLt(e.a[i], e.b[i]))
                  THEN {"noise-of-hz-taken-off-radians"}
                ELSE {"depends-on-the-unit-of-frequency-" \o e.q}
Failures(e) == CASE e.k = "scale" -> FailScale(e) [] e.k = "label" -> FailLabel(e)
                 \* the rate given with the call counts, not the one of the binner
                 [] e.k = "told" -> IF Alike(e.a, e.b) THEN {} ELSE {"rate-not-taken-" \o e.q} [] e.k = "turns" -> FailTurns(e)
====

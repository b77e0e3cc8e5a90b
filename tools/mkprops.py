"""Writes properties.jsonl (the single source of the statements)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Frame rotations are path-independent, invertible changes of basis",
  "For every supported instrument, any sequence of rotations among the beam, instrument, earth and principal frames leaves every listed vector variable expressed exactly in the frame the dataset is labelled with: the result depends only on the frame reached, not on the route, returning to a frame restores the original values, and rotations between orthonormal frames preserve vector length. The frame attribute and the direction labels always name the frame the data are in, also after a refused request, and variables that are not listed for rotation (and missing samples' neighbours) are left untouched. Asking for a copy never changes the dataset it was made from.",
  ["histories", "configurations"],
  "all sequences of rotate requests over 12 instrument/orientation/start-frame configurations; exhaustive to length 3 (4 thorough) plus longer random histories",
  "The repository's rotation tests compare single rotations with stored files (which are not even present) and sample one start frame per instrument; none ranges over sequences of rotations.",
  ["dolfyn/rotate/api.py", "dolfyn/rotate/base.py", "dolfyn/rotate/vector.py", "dolfyn/rotate/signature.py", "dolfyn/rotate/rdi.py"],
  [("rotate2 walks the chain beam-inst-earth-principal", "dolfyn/rotate/api.py:rotate2"),
   ("per-instrument inst<->earth steps", "dolfyn/rotate/{vector,signature,rdi}.py:_inst2earth"),
   ("labels", "dolfyn/rotate/base.py:_set_coords")],
  ["dataset values, 'dir' coordinate, coord_sys attribute after each call"],
  [("coord_sys", "frame the vectors are in", "ds.attrs")])

p("C02", "Setting declination re-bases heading, orientation and earth data; last wins",
  "After any history of declination settings and rotations the dataset is the one obtained by setting only the last declination once: earth-frame vectors point to true north, the orientation matrix rotates between the true earth frame and the instrument, the heading and the principal heading have moved by exactly that declination, and the declination attribute holds it. Beam, instrument and principal-frame vectors are never changed by it, and setting the same declination twice is the same as setting it once.",
  ["histories", "configurations"],
  "all histories over {4 declinations, 4 rotations, principal heading} to length 3 (4 thorough) on 12 configurations, plus random longer ones",
  "The tests set declination at most twice on one stored file; the guarantee is about every interleaving of declination changes with rotations.",
  ["dolfyn/rotate/api.py"],
  [("set_declination", "dolfyn/rotate/api.py:set_declination")],
  ["orientmat, heading, vel, attrs"])

p("C03", "The ADV head rotation is applied exactly once, to velocity only",
  "Setting the head rotation matrix of an ADV re-expresses the water velocity (and no other vector) as if the matrix had been applied in the instrument frame, whatever frame the dataset was in at the time, leaves beam-frame values unchanged and keeps the dataset in its frame, and all later rotations remain consistent with it. A second attempt, or an attempt on any other instrument, is refused and changes nothing. A head matrix that is not a proper rotation never turns a velocity.",
  ["histories", "configurations"],
  "all histories over {2 head matrices, 4 rotations, declination, principal heading} to length 3 (4 thorough) plus random longer ones",
  "The two tests set one matrix in the instrument frame; the order relative to rotations and declination is never varied.",
  ["dolfyn/rotate/api.py", "dolfyn/rotate/vector.py"],
  [("set_inst2head_rotmat", "dolfyn/rotate/api.py"), ("_rotate_inst2head", "dolfyn/rotate/vector.py")],
  ["vel, inst2head_rotmat, attrs"])

p("C04", "Euler angles, quaternions and orientation matrices describe one attitude",
  "Every orientation matrix the library derives from heading, pitch and roll or from a quaternion is a proper rotation that follows the documented axis and sign conventions, sample by sample, and converting angles to a matrix and back returns the same attitude with heading in 0 to 360. The orientation matrix of a dataset read from a file is the one of the heading, pitch and roll recorded with each sample. A dataset without a stored orientation matrix rotates exactly as if the matrix of its own recorded heading, pitch and roll (in its manufacturer's convention, including upward or downward mounting) had been stored. Tilt is the angle of the instrument's vertical axis implied by pitch and roll.",
  ["inputs", "configurations"],
  "all attitudes on a rational lattice of angles (quarter turns and 3-4-5 / 5-12-13 angles) per axis, mixed over time steps, for all instrument conventions",
  "test_hpr_defs checks two attitudes; the conventions must agree at every attitude and mounting.",
  ["dolfyn/rotate/base.py", "dolfyn/rotate/vector.py", "dolfyn/rotate/rdi.py", "dolfyn/rotate/signature.py"],
  [("euler2orient / orient2euler / quaternion2orient / calc_tilt", "dolfyn/rotate/base.py"),
   ("manufacturer conventions", "dolfyn/rotate/vector.py:_euler2orient, dolfyn/rotate/rdi.py:_calc_orientmat")],
  ["returned matrices and angles"])

p("C05", "Principal heading and flow direction follow one compass convention",
  "The principal heading of a flow that runs back and forth along one line is that line's compass heading in [0, 180) (directed mode: the compass heading of the mean velocity), it turns by the same angle when the whole flow is turned, and it ignores the vertical component, missing samples, the order of samples and the sign of any single one; where no sample is known there is no heading. The reported flow direction of each sample is the clockwise angle from the frame's reference axis (north in the earth frame, streamwise or x otherwise), in [0, 360], so that speed and direction rebuild the velocity.",
  ["inputs"],
  "vector sets on a rational lattice in all quadrants, with missing samples, both modes, all frames",
  "Tests evaluate one recorded mean flow; branch cuts and missing samples are not sampled.",
  ["dolfyn/rotate/api.py", "dolfyn/tools/misc.py", "dolfyn/velocity.py"],
  [("calc_principal_heading", "dolfyn/rotate/api.py"), ("convert_degrees", "dolfyn/tools/misc.py"), ("U_dir", "dolfyn/velocity.py")],
  ["returned headings"])

p("C06", "Binning partitions the record: every sample in its own bin, none invented",
  "Splitting a record into bins assigns consecutive samples to consecutive bins of the requested length in order, drops only the incomplete tail, and with padding repeats exactly the requested number of neighbouring samples on each side, filling with zeros only outside the record; a fractional bin length drops the samples nearest the accumulated fraction so that bins keep pace with the record. Mean, detrended and demeaned series, variance, standard deviation and the centred bin times are those of exactly these samples, over any axis, ignoring missing ones (a missing sample stays missing and spreads to no other).",
  ["inputs", "configurations"],
  "all record lengths, bin lengths (integer and fractional), paddings and axes within small bounds, values exact integers with missing samples",
  "Tests use one length and one bin size; off-by-one errors at bin edges, tails, pads and fractional lengths need the whole parameter space.",
  ["dolfyn/binned.py", "dolfyn/tools/misc.py"],
  [("reshape", "dolfyn/binned.py:TimeBinner.reshape"), ("detrend/demean/mean/var/std", "dolfyn/binned.py"), ("nans_like, detrend_array", "dolfyn/tools/misc.py")],
  ["returned arrays"])

p("C07", "Bin-averaging a dataset averages every time series and loses nothing else",
  "Averaging (or taking the variance of) a whole dataset produces, for every numeric variable with a time dimension, the per-bin statistic of exactly its own samples on the bins' own mean times (of the variable's own time axis), keeps attributes and coordinates, skips missing samples, never averages over another dimension, and never changes the source dataset. Adding to an existing averaged dataset is accepted only if it was averaged with the same parameters, and repeating the averaging gives the same result.",
  ["inputs", "configurations", "histories"],
  "datasets over all combinations of variable shapes/dtypes and bin lengths in small bounds; sequences of do_avg/do_var calls into one output",
  "Tests compare a single averaged file; the combination of names, shapes, missing values and repeated calls is not varied.",
  ["dolfyn/velocity.py", "dolfyn/binned.py"],
  [("do_avg / do_var", "dolfyn/velocity.py:VelBinner"), ("parameter agreement", "dolfyn/binned.py:TimeBinner.check_arr / _outdt")],
  ["output dataset"])

p("C08", "Spectral estimates account for each bin's samples and conserve variance",
  "Power, cross, coherence and phase spectra of each bin are the windowed average over that bin's overlapping segments only, use every segment exactly once with the correct normalisation, and integrate over the returned frequencies (the Nyquist frequency counting half) to the variance (covariance) of the detrended segments. Frequencies run from one resolution step to the Nyquist frequency in the requested unit, coherence (before any debiasing) lies in [0, 1] and is 1 for identical signals, swapping the two signals conjugates cross spectra and negates phase, and scaling a signal by k scales its power by k squared.",
  ["inputs", "configurations"],
  "all (bin length, fft length, step, window, unit) in small bounds on integer signals whose transform is exactly rational",
  "Tests compare one recorded spectrum; segment counts and overlaps that do not divide evenly are not exercised.",
  ["dolfyn/tools/psd.py", "dolfyn/binned.py", "dolfyn/velocity.py"],
  [("cpsd / cpsd_quasisync / psd / psd_freq / coherence / phase_angle", "dolfyn/tools/psd.py"), ("calc_psd_base / calc_csd_base", "dolfyn/binned.py"), ("calc_psd / calc_csd / calc_coh / calc_phase_angle", "dolfyn/velocity.py, dolfyn/binned.py")],
  ["spectra and frequency axes"])

p("C09", "Gap tools find every run once and only ever touch missing samples",
  "Grouping a boolean series returns exactly its maximal runs of true values, in order, each at least the requested minimum length. Filling gaps by neighbours or by interpolation changes only missing samples, fills exactly those gaps that are no longer than the limit (and, unless extrapolation is requested, have data on both sides), with values taken from or between the gap's own two neighbours, independently along every series of a multi-dimensional array. A nan-aware median is the median of the non-missing samples in the window.",
  ["inputs"],
  "all boolean series to length 10 (12 thorough); all missing-sample patterns to length 8 with every limit and extrapolation flag; stacked series",
  "test_tools samples four short arrays; run boundaries at the ends and several runs per series are not covered.",
  ["dolfyn/tools/misc.py"],
  [("group, slice1d_along_axis, fillgaps, interpgaps, medfiltnan", "dolfyn/tools/misc.py")],
  ["returned arrays"])

p("C10", "ADV cleaning flags what its rule says and replaces only flagged samples",
  "Each despiking rule (range limit, spike threshold, phase-space threshold) flags exactly the samples its documented criterion selects, independently for each velocity component, and never flags a constant or in-range record. Replacing flagged samples leaves every unflagged sample as it was, replaces only within the permitted gap length using good neighbours or the ensemble mean, and never lets flagged values influence the replacement.",
  ["inputs"],
  "integer velocity series with spikes at every position and in every component, all masks to length 8-10, with every method and gap limit",
  "Tests compare one cleaned file; positions of spikes relative to bins, edges and components are not varied.",
  ["dolfyn/adv/clean.py"],
  [("clean_fill, fill_nan_ensemble_mean, spike_thresh, range_limit, GN2002", "dolfyn/adv/clean.py")],
  ["mask and cleaned arrays"])

p("C11", "ADCP cleaning removes exactly the cells its criterion names",
  "The surface is found at the strongest true echo beyond its initial decay or from pressure and clock-independent physics, and removal beyond it blanks precisely the cells whose reach (adjusted for beam angle and cell size) crosses it, in every velocity-like variable and no other. Correlation and threshold filters blank exactly the cells or samples that fail the criterion, filling touches only missing cells, a range offset moves every range coordinate by the same amount once, and by default the caller's dataset is not altered where the operation promises a copy.",
  ["inputs", "configurations"],
  "profiles over all surface positions, cell sizes, beam angles, orientations and thresholds in small bounds, several range coordinates",
  "Tests compare three files; boundary cells, short records and 5-beam variants are not varied.",
  ["dolfyn/adp/clean.py"],
  [("set_range_offset, find_surface, find_surface_from_P, nan_beyond_surface, correlation_filter, medfilt_orient, val_exceeds_thresh, fillgaps_time, fillgaps_depth", "dolfyn/adp/clean.py")],
  ["dataset values"])

p("C12", "TRDI files are decoded ensemble by ensemble exactly as written",
  "Reading a TRDI PD0 file returns one sample per complete, checksum-valid ensemble in file order with every recorded field (time, attitude, velocities, correlation, amplitude, percent-good, bottom track, pressure, status) equal to what was written, scaled to physical units, with the instrument's bad-value marker as missing data. Ensemble geometry, bottom-track presence, the order of the blocks, navigation blocks of the ship's software, unknown data blocks and ensemble-number roll-over never shift or mix values between ensembles, cells or beams.",
  ["inputs", "configurations"],
  "synthetic PD0 streams enumerated by the specification over cells, pings, optional blocks, block order and field values, encoded independently of the reader",
  "The sample files are not available offline and sample a handful of instruments; field/cell/beam mix-ups in other layouts are not reached.",
  ["dolfyn/io/rdi.py", "dolfyn/io/rdi_defs.py", "dolfyn/io/rdi_lib.py", "dolfyn/io/base.py"],
  [("ensemble reader", "dolfyn/io/rdi.py"), ("variable tables", "dolfyn/io/rdi_defs.py")],
  ["dolfyn.read"])

p("C13", "Nortek classic files are decoded record by record exactly as written",
  "Reading a Nortek Vector or AWAC file returns one sample per complete velocity record in file order with velocity, amplitude, correlation, pressure, inertial data and (interpolated to, or recorded with, the sample) time, attitude, temperature and battery equal to what was written, scaled by the recorded configuration, and configuration, head and transformation data taken from the file's own headers; a heading between two records lies on the shorter way round, in 0 to 360 degrees. A Vectrino file (which has no clock) returns its records' values likewise. Interleaved record types, missing or optional inertial records and records of other types never shift or mix values between samples, cells or beams.",
  ["inputs", "configurations"],
  "synthetic record streams enumerated by the specification over record interleavings, cells, optional records and field values",
  "The sample files are not available offline; record interleavings other than the sampled ones are not reached.",
  ["dolfyn/io/nortek.py", "dolfyn/io/nortek_defs.py", "dolfyn/io/base.py"],
  [("record dispatch and per-record readers", "dolfyn/io/nortek.py")],
  ["dolfyn.read"])

p("C14", "AD2CP (Signature) files are decoded packet by packet exactly as written",
  "Reading a Nortek Signature file returns, for every data stream in it, one sample per ensemble with all beams' and all streams' values (velocity, amplitude, correlation, altimeter, bottom track, echo, attitude, AHRS orientation) equal to what was written, in the units the format defines and on the ensembles' own times; the matrices are oriented as labelled. The streams of an ensemble share one index, also where packets of a stream are missing now and then: such a sample holds zeros (and status 0) and affects no other, and what the slant and the vertical ping of an ensemble share is their mean, or the one there is. Raw-altimeter packets have a time axis of their own; string, unknown and unsupported packets change nothing; two profiles in one file give two datasets. What the packets tell of the instrument (cells, blanking, ambiguity velocity, serial number, what the streams hold, tilt and power of the altimeter, wake-up and idle state) is told by the data set, and so is the rate its samples were taken at (the bursts' sampling rate, one average per measurement interval) and the averaging interval. Cell counts, first counter value, a bad clock in a packet and a rebuilt or cached index never change the decoded values. Only a last ensemble unlike the others in length may be left out.",
  ["inputs", "configurations", "histories"],
  "synthetic packet streams enumerated by the specification over stream interleavings, skipped packets, configurations and index states",
  "The sample files are not available offline; interleavings and skipped packets other than the sampled ones are not reached.",
  ["dolfyn/io/nortek2.py", "dolfyn/io/nortek2_lib.py", "dolfyn/io/nortek2_defs.py"],
  [("packet index", "dolfyn/io/nortek2_lib.py:get_index"), ("packet readers and reorganisation", "dolfyn/io/nortek2.py"), ("field table", "dolfyn/io/nortek2_defs.py")],
  ["dolfyn.read"])

p("C15", "Reading a window of ensembles equals slicing the full read",
  "Reading only the first N ensembles, or (where the format supports it) ensembles from start to stop, gives for every recorded variable exactly the corresponding slice of what reading the whole file gives, with identical coordinates, metadata and scaling, and nothing unread appears in the result; cropping a Signature file to such a window gives a file that reads as that slice. A window that ends beyond the file returns what the file holds. Only values a Vector interpolates between its system records may be missing in a window that does not hold such records, never different.",
  ["inputs", "configurations"],
  "every window of every synthetic stream of each format in small bounds",
  "Tests read one fixed count per sample file and never compare it with the full read.",
  ["dolfyn/io/rdi.py", "dolfyn/io/nortek.py", "dolfyn/io/nortek2.py", "dolfyn/io/api.py"],
  [("nens handling", "dolfyn/io/*.py")],
  ["dolfyn.read(nens=...)"])

p("C16", "Damaged files lose only the damaged records, never yield invented data",
  "Truncating a TRDI or Nortek file at any byte makes the reader drop at most the affected record (and what only it could complete), never a whole one before it. Corrupting bytes of a TRDI ensemble, inserting foreign bytes between ensembles, or corrupting a record of a classic Nortek file read with checksums on, costs at most the damaged records: every sample returned equals one that was written, in the original order, and records away from the damage are still returned. A record whose checksum does not match is never returned as good data, and a reader that cannot continue reports an error instead of returning partial garbage.",
  ["fault_sequences", "crash_points", "inputs"],
  "every truncation point and every single-record corruption (header, payload, checksum, junk between records) of synthetic streams of each format",
  "Tests read intact files only.",
  ["dolfyn/io/rdi.py", "dolfyn/io/nortek.py", "dolfyn/io/nortek2.py", "dolfyn/io/nortek2_lib.py"],
  [("resynchronisation and checksums", "dolfyn/io/rdi.py"), ("checksums", "dolfyn/io/nortek.py, dolfyn/io/nortek2_lib.py")],
  ["dolfyn.read"])

p("C17", "Format detection and user metadata are honoured, from the right source",
  "A file is read by the reader of the format its own leading bytes identify, whatever its name; anything else is refused with an error naming the file (and a git-lfs pointer is recognised as one). User metadata is taken from exactly the file explicitly named (whose absence is an error), by default from '<data file without extension>.userdata.json' or else '<data file>.userdata.json' and from no other, and not at all when switched off; every entry becomes an attribute, and a declination or (for an ADV) head rotation in it is applied exactly as if set by hand after reading.",
  ["inputs", "configurations"],
  "all combinations of metadata files present x switch x content x file format, and all pairs of leading bytes (thorough; seven first bytes quick)",
  "Tests read files with their side-car metadata only; other sources are never exercised.",
  ["dolfyn/io/api.py", "dolfyn/io/base.py"],
  [("type detection", "dolfyn/io/api.py:_get_filetype"), ("userdata", "dolfyn/io/base.py:_find_userdata, read_userdata")],
  ["dolfyn.read(userdata=...)"])

p("C18", "Saving and loading a dataset returns it unchanged, and saving has no effects",
  "Loading a saved netCDF file returns a dataset with the same variables, dimensions, coordinates, values (double precision data at single precision; complex values, missing samples and times included, times to the microsecond) and attributes (numbers, strings and lists of either, on the dataset or on a variable; a one-entry list may come back as its entry), however often it is saved and loaded. Saving never changes the in-memory dataset, and storage options given by the caller (compression, per-variable encoding, data types) affect only how the file is stored.",
  ["inputs", "histories", "configurations"],
  "all combinations of variable dtype x shape x attribute kinds x storage options, and chains of save/load",
  "Tests save and load a few real files once (unavailable offline).",
  ["dolfyn/io/api.py"],
  [("save / load", "dolfyn/io/api.py"), ("_decode_cf/_create_encoding", "dolfyn/io/api.py")],
  ["save, load"])

p("C19", "A dataset survives the MATLAB round trip, and exporting has no effects",
  "Exporting a dataset as read from an instrument file (dimensions longer than one) to a MATLAB file and loading it back returns the same variables, values, dimensions, coordinates, times (to MATLAB's resolution) and attributes, whether or not times were stored as MATLAB datenums. Exporting never changes the in-memory dataset.",
  ["inputs", "histories", "configurations"],
  "all combinations of variable shape x dtype x number of time coordinates x datenum option",
  "Tests cover two files unavailable offline.",
  ["dolfyn/io/api.py", "dolfyn/time.py"],
  [("save_mat / load_mat", "dolfyn/io/api.py")],
  ["save_mat, load_mat"])

p("C20", "Time representations convert into one another without shifting a sample",
  "Converting between datetime64, epoch seconds, datetime objects, strings and MATLAB datenums returns the same instant within each representation's resolution, in every direction and composition, for any date including leap years and dates before 1970, independently of the local time zone, and a missing time stays missing between datetime64 and epoch form. Filling missing times gives strictly ordered times that agree with every valid one and are evenly spaced in each gap.",
  ["inputs"],
  "instants on a lattice of dates (leap days, month ends, negative epochs, sub-second parts), all conversion compositions, all missing-time patterns to length 8",
  "Tests convert the start of one file.",
  ["dolfyn/time.py"],
  [("epoch2dt64, dt642epoch, date2dt64, dt642date, epoch2date, date2str, date2epoch, date2matlab, matlab2date, fill_time_gaps", "dolfyn/time.py")],
  ["returned values"])

p("C21", "Motion correction adds exactly the platform's motion, once",
  "Correcting an ADV record for motion gives the raw velocity plus the translational and rotational head velocities computed from the inertial data (zero motion gives the unchanged velocity; rotation induced velocity is the angular rate crossed with the head position), keeps the raw velocity and each correction as separate variables whose sum is the corrected one in whatever frame the dataset is then rotated to, and refuses to correct twice or to run without the required inertial data or position. The source dataset is never changed, and processing in earth or instrument coordinates, or each burst of a duty-cycled record, gives the same answer as for continuous data.",
  ["inputs", "configurations", "histories"],
  "constant and integer-step attitude, rate and acceleration records over orientations, head positions, frames and option combinations",
  "Tests compare one record with stored output.",
  ["dolfyn/adv/motion.py"],
  [("correct_motion, CalcMotion", "dolfyn/adv/motion.py")],
  ["corrected dataset"])

p("C22", "ADV turbulence statistics are the moments of their own bin's samples",
  "Turbulent kinetic energy components, Reynolds stresses, turbulence intensity and the averaged dataset returned by the ADV analysis are the (co)variances of exactly the samples of each bin, with noise (given in velocity units, its square removed from the variances and spread over the spectra) subtracted where given and never negative energy from noise-free data; the noise level read off a spectrum is that of the requested high-frequency band, whatever unit the spectrum's frequency has. Dissipation estimates scale with the flow as theory demands (spectrum times k gives k to the 3/2, in-range frequencies only), integral scales come from the bin's own autocovariance, and the source dataset is unchanged.",
  ["inputs", "configurations"],
  "integer velocity records over all bin lengths, components, noise levels and frequency windows in small bounds",
  "Tests compare one record with stored output.",
  ["dolfyn/adv/turbulence.py", "dolfyn/velocity.py"],
  [("ADVBinner", "dolfyn/adv/turbulence.py"), ("calc_tke, calc_stress, calc_ti, autocovariance", "dolfyn/velocity.py, dolfyn/adv/turbulence.py")],
  ["returned variables"])

p("C23", "ADCP turbulence statistics use the right beams, cells and geometry",
  "Vertical shear is the derivative of the chosen velocity component over the true cell positions for any mounting and differencing scheme; noise, stresses and kinetic energy combine the variances of the right beams (by instrument make and mounting) with the right angle factors; friction velocity comes from the requested cells; structure-function and spectral dissipation use the documented powers and only the requested cells or frequencies. All are computed per time bin, and neither the result nor the caller's dataset depends on the other options.",
  ["inputs", "configurations"],
  "linear and integer profiles over mountings, differencing schemes, beam angles and bin lengths in small bounds",
  "Tests compare one tidal record with stored output.",
  ["dolfyn/adp/turbulence.py"],
  [("ADPBinner, diff_*", "dolfyn/adp/turbulence.py")],
  ["returned variables"])

p("C24", "Velocity shortcuts are exact views of the underlying variables",
  "The named shortcuts (velocity components, complex horizontal velocity and its magnitude, kinetic energy, stresses and intensities, coherent energy, integral scales) return, in whatever frame the data are in and for any dimensions, exactly the documented combination of the stored variables, on the same coordinates, and reading them never changes the dataset.",
  ["inputs", "configurations"],
  "integer velocity datasets over frames, shapes and presence of derived variables",
  "Tests compare shortcut values of one record with a stored file.",
  ["dolfyn/velocity.py"],
  [("Velocity accessor", "dolfyn/velocity.py")],
  ["accessor properties"])
p("C25", "A dataset's meaning depends on its state, not on the life that led to it",
  "Whatever the order in which a dataset is read, rotated between frames, given a declination, a principal heading or a head rotation, filtered by correlation, cut at the surface, offset to the deployment height, cut in time, saved and loaded, and bin-averaged, two lives that end in the same state end in the same variables and values, and no operation asked for a copy changes its source. After every step the dataset describes itself truthfully: coordinate system and direction labels agree with the frame the data are in, declination, principal heading, deployment height, bin size and sampling rate are those last given, the listed rotated variables exist, the time coordinate is increasing and the range coordinate includes the offset, and each known variable carries its own units, standard and long names and the dimensions of its data type (water velocity is not labelled bottom velocity).",
  ["inputs", "histories", "configurations"],
  "all lives of 4 (thorough 5) operations of the model on five instruments, a sample of those that meet replayed; files of all instrument families for the self-description",
  "Tests run each operation once on one file and compare with a stored result; they never compare two orders of the same operations nor read attributes after a sequence of them.",
  ["dolfyn/io/api.py", "dolfyn/io/base.py", "dolfyn/io/nortek2.py", "dolfyn/io/rdi.py", "dolfyn/io/nortek.py", "dolfyn/rotate/api.py", "dolfyn/rotate/base.py", "dolfyn/rotate/vector.py", "dolfyn/rotate/signature.py", "dolfyn/rotate/rdi.py", "dolfyn/adp/clean.py", "dolfyn/binned.py", "dolfyn/velocity.py"],
  [("_create_dataset", "dolfyn/io/base.py"), ("rotate2, set_declination, set_inst2head_rotmat", "dolfyn/rotate/api.py"), ("save, load", "dolfyn/io/api.py"), ("_set_coords", "dolfyn/rotate/base.py"), ("set_range_offset, nan_beyond_surface, correlation_filter", "dolfyn/adp/clean.py"), ("do_avg", "dolfyn/velocity.py")],
  ["dataset variables, dimensions, coordinates and attributes after each operation"])
p("C26", "Derived quantities have the dimension of the units they declare",
  "Whatever is computed from velocities (averages, variances, stresses, spectra, coherence, covariances, noise levels, turbulence intensities, dissipation rates, length scales, structure functions, shear, friction velocity, surface detection, despiking and gap filling, motion correction) has a physical dimension: measure the same record with another ruler and another clock (velocities, ranges, thresholds, times and sampling rates expressed in other units) and each result is the same quantity expressed in those units, its zero-dimensional results (intensities, coherences, slopes, masks) unchanged; the units attribute of each result has that dimension, the standard name is that of the quantity; and analysis with spectra in Hz and with spectra in rad/s gives the same physical results.",
  ["inputs", "configurations"],
  "point and profile records of random values, all rescalings of length and time by powers of two up to 8 (thorough 64), options of the analysis functions sampled",
  "Tests compare results of one record, at one sampling rate in one unit, with stored numbers, and never evaluate what the units say.",
  ["dolfyn/velocity.py", "dolfyn/binned.py", "dolfyn/adv/turbulence.py", "dolfyn/adp/turbulence.py", "dolfyn/adv/clean.py", "dolfyn/adp/clean.py", "dolfyn/adv/motion.py", "dolfyn/tools/psd.py"],
  [("VelBinner, Velocity", "dolfyn/velocity.py"), ("ADVBinner, calc_turbulence", "dolfyn/adv/turbulence.py"), ("ADPBinner", "dolfyn/adp/turbulence.py"), ("find_surface", "dolfyn/adp/clean.py"), ("correct_motion", "dolfyn/adv/motion.py")],
  ["results of the analysis functions and their units and standard_name attributes"])
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(OUT, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")

From d6eb19975c4aea151444816bbfa47ea1f5b8201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 01/95] fix: rotate AWAC-type data that store no orientation
 matrix

---
 dolfyn/rotate/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 0e8cc08..9a91376 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -94,6 +94,7 @@ def _inst2earth(advo, reverse=False, rotate_vars=None, force=False):
     if hasattr(advo, 'orientmat'):
         omat = advo['orientmat']
     else:
+        orientation_down = None
         if 'vector' in advo.inst_model.lower():
             orientation_down = advo['orientation_down']
 
-- 
2.43.0


From 6dc3c5f9a38a4d8fb78a61ee6e995afd63a61170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 02/95] fix: return directed principal headings between 0 and
 360 degrees

---
 dolfyn/rotate/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index eb5b38f..003a7ef 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -166,6 +166,8 @@ def calc_principal_heading(vel, tidal_mode=True):
             np.nanmean(dt, -1, dtype=np.complex128)) / 2
     else:
         pang = np.angle(np.nanmean(dt, -1))
+        # Compass headings run from 0 to 360 degrees
+        return np.round((90 - np.rad2deg(pang)) % 360, decimals=4)
 
     return np.round((90 - np.rad2deg(pang)), decimals=4)
 
-- 
2.43.0


From 8181c4af5cdefa1c31e96e8e886e070861232ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 03/95] fix: accept scalars in convert_degrees

---
 dolfyn/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index baba0be..f9dbb6c 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -342,5 +342,5 @@ def convert_degrees(deg, tidal_mode=True):
     """
     out = -(deg - 90) % 360
     if tidal_mode:
-        out[out > 180] -= 360
+        out = out - 360 * (out > 180)
     return out
-- 
2.43.0


From db06533813e7e6de3f39992010a58b089310dda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 04/95] fix: principal heading of an all-missing record is
 missing, not an error

---
 dolfyn/rotate/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index 003a7ef..2523a52 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -159,7 +159,7 @@ def calc_principal_heading(vel, tidal_mode=True):
         # Now double the angle, so that angles near pi and 0 get averaged
         # together correctly:
         dt *= np.exp(1j * np.angle(dt))
-        dt = np.ma.masked_invalid(dt)
+        dt = np.where(np.isfinite(dt), dt, np.nan)
         # Divide the angle by 2 to remove the doubling done on the previous
         # line.
         pang = np.angle(
-- 
2.43.0


From 7b873bdf4a121cc949611194605c1e40b816f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 05/95] fix: count fractional-length bins consistently

---
 dolfyn/binned.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index d61e935..ab2b90a 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -49,8 +49,9 @@ class TimeBinner:
     def _outshape(self, inshape, n_pad=0, n_bin=None):
         """Returns `outshape` (the 'reshape'd shape) for an `inshape` array.
         """
-        n_bin = int(self._parse_nbin(n_bin))
-        return list(inshape[:-1]) + [int(inshape[-1] // n_bin), int(n_bin + n_pad)]
+        n_bin = self._parse_nbin(n_bin)
+        return list(inshape[:-1]) + [int(inshape[-1] // n_bin),
+                                     int(int(n_bin) + n_pad)]
 
     def _outshape_fft(self, inshape, n_fft=None, n_bin=None):
         """Returns `outshape` (the fft 'reshape'd shape) for an `inshape` array.
-- 
2.43.0


From 39c034db1b523fecc99bd420ec62f7df46c00c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 06/95] fix: find all runs in group when the series starts with
 one

---
 dolfyn/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index f9dbb6c..3ff5591 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -87,7 +87,7 @@ def group(bl, min_length=0):
         if len(ups) == 0:
             ups = np.array([0])
         else:
-            ups = np.concatenate((np.array([0]), [len(ups)]))
+            ups = np.concatenate(([0], ups))
     if bl[-1]:
         if len(dns) == 0:
             dns = np.array([len(bl)])
-- 
2.43.0


From 8325a91672d5a8cda8298174311f56deccebc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 07/95] fix: average spectra over exactly the number of
 segments they are normalised by

---
 dolfyn/tools/psd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 5ac4d4f..5c8d212 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -228,8 +228,8 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
     pwr = fft(detrend(a[0:nfft]) * window)[fft_inds] * \
         np.conj(fft(detrend(b[0:nfft]) * window)[fft_inds])
     if nens - 1:
-        for i1, i2 in zip(range(step[0], l[0] - nfft + 1, step[0]),
-                          range(step[1], l[1] - nfft + 1, step[1])):
+        for i1, i2 in zip(range(step[0], nens * step[0], step[0]),
+                          range(step[1], nens * step[1], step[1])):
             pwr += fft(detrend(a[i1:(i1 + nfft)]) * window)[fft_inds] * \
                 np.conj(fft(detrend(b[i2:(i2 + nfft)]) * window)[fft_inds])
     pwr *= wght / nens / fs
@@ -311,7 +311,7 @@ def cpsd(a, b, nfft, fs, window='hann', step=None):
     else:
         pwr = s1 * np.conj(fft(detrend(b[0:nfft]) * window)[fft_inds])
     if nens - 1:
-        for i in range(step, l - nfft + 1, step):
+        for i in range(step, nens * step, step):
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
             if auto_psd:
                 pwr += np.abs(s1) ** 2
-- 
2.43.0


From 5b2c15391a39546054ef18896e2947a2e97f6728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 08/95] fix: keep the sign of the phase when the first signal
 is the longer one

---
 dolfyn/tools/psd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 5c8d212..07e58f0 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -215,7 +215,8 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
     l = [len(a), len(b)]
     if l[0] == l[1]:
         return cpsd(a, b, nfft, fs, window=window)
-    elif l[0] > l[1]:
+    swapped = l[0] > l[1]
+    if swapped:
         a, b = b, a
         l = l[::-1]
     step = [0, 0]
@@ -233,6 +234,9 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
             pwr += fft(detrend(a[i1:(i1 + nfft)]) * window)[fft_inds] * \
                 np.conj(fft(detrend(b[i2:(i2 + nfft)]) * window)[fft_inds])
     pwr *= wght / nens / fs
+    if swapped:
+        # fft(a)*conj(fft(b)) of the signals in the order they were given
+        pwr = np.conj(pwr)
     return pwr
 
 
-- 
2.43.0


From b6b388fe9a2351dff0c4b7b792b8d41bc922b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 09/95] fix: use the second signal in every segment of
 phase_angle

---
 dolfyn/tools/psd.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 07e58f0..303dce4 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -425,13 +425,18 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     s1 /= np.abs(s1)
     s2 /= np.abs(s2)
     ang = s2 / s1
-    l = len(a)
-    step, nens, nfft = stepsize(l, nfft, step=step)
+    step1, nens, nfft = stepsize(min(len(a), len(b)), nfft, step=step)
+    step2 = step1
+    if len(a) != len(b):
+        # Each signal's segments span the same time (see cpsd_quasisync)
+        step1, nens, nfft = stepsize(len(a), nfft, nens=nens)
+        step2, nens, nfft = stepsize(len(b), nfft, nens=nens)
     if nens - 1:
-        for i in range(step, l - nfft + 1, step):
-            s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
+        for i in range(1, nens):
+            i1, i2 = i * step1, i * step2
+            s1 = fft(detrend(a[i1:(i1 + nfft)]) * window)[fft_inds]
             s1 /= np.abs(s1)
-            s2 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
+            s2 = fft(detrend(b[i2:(i2 + nfft)]) * window)[fft_inds]
             s2 /= np.abs(s2)
             ang += s2 / s1
     ang /= nens
-- 
2.43.0


From b6fe8ea60b7396dad55672a60d188a79d7e141c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 10/95] fix: average the same segments in coherence's auto- and
 cross-spectra

---
 dolfyn/tools/psd.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 303dce4..ee60ee2 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -129,20 +129,25 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
     cross = cpsd_quasisync
     if l[0] == l[1]:
         cross = cpsd
-    elif l[0] > l[1]:
-        a, b = b, a
-        l = l[::-1]
-    step1, nens, nfft = stepsize(l[0], nfft)
-    step2, nens, nfft = stepsize(l[1], nfft, nens=nens)
     if noise.__class__ not in [list, tuple, np.ndarray]:
         noise = [noise, noise]
     elif len(noise) == 1:
         noise = [noise[0], noise[0]]
+    if l[0] > l[1]:
+        a, b = b, a
+        l = l[::-1]
+        noise = noise[::-1]
+    step1, nens, nfft = stepsize(l[0], nfft)
+    step2, nens, nfft = stepsize(l[1], nfft, nens=nens)
     if nens <= 2:
         raise Exception("Coherence must be computed from a set of ensembles.")
     # fs=1 is ok because it comes out in the normalization.  (noise
     # normalization depends on this)
-    out = ((np.abs(cross(a, b, nfft, 1, window=window)) ** 2) /
+    pwr = cross(a, b, nfft, 1, window=window)
+    # The auto-spectra must average the same segments as the cross-spectrum
+    a = a[:step1 * (nens - 1) + nfft]
+    b = b[:step2 * (nens - 1) + nfft]
+    out = ((np.abs(pwr) ** 2) /
            ((psd(a, nfft, 1, window=window, step=step1) - noise[0] ** 2 / np.pi) *
             (psd(b, nfft, 1, window=window, step=step2) - noise[1] ** 2 / np.pi))
            )
-- 
2.43.0


From c78f9adab67e48a1aa271560ea5b91795df3c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 11/95] fix: pad bins of fractional length by a whole number of
 samples

---
 dolfyn/binned.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index ab2b90a..3ef3786 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -198,6 +198,7 @@ class TimeBinner:
         n_bin = self._parse_nbin(n_bin)
         if arr.shape[-1] < n_bin:
             raise Exception('n_bin is larger than length of input array')
+        n_pad = int(n_pad)
         npd0 = int(n_pad // 2)
         npd1 = int((n_pad + 1) // 2)
         shp = self._outshape(arr.shape, n_pad=0, n_bin=n_bin)
-- 
2.43.0


From 2d5fb9714206a3f0d644afc37dfcd5a438147bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 12/95] fix: honour n_bin and n_fft overrides throughout the
 spectral estimates

---
 dolfyn/adv/turbulence.py |  2 +-
 dolfyn/binned.py         | 12 ++++++------
 dolfyn/velocity.py       | 27 ++++++++++++++-------------
 3 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 1f4ccae..2ce78b4 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -128,7 +128,7 @@ class ADVBinner(VelBinner):
 
         fs_in = self._parse_fs(fs)
         n_fft = self._parse_nfft_coh(n_fft_coh)
-        time = self.mean(veldat.time.values)
+        time = self.mean(veldat.time.values, n_bin=n_bin)
         veldat = veldat.values
         if len(np.shape(veldat)) != 2:
             raise Exception("This function is only valid for calculating TKE using "
diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 3ef3786..8e99be4 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -142,7 +142,7 @@ class TimeBinner:
                 o_attrs[ky] = props[ky]
         return out_ds
 
-    def _new_coords(self, array):
+    def _new_coords(self, array, n_bin=None):
         """Function for setting up a new xarray.DataArray regardless of how 
         many dimensions the input data-array has
         """
@@ -155,7 +155,7 @@ class TimeBinner:
         for ky in dims:
             dims_list.append(ky)
             if 'time' in ky:
-                coords_dict[ky] = self.mean(array.time.values)
+                coords_dict[ky] = self.mean(array[ky].values, n_bin=n_bin)
             else:
                 coords_dict[ky] = array.coords[ky].values
 
@@ -398,7 +398,7 @@ class TimeBinner:
             n_pad = min(n_bin - n_fft, n_fft)
         out = np.empty(self._outshape_fft(dat.shape, n_fft=n_fft, n_bin=n_bin))
         # The data is detrended in psd, so we don't need to do it here.
-        dat = self.reshape(dat, n_pad=n_pad)
+        dat = self.reshape(dat, n_pad=n_pad, n_bin=n_bin)
 
         for slc in slice1d_along_axis(dat.shape, -1):
             out[slc] = psd(dat[slc], n_fft, fs,
@@ -450,14 +450,14 @@ class TimeBinner:
             n_fft = self.n_fft_coh
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(n_bin2 * dat1.shape[-1] / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
 
         # The data is detrended in psd, so we don't need to do it here:
-        dat1 = self.reshape(dat1, n_pad=n_fft)
-        dat2 = self.reshape(dat2, n_pad=n_fft)
+        dat1 = self.reshape(dat1, n_pad=n_fft, n_bin=n_bin1)
+        dat2 = self.reshape(dat2, n_pad=n_fft, n_bin=n_bin2)
         out = np.empty(oshp, dtype='c{}'.format(dat1.dtype.itemsize * 2))
         if dat1.shape == dat2.shape:
             cross = cpsd
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index c647c0d..843fc30 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -683,7 +683,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(n_bin2 * dat1.shape[-1] / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -698,10 +698,10 @@ class VelBinner(TimeBinner):
                                  window=window, debias=debias,
                                  noise=noise)
 
-        freq = self.calc_freq(self.fs, units='Hz', coh=True)
+        freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft)
 
         # Get time from shorter vector
-        dims_list, coords_dict = self._new_coords(veldat2)
+        dims_list, coords_dict = self._new_coords(veldat2, n_bin=n_bin)
         # tack on new coordinate
         dims_list.append('f')
         coords_dict['f'] = freq
@@ -759,7 +759,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(n_bin2 * dat1.shape[-1] / dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -774,10 +774,10 @@ class VelBinner(TimeBinner):
             out[slc] = phase_angle(dat1[slc], dat2[slc], n_fft,
                                    window=window)
 
-        freq = self.calc_freq(self.fs, units='Hz', coh=True)
+        freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft)
 
         # Get time from shorter vector
-        dims_list, coords_dict = self._new_coords(veldat2)
+        dims_list, coords_dict = self._new_coords(veldat2, n_bin=n_bin)
         # tack on new coordinate
         dims_list.append('f')
         coords_dict['f'] = freq
@@ -820,11 +820,11 @@ class VelBinner(TimeBinner):
         n_bin = self._parse_nbin(n_bin)
         out = np.empty(self._outshape(indat.shape, n_bin=n_bin)[:-1] +
                        [int(n_bin // 4)], dtype=indat.dtype)
-        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2)
+        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2, n_bin=n_bin)
         # Here we de-mean only on the 'valid' range:
         dt1 = dt1 - dt1[..., :, int(n_bin // 4):
                         int(-n_bin // 4)].mean(-1)[..., None]
-        dt2 = self.demean(indat)
+        dt2 = self.demean(indat, n_bin=n_bin)
         se = slice(int(n_bin // 4) - 1, None, 1)
         sb = slice(int(n_bin // 4) - 1, None, -1)
         for slc in slice1d_along_axis(dt1.shape, -1):
@@ -839,7 +839,7 @@ class VelBinner(TimeBinner):
                 # For the others we take the average of the two sides.
                 out[slc] = (tmp[se] + tmp[sb]) / 2
 
-        dims_list, coords_dict = self._new_coords(veldat)
+        dims_list, coords_dict = self._new_coords(veldat, n_bin=n_bin)
         # tack on new coordinate
         dims_list.append('lag')
         coords_dict['lag'] = np.arange(n_bin//4)
@@ -885,7 +885,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(n_bin2 * dat1.shape[-1] / dat2.shape[-1])
 
         shp = self._outshape(dat1.shape, n_bin=n_bin1)
         shp[-2] = min(shp[-2], self._outshape(dat2.shape, n_bin=n_bin2)[-2])
@@ -908,7 +908,7 @@ class VelBinner(TimeBinner):
                     self.std(dat2, n_bin=n_bin2)[..., :shp[-2]] *
                     n_bin2)[..., None]
 
-        dims_list, coords_dict = self._new_coords(veldat1)
+        dims_list, coords_dict = self._new_coords(veldat1, n_bin=n_bin1)
         # tack on new coordinate
         dims_list.append('dt')
         coords_dict['dt'] = np.arange(npt)
@@ -1134,7 +1134,7 @@ class VelBinner(TimeBinner):
                                               n_fft=n_fft,
                                               step=step)
             coords = {'S': self.S,
-                      'time': self.mean(veldat['time'].values),
+                      'time': self.mean(veldat['time'].values, n_bin=n_bin),
                       'freq': freq}
             dims = ['S', 'time', 'freq']
         else:
@@ -1151,7 +1151,8 @@ class VelBinner(TimeBinner):
                                      n_pad=n_pad,
                                      n_fft=n_fft,
                                      step=step)
-            coords = {veldat.dims[-1]: self.mean(veldat[veldat.dims[-1]].values),
+            coords = {veldat.dims[-1]: self.mean(veldat[veldat.dims[-1]].values,
+                                                 n_bin=n_bin),
                       'freq': freq}
             dims = [veldat.dims[-1], 'freq']
 
-- 
2.43.0


From 02d4f004077f761bd2d352b3f8f5b3443be94e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 13/95] fix: do not flag the first sample as a spike for being
 far from zero

---
 dolfyn/adv/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adv/clean.py b/dolfyn/adv/clean.py
index dacb9f7..081952c 100644
--- a/dolfyn/adv/clean.py
+++ b/dolfyn/adv/clean.py
@@ -201,7 +201,7 @@ def spike_thresh(u, thresh=10):
       Logical vector with spikes labeled as 'True'
     """
 
-    du = np.diff(u.values, prepend=0)
+    du = np.diff(u.values, prepend=u.values[..., :1])
     mask = (du > thresh) + (du < -thresh)
 
     return mask
-- 
2.43.0


From a33dfa281adf759268ace4f4f1798eed28923d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 14/95] fix: keep the array's shape in fill_nan_ensemble_mean

---
 dolfyn/adv/clean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adv/clean.py b/dolfyn/adv/clean.py
index 081952c..2884d50 100644
--- a/dolfyn/adv/clean.py
+++ b/dolfyn/adv/clean.py
@@ -177,9 +177,9 @@ def fill_nan_ensemble_mean(u, mask, fs, window):
         vel[i] = np.ravel(vel_filled[i], 'C')
 
     if diff:  # Trim off the extra means
-        u.values = np.squeeze(vel[:, :-extra_nans])
+        u.values = vel[:, :-extra_nans].reshape(u.shape)
     else:
-        u.values = np.squeeze(vel)
+        u.values = vel.reshape(u.shape)
 
     return u
 
-- 
2.43.0


From 09c2b33ad21730aed066354412c0cedeb70b0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 15/95] fix: look for the surface rise in each sample's own
 echo profile

---
 dolfyn/adp/clean.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index 939aa22..5fa2857 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -77,7 +77,7 @@ def find_surface(ds, thresh=10, nfilt=None):
     edf = np.diff(ds.amp.values.astype(np.int16), axis=1)
     inds2 = np.max((edf < 0) *
                    np.arange(ds.vel.shape[1] - 1,
-                             dtype=np.uint8)[None, :, None], axis=1) + 1
+                             dtype=np.int64)[None, :, None], axis=1) + 1
 
     # Calculate the depth of these quantities
     d1 = ds.range.values[inds]
@@ -88,9 +88,9 @@ def find_surface(ds, thresh=10, nfilt=None):
     d = np.median(D, axis=0)
 
     # Throw out values that do not increase near the surface by *thresh*
-    for ip in range(ds.vel.shape[1]):
-        itmp = np.min(inds[:, ip])
-        if (edf[itmp:, :, ip] < thresh).all():
+    for ip in range(edf.shape[2]):
+        itmp = np.max(inds[:, ip])
+        if (edf[:, :itmp, ip] < thresh).all():
             d[ip] = np.NaN
 
     if nfilt:
-- 
2.43.0


From c905552e9b9d459a6817c534636fe40e6f312ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 16/95] fix: take the beam_angle argument of nan_beyond_surface
 in degrees

---
 dolfyn/adp/clean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index 5fa2857..f86a5a5 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -213,10 +213,11 @@ def nan_beyond_surface(ds, val=np.nan, beam_angle=None, inplace=False):
 
     if beam_angle is None:
         if hasattr(ds, 'beam_angle'):
-            beam_angle = ds.beam_angle * (np.pi/180)
+            beam_angle = ds.beam_angle
         else:
             raise Exception("'beam_angle` not found in dataset attributes. "
                             "Please supply the ADCP's beam angle.")
+    beam_angle = beam_angle * (np.pi/180)
 
     # Surface interference distance calculated from distance of transducers to surface
     if hasattr(ds, 'h_deploy'):
-- 
2.43.0


From 2fd09cec9fb71fdfcb250b64a3623ca006f22ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 17/95] fix: convert epoch times before 1970 to datetime64
 without a one-second shift

---
 dolfyn/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/time.py b/dolfyn/time.py
index 29b0b2a..8983b46 100644
--- a/dolfyn/time.py
+++ b/dolfyn/time.py
@@ -26,7 +26,7 @@ def epoch2dt64(ep_time):
     """
 
     # assumes t0=1970-01-01 00:00:00
-    out = np.array(ep_time.astype('int')).astype('datetime64[s]')
+    out = np.array(np.floor(ep_time).astype('int')).astype('datetime64[s]')
     out = out + ((ep_time % 1) * 1e9).astype('timedelta64[ns]')
     return out
 
-- 
2.43.0


From 9594a9f29fb57fb44681149e95b0824ac02257d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 18/95] fix: convert missing datetime64 to NaN epoch time

---
 dolfyn/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/time.py b/dolfyn/time.py
index 8983b46..c99139b 100644
--- a/dolfyn/time.py
+++ b/dolfyn/time.py
@@ -46,7 +46,9 @@ def dt642epoch(dt64):
       Epoch time (seconds since 1/1/1970 00:00:00)
     """
 
-    return dt64.astype('datetime64[ns]').astype('float') / 1e9
+    dt64 = dt64.astype('datetime64[ns]')
+    # NaT has to become NaN
+    return dt64.astype('float') / 1e9 + np.where(np.isnat(dt64), np.nan, 0)
 
 
 def date2dt64(dt):
-- 
2.43.0


From c68b3309f1f65bc963a9c26d248d1e8a5e326f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 19/95] fix: keep all dimensions of the stresses in E_coh

---
 dolfyn/velocity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 843fc30..3c9a077 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -363,8 +363,8 @@ class Velocity():
 
         return xr.DataArray(
             E_coh.astype('float32'),
-            coords={'time': self.ds['stress_vec'].time},
-            dims=['time'],
+            coords=E_coh.coords,
+            dims=E_coh.dims,
             attrs={'units': self.ds['stress_vec'].units,
                    'long_name': 'Coherent Turbulence Energy'})
 
-- 
2.43.0


From 476600c0ef25b76eabd5f02a8ef20059c7f66af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 20/95] fix: do not take missing components as zero in tke

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 3c9a077..f255a02 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -403,7 +403,7 @@ class Velocity():
     def tke(self,):
         """Turbulent kinetic energy (sum of the three components)
         """
-        tke = self.ds['tke_vec'].sum('tke') / 2
+        tke = self.ds['tke_vec'].sum('tke', skipna=False) / 2
         tke.name = 'TKE'
         tke.attrs['units'] = self.ds['tke_vec'].units
         tke.attrs['long_name'] = 'TKE'
-- 
2.43.0


From 0edea08341e78de67f162b3fccc8773c0346fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:44 +0000
Subject: [PATCH 21/95] fix: do not modify the dataset being saved

---
 dolfyn/io/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index caeca76..513667b 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -164,6 +164,9 @@ def save(ds, filename,
 
     filename = _check_file_ext(filename, 'nc')
 
+    # Leave the caller's dataset as it is
+    ds = ds.copy()
+
     # Handling complex values for netCDF4
     ds.attrs['complex_vars'] = []
     for var in ds.data_vars:
-- 
2.43.0


From 597487ae89ecb4ebe5b875deb16cbfb607a9296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:44 +0000
Subject: [PATCH 22/95] fix: let the encoding given to save take precedence, as
 documented

---
 dolfyn/io/api.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 513667b..f6c25e2 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -183,8 +183,6 @@ def save(ds, filename,
 
     # Write variable encoding
     enc = dict()
-    if 'encoding' in kwargs:
-        enc.update(kwargs['encoding'])
     for ky in ds.variables:
         # Save prior encoding
         enc[ky] = ds[ky].encoding
@@ -199,11 +197,14 @@ def save(ds, filename,
                 continue
             enc[ky].update(dict(zlib=True, complevel=1))
 
-    kwargs['encoding'] = enc
-
     # Fix encoding on datetime64 variables.
     ds = _decode_cf(ds)
 
+    # The user's encoding takes precedence
+    for ky, val in (kwargs.get('encoding') or {}).items():
+        enc[ky] = {**enc.get(ky, {}), **val}
+    kwargs['encoding'] = enc
+
     ds.to_netcdf(filename, format=format, engine=engine, **kwargs)
 
 
-- 
2.43.0


From 438c991d15c42ba105bb8a39af852b339f6000b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:44 +0000
Subject: [PATCH 23/95] fix: keep the attributes of complex variables on load

---
 dolfyn/io/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index f6c25e2..409439d 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -246,6 +246,7 @@ def load(filename):
                 ds.attrs['complex_vars'] = [ds.complex_vars]
             for var in ds.complex_vars:
                 ds[var] = ds[var + '_real'] + ds[var + '_imag'] * 1j
+                ds[var].attrs = ds[var + '_real'].attrs
                 ds = ds.drop_vars([var + '_real', var + '_imag'])
 
         ds.attrs.pop('complex_vars')
-- 
2.43.0


From 726a94b2939f6a5e16b9901ce2f277affded20e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:44 +0000
Subject: [PATCH 24/95] fix: load several complex variables with one-letter
 names

---
 dolfyn/io/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 409439d..ba5d910 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -242,7 +242,7 @@ def load(filename):
     # Rejoin complex numbers
     if hasattr(ds, 'complex_vars'):
         if len(ds.complex_vars):
-            if len(ds.complex_vars[0]) == 1:
+            if isinstance(ds.complex_vars, str):
                 ds.attrs['complex_vars'] = [ds.complex_vars]
             for var in ds.complex_vars:
                 ds[var] = ds[var + '_real'] + ds[var + '_imag'] * 1j
-- 
2.43.0


From 286e29c8dfbf2a60d821c6ea097c3b146f2da9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:42 +0000
Subject: [PATCH 25/95] fix: save loaded datasets again when they were
 compressed or have auxiliary coordinates

---
 dolfyn/io/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index ba5d910..e72b60a 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -188,7 +188,8 @@ def save(ds, filename,
         enc[ky] = ds[ky].encoding
         # Remove unexpected netCDF4 encoding parameters
         # https://github.com/pydata/xarray/discussions/5709
-        params = ['szip', 'zstd', 'bzip2', 'blosc', 'contiguous', 'chunksizes']
+        params = ['szip', 'zstd', 'bzip2', 'blosc', 'contiguous', 'chunksizes',
+                  'preferred_chunks', 'coordinates']
         [enc[ky].pop(p) for p in params if p in enc[ky]]
 
         if compression:
-- 
2.43.0


From 7cf9d8b6b63f8a03960a5b203d4589d3c4aa96d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 26/95] fix: recognise two-dimensional 5th-beam profiles by
 their name

---
 dolfyn/io/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 3616f78..f714dec 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -196,6 +196,10 @@ def _create_dataset(data):
                 elif key == 'samp_altraw_avg':
                     ds_dict[key] = {"dims": ("n_altraw_avg", "time_altraw_avg"), "data": data['data_vars'][key]}
 
+                # 5th beam profiles already reduced to (range, time)
+                elif key in ['vel_b5', 'amp_b5', 'corr_b5']:
+                    ds_dict[key] = {"dims": ("range_b5", "time_b5"), "data": data['data_vars'][key]}
+
                 # ADV/ADCP instrument vector data, bottom tracking
                 elif shp[0] == n_beams and not any(val in key for val in tag[:3]):
                     if 'bt' in key and 'time_bt' in data['coords']:
@@ -223,9 +227,6 @@ def _create_dataset(data):
 
                     ds_dict[key] = {"dims": ("dirIMU", "time" + tg), "data": data['data_vars'][key]}
 
-                elif 'b5' in tg:
-                    ds_dict[key] = {"dims": ("range_b5", "time_b5"), "data": data['data_vars'][key]}
-
             elif len(shp) == 3:  # 3D variables
                 if 'vel' in key:
                     dim0 = 'dir'
-- 
2.43.0


From d1209643e298a1cdf2ecd20c6bf21785f5dc0897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 27/95] fix: keep the attributes of time coordinates in
 load_mat

---
 dolfyn/io/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index e72b60a..786a63e 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -387,7 +387,7 @@ def load_mat(filename, datenum=True):
     if hasattr(ds, 'time_coords'):
         for ky in ds.attrs['time_coords']:
             dt = date2dt64(func(ds[ky].values))
-            ds = ds.assign_coords({ky: dt})
+            ds = ds.assign_coords({ky: (ky, dt, ds[ky].attrs)})
         ds.attrs.pop('time_coords')
     if hasattr(ds, 'time_data_vars'):
         for ky in ds.attrs['time_data_vars']:
-- 
2.43.0


From ea8f45729828dd65f896418e8dea06e6f77135f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 28/95] fix: accept every complete TRDI ensemble with a
 matching checksum

---
 dolfyn/io/rdi.py     | 28 ++++++++++++----------------
 dolfyn/io/rdi_lib.py |  6 ++++--
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 80f2fc8..8ed6d64 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -190,7 +190,6 @@ class _RDIReader():
     _fixoffset = 0
     _nbyte = 0
     _search_num = 30000  # Maximum distance? to search
-    _debug7f79 = None
 
     def __init__(self, fname, navg=1, debug_level=0, vmdas_search=False, winriver=False):
         self.fname = _abspath(fname)
@@ -525,24 +524,21 @@ class _RDIReader():
         valid = False
         if self._debug_level >= 0:
             logging.info('pos {}'.format(self.f.pos))
+        pos = fd.tell()
         numbytes = fd.read_i16(1)
-        if numbytes > 0:
-            fd.seek(numbytes - 2, 1)
-            cfgid = fd.read_ui8(2)
-            if cfgid is None:
+        if numbytes is not None and numbytes > 0:
+            # The ensemble has to be complete, with a matching checksum
+            fd.seek(pos - 2, 0)
+            dat = fd.read_ui8(numbytes)
+            checksum = fd.read_ui16(1)
+            if dat is None or checksum is None:
                 if self._debug_level > 1:
                     logging.info('EOF')
-                return False
-            if len(cfgid) == 2:
-                fd.seek(-numbytes - 2, 1)
-                if cfgid[0] == 127 and cfgid[1] in [127, 121]:
-                    if cfgid[1] == 121 and self._debug7f79 is None:
-                        self._debug7f79 = True
-                        if self._debug_level > 1:
-                            logging.warning('7f79!!!')
-                    valid = True
-        else:
-            fd.seek(-2, 1)
+            elif np.sum(dat) % 65536 == checksum:
+                valid = True
+            elif self._debug_level > 1:
+                logging.warning('Checksum mismatch at {}'.format(pos - 2))
+        fd.seek(pos, 0)
         if self._debug_level > 1:
             logging.info("  ###Leaving checkheader.")
         return valid
diff --git a/dolfyn/io/rdi_lib.py b/dolfyn/io/rdi_lib.py
index a707f8f..9271827 100644
--- a/dolfyn/io/rdi_lib.py
+++ b/dolfyn/io/rdi_lib.py
@@ -76,8 +76,10 @@ class bin_reader():
         return val
 
     def read(self, n, frmt):
-        val = self.f.read(n * self._size_factor[frmt])
-        if not val:  # If val is empty we are at the end of the file.
+        nbytes = n * self._size_factor[frmt]
+        val = self.f.read(nbytes)
+        # If val is empty or cut short we are at the end of the file.
+        if not val or len(val) < nbytes:
             return None
         self.cs and self.cs.add(val)
         if n == 1:
-- 
2.43.0


From 8978551b9550826731b37cb6a4970037e8574c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 29/95] fix: ensemble number roll-over is 65536

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 8ed6d64..b2245fb 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -836,7 +836,7 @@ class _RDIReader():
                            'adc']
         ens.number[k] = fd.read_ui16(1)
         ens.rtc[:, k] = fd.read_ui8(7)
-        ens.number[k] += 65535 * fd.read_ui8(1)
+        ens.number[k] += 65536 * fd.read_ui8(1)
         ens.builtin_test_fail[k] = fd.read_ui16(1)
         ens.c_sound[k] = fd.read_ui16(1)
         ens.depth[k] = fd.read_ui16(1) * 0.1
-- 
2.43.0


From 3b95ea02522d84a60d36a82603b7c376f0e93734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 30/95] fix: bad-value marker in bottom-track and surface-layer
 velocities

---
 dolfyn/io/rdi_defs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi_defs.py b/dolfyn/io/rdi_defs.py
index 8c65812..95caba0 100644
--- a/dolfyn/io/rdi_defs.py
+++ b/dolfyn/io/rdi_defs.py
@@ -186,4 +186,5 @@ class _ensemble():
                              dtype=data_defs[nm][2]))
 
     def clean_data(self,):
-        self['vel'][self['vel'] == -32.768] = np.NaN
+        for nm in ['vel', 'vel_bt', 'vel_sl']:
+            self[nm][self[nm] == -32.768] = np.NaN
-- 
2.43.0


From a1736259f7d95efa2046a3b8254169511c88788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 31/95] fix: keep the configured beam angle when the fixed
 leader does not repeat it

---
 dolfyn/io/rdi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index b2245fb..d30885c 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -742,7 +742,7 @@ class _RDIReader():
         cfg['inst_model'] = defs.adcp_type.get(tmp[0],
                                                'unrecognized firmware version')
         config = tmp[2:4]
-        cfg['beam_angle'] = [15, 20, 30][(config[1] & 3)]
+        cfg['beam_angle'] = [15, 20, 30, None][(config[1] & 3)]
         beam5 = [0, 1][int((config[1] & 16) == 16)]
         cfg['freq'] = ([75, 150, 300, 600, 1200, 2400, 38][(config[0] & 7)])
         cfg['beam_pattern'] = (['concave',
@@ -794,7 +794,10 @@ class _RDIReader():
             # cfg['navigator_basefreqindex'] = fd.read_ui8(1)
             fd.seek(1, 1)
             cfg['serialnum'] = fd.read_ui32(1)
-            cfg['beam_angle'] = fd.read_ui8(1)
+            # Only set by instruments with a non-standard angle
+            beam_angle = fd.read_ui8(1)
+            if beam_angle:
+                cfg['beam_angle'] = beam_angle
             self._nbyte += 6
         # # Documented in latest PDDecoder 10/12/22 but must be instrument specific
         # if cfg['prog_ver'] >= 56:
-- 
2.43.0


From 4c124418c95580faf64ca42bd354580629f076ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 32/95] fix: follow the recorded block offsets and ensemble
 lengths in PD0 files

---
 dolfyn/io/rdi.py | 74 +++++++-----------------------------------------
 1 file changed, 10 insertions(+), 64 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index d30885c..80b0d78 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -187,7 +187,6 @@ class _RDIReader():
     progress = 0
     _cfac = 180 / 2 ** 31
     _source = 0
-    _fixoffset = 0
     _nbyte = 0
     _search_num = 30000  # Maximum distance? to search
 
@@ -434,9 +433,11 @@ class _RDIReader():
             self.read_hdrseg()
             if self._debug_level >= 0:
                 logging.info('Read Header', hdr)
-            byte_offset = self._nbyte + 2
             self._read_vmdas = False
-            for n in range(len(hdr['dat_offsets'])):
+            for n, offset in enumerate(hdr['dat_offsets']):
+                # Blocks are found through their recorded offsets, however
+                # many bytes were read from the one before
+                fd.seek(startpos + offset, 0)
                 id = fd.read_ui16(1)
                 if self._debug_level > 0:
                     logging.info(f'n {n}: {id} {id:04x}')
@@ -445,23 +446,6 @@ class _RDIReader():
 
                 if retval == 'FAIL':
                     break
-                byte_offset += self._nbyte
-                if n < (len(hdr['dat_offsets']) - 1):
-                    oset = hdr['dat_offsets'][n + 1] - byte_offset
-                    if oset != 0:
-                        if self._debug_level > 0:
-                            logging.debug(
-                                '  %s: Adjust location by %d\n' % (id, oset))
-                        fd.seek(oset, 1)
-                    byte_offset = hdr['dat_offsets'][n + 1]
-                else:
-                    if hdr['nbyte'] - 2 != byte_offset:
-                        if not self._winrivprob:
-                            if self._debug_level > 0:
-                                logging.debug('  {:d}: Adjust location by {:d}\n'
-                                              .format(id, hdr['nbyte'] - 2 - byte_offset))
-                            self.f.seek(hdr['nbyte'] - 2 - byte_offset, 1)
-                    byte_offset = hdr['nbyte'] - 2
             # Check for vmdas again because vmdas doesn't set the offsets
             # correctly, and we need this info:
             if not self._read_vmdas and self._vmdas_search:
@@ -477,10 +461,9 @@ class _RDIReader():
                         logging.info(f'Found {id:04d}')
                     if id == 8192:
                         self.read_dat(id)
-            readbytes = fd.tell() - startpos
-            offset = hdr['nbyte'] + 2 - readbytes
-            self.check_offset(offset, readbytes)
-            self.print_pos(byte_offset=byte_offset)
+            # Go to the end of this ensemble
+            fd.seek(startpos + hdr['nbyte'] + 2, 0)
+            self.print_pos()
 
         return True
 
@@ -571,19 +554,6 @@ class _RDIReader():
             logging.debug(
                 f'  pos: {self.f.tell()}, pos_: {self._pos}, nbyte: {self._nbyte}, k: {k}, byte_offset: {byte_offset}')
 
-    def check_offset(self, offset, readbytes):
-        fd = self.f
-        if offset != 4 and self._fixoffset == 0:
-            if self._debug_level > 0:
-                if fd.tell() == self._filesize:
-                    logging.error(
-                        ' EOF reached unexpectedly - discarding this last ensemble\n')
-                else:
-                    logging.debug("  Adjust location by {:d} (readbytes={:d},hdr['nbyte']={:d})\n"
-                                  .format(offset, readbytes, self.hdr['nbyte']))
-            self._fixoffset = offset - 4
-        fd.seek(4 + self._fixoffset, 1)
-
     def remove_end(self, iens):
         dat = self.outd
         if self._debug_level > 0:
@@ -1273,34 +1243,10 @@ class _RDIReader():
         self._nbyte = 2 + n_skip
 
     def read_nocode(self, id):
-        # Skipping bytes from codes 0340-30FC, commented if needed
-        hxid = hex(id)
-        if hxid[2:4] == '30':
-            logging.warning("Skipping bytes from codes 0340-30FC")
-            # I want to count the number of 1s in the middle 4 bits
-            # of the 2nd two bytes.
-            # 60 is a 0b00111100 mask
-            nflds = (bin(int(hxid[3]) & 60).count('1') +
-                     bin(int(hxid[4]) & 60).count('1'))
-            # I want to count the number of 1s in the highest
-            # 2 bits of byte 3
-            # 3 is a 0b00000011 mask:
-            dfac = bin(int(hxid[3], 0) & 3).count('1')
-            self.skip_Nbyte(12 * nflds * dfac)
-        else:
-            if self._debug_level >= 0:
-                logging.warning('  Unrecognized ID code: %0.4X' % id)
-            self.skip_nocode(id)
-
-    def skip_nocode(self, id):
-        # Skipping bytes if ID isn't known
-        offsets = list(self.id_positions.values())
-        idx = np.where(offsets == self.id_positions[id])[0][0]
-        byte_len = offsets[idx+1] - offsets[idx] - 2
-
-        self.skip_Nbyte(byte_len)
+        # The next block is found through its own offset
         if self._debug_level >= 0:
-            logging.debug(f"Skipping ID code {id}\n")
+            logging.warning('  Unrecognized ID code: %0.4X' % id)
+        self._nbyte = 2
 
     def cleanup(self, cfg, dat):
         dat['coords']['range'] = (cfg['bin1_dist_m'] +
-- 
2.43.0


From 58809d5afdb6d4ecbb403df0f00d4dc9b368747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 33/95] fix: do not carry TRDI blocks over from other ensembles

---
 dolfyn/io/rdi.py      | 2 ++
 dolfyn/io/rdi_defs.py | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 80b0d78..c87dc13 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -422,8 +422,10 @@ class _RDIReader():
     def read_buffer(self,):
         fd = self.f
         self.ensemble.k = -1  # so that k+=1 gives 0 on the first loop.
+        self.ensemble.reset()
         if self._bb:
             self.ensembleBB.k = -1  # so that k+=1 gives 0 on the first loop.
+            self.ensembleBB.reset()
         self.print_progress()
         hdr = self.hdr
         while self.ensemble.k < self.ensemble.n_avg - 1:
diff --git a/dolfyn/io/rdi_defs.py b/dolfyn/io/rdi_defs.py
index 95caba0..7764c14 100644
--- a/dolfyn/io/rdi_defs.py
+++ b/dolfyn/io/rdi_defs.py
@@ -140,7 +140,7 @@ def _idata(dat, nm, sz):
     units = data_defs[nm][3]
     long_name = data_defs[nm][4]
     standard_name = data_defs[nm][5]
-    arr = np.empty(sz, dtype=dtype)
+    arr = np.zeros(sz, dtype=dtype)
     if dtype.startswith('float'):
         arr[:] = np.NaN
     dat[group][nm] = arr
@@ -184,6 +184,13 @@ class _ensemble():
             setattr(self, nm,
                     np.zeros(_get_size(nm, n=navg, ncell=n_cells),
                              dtype=data_defs[nm][2]))
+        self.reset()
+
+    def reset(self,):
+        # Nothing is carried over from the previous ensemble
+        for nm in data_defs:
+            dat = getattr(self, nm)
+            dat[:] = np.NaN if data_defs[nm][2].startswith('float') else 0
 
     def clean_data(self,):
         for nm in ['vel', 'vel_bt', 'vel_sl']:
-- 
2.43.0


From d48849d6c77d5e44eae4ccc27a0081a2ec11098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:49 +0000
Subject: [PATCH 34/95] fix: keep the second profile's leader out of the first
 profile

---
 dolfyn/io/rdi.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index c87dc13..3e61ebc 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -787,11 +787,12 @@ class _RDIReader():
         """ Read variable leader """
         fd = self.f
         if bb:
-            ens = self.ensembleBB
-        else:
-            ens = self.ensemble
-        ens.k += 1
+            # Leader of the second profile: it must not overwrite the first's
+            self.ensembleBB.k += 1
+            self.skip_Nbyte(40)
+            return
         ens = self.ensemble
+        ens.k += 1
         k = ens.k
         self.vars_read += ['number',
                            'rtc',
-- 
2.43.0


From 7ca456430ec31f4a615ca98fe234ee2f3d28ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 35/95] fix: count the ensembles of a TRDI file instead of
 estimating them

---
 dolfyn/io/rdi.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 3e61ebc..b6b4640 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -204,8 +204,7 @@ class _RDIReader():
 
         # Check header, double buffer, and get filesize
         self._filesize = getsize(self.fname)
-        space = self.code_spacing()  # '0x7F'
-        self._npings = int(self._filesize / (space + 2))
+        self.code_spacing()  # '0x7F'
         if self._debug_level >= 0:
             logging.info('Done: {}'.format(self.cfg))
             logging.info('self._bb {}'.format(self._bb))
@@ -221,8 +220,20 @@ class _RDIReader():
         if self._bb:
             self.vars_readBB = defs._variable_setlist(['time'])
 
+    def count_pings(self,):
+        """
+        Returns the number of ensembles in the file.
+        """
+        n = 0
+        self.f.seek(self._pos, 0)
+        while self.search_buffer():
+            startpos = self.f.tell() - 2
+            self.f.seek(startpos + self.f.read_i16(1) + 2, 0)
+            n += 1
+        self.f.seek(self._pos, 0)
         if self._debug_level >= 0:
-            logging.info('  %d pings estimated in this file' % self._npings)
+            logging.info('  %d pings found in this file' % n)
+        return n
 
     def code_spacing(self, iternum=50):
         """
@@ -309,7 +320,7 @@ class _RDIReader():
 
     def load_data(self, nens=None):
         if nens is None:
-            self._nens = int(self._npings / self.n_avg)
+            self._nens = int(self.count_pings() / self.n_avg)
         elif (nens.__class__ is tuple or nens.__class__ is list):
             raise Exception("    `nens` must be a integer")
         else:
-- 
2.43.0


From 82911b25128c88b7360ad8fef06587cc456e336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:48 +0000
Subject: [PATCH 36/95] fix: keep one depth sounder value per ensemble

---
 dolfyn/io/rdi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index b6b4640..e3c585f 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -148,7 +148,8 @@ def _remove_gps_duplicates(dat):
         dat['coords']['time_gps'] = dat['coords']['time_gps'][~nan]
 
     for key in dat['data_vars']:
-        if ('gps' in key) or ('nmea' in key):
+        # (depth sounder data 'dist_nmea' are per ensemble)
+        if 'gps' in key:
             dat['data_vars'][key] = dat['data_vars'][key][idx]
             if sum(nan) > 0:
                 dat['data_vars'][key] = dat['data_vars'][key][~nan]
-- 
2.43.0


From a3181ce02de441bb89396fbcbf9ebae072c20096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 37/95] fix: read TRDI files whose first ensemble has an
 invalid time stamp

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index e3c585f..e6109e5 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -71,7 +71,7 @@ def read_rdi(filename, userdata=None, nens=None, debug_level=-1,
             dat['attrs'][nm] = userdata[nm]
 
         # Pass one if only one ds returned
-        if not np.isfinite(dat['coords']['time'][0]):
+        if dat is datBB and not np.isfinite(dat['coords']['time']).any():
             continue
 
         # GPS data not necessarily sampling at the same rate as ADCP DAQ.
-- 
2.43.0


From 8bbab2ec5de38a63dcbff04d47765505074f4042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:39 +0000
Subject: [PATCH 38/95] fix: grow profiles that first appear after the number
 of cells increased

---
 dolfyn/io/rdi.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index e6109e5..35c8795 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -197,7 +197,6 @@ class _RDIReader():
         self._debug_level = debug_level
         self._vmdas_search = vmdas_search
         self._winrivprob = winriver
-        self.flag = 0
         self.cfg = {}
         self.cfgbb = {}
         self.hdr = {}
@@ -356,19 +355,18 @@ class _RDIReader():
                     ds = defs._get(dat, nm)
                     bn = self.mean(en[nm])
                     # Check that
-                    # 1. n_cells has changed,
-                    # 2. nm is a beam variable
-                    # 3. n_cells is greater than any previous
-                    if self.flag > 0 and len(ds.shape) == 3 and (ds.shape[0] != bn.shape[0]):
+                    # 1. nm is a beam variable
+                    # 2. n_cells is greater than any previous
+                    #    (also where nm appears after n_cells has changed)
+                    if len(ds.shape) == 3 and (bn.shape[0] > ds.shape[0]):
                         # increase the size of original dataset
                         a = np.empty(
-                            (self.flag, ds.shape[1], ds.shape[2]))*np.nan
+                            (bn.shape[0] - ds.shape[0],
+                             ds.shape[1], ds.shape[2]))*np.nan
                         ds = np.append(ds, a, axis=0)
                         defs._setd(dat, nm, ds)
                     # Copy the ensemble to the dataset.
                     ds[..., iens] = bn
-                # reset after all variables run
-                self.flag = 0
 
                 try:
                     dates = tmlib.date2epoch(
@@ -693,7 +691,6 @@ class _RDIReader():
         if hasattr(self, 'ensemble') and (self.ensemble['n_cells'] != self.cfg['n_cells']):
             diff = self.cfg['n_cells'] - self.ensemble['n_cells']
             if diff > 0:
-                self.flag = diff
                 self.ensemble = defs._ensemble(self.n_avg, self.cfg['n_cells'])
                 # Not concerned if # of cells decreases
                 if self._debug_level >= 1:
-- 
2.43.0


From 3847cd2a8cb9c7fb0cc938bf3a043ff8dc45830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 39/95] fix: seek to the range MSBs in WinRiver bottom-track
 blocks

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 35c8795..bccc53e 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1000,7 +1000,7 @@ class _RDIReader():
                                                        ens.longitude_gps[k]))
                 ens.latitude_gps[k] = np.NaN
                 ens.longitude_gps[k] = np.NaN
-            fd.seek(71 - 45 - 16 - 17, 1)
+            fd.seek(71 - 45 - 16 - 5, 1)
             self._nbyte = 2 + 68
         else:
             # Skip reference layer data
-- 
2.43.0


From a60e766f12ab716f605c5ea14b21437a080d9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:11 +0000
Subject: [PATCH 40/95] fix: crop Nortek data to the samples that were read

---
 dolfyn/io/nortek.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index db8af56..e2d060c 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -433,12 +433,18 @@ class _NortekReader():
         else:
             if self.debug:
                 logging.info(' stopped at {} bytes.'.format(self.pos))
-        self.c -= 1
-        _crop_data(self.data, slice(0, self.c), self.n_samp_guess)
+        # Keep what has been read
+        if self._npings is not None:
+            self.c = min(self.c, self._npings)
+        self._crop(slice(0, self.c), self.n_samp_guess)
         # add the start time to vectrino data coordinate time
         if self.data['attrs']['inst_model'] == 'Vectrino':
             self.data['coords']['time'] += self.config['start_time_VNO']
 
+    def _crop(self, range, n_lastdim):
+        for group in ['coords', 'data_vars', 'sys']:
+            _crop_data(self.data[group], range, n_lastdim)
+
     def findnextid(self, id):
         if id.__class__ is str:
             id = int(id, 0)
@@ -1268,6 +1274,8 @@ class _NortekReader():
         for nm in ['data_header', 'checkdata']:
             if nm in self.config and isinstance(self.config[nm], list):
                 self.config[nm] = _recatenate(self.config[nm])
+        if self._n_start:
+            self._crop(slice(self._n_start, None), self.c)
 
     def __exit__(self, type, value, trace):
         self.close()
@@ -1278,6 +1286,9 @@ class _NortekReader():
 
 def _crop_data(obj, range, n_lastdim):
     for nm, dat in obj.items():
+        if nm in ['range', 'beam2inst_orientmat']:
+            # not a time series, whatever its size
+            continue
         if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_lastdim):
             obj[nm] = dat[..., range]
 
-- 
2.43.0


From 85f80eda59422e220eddcb4ab0102b3adf346b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:11 +0000
Subject: [PATCH 41/95] fix: remove only trailing missing samples from Nortek
 data

---
 dolfyn/io/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index f714dec..fe7fe8b 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -99,11 +99,14 @@ def _handle_nan(data):
                 elif len(shp) == 2:
                     if any(np.isnan(data['data_vars'][key][-1])):
                         nan += np.isnan(data['data_vars'][key][-1])
-    trailing = np.cumsum(nan)[-1]
+    # only the missing values at the end
+    trailing = np.cumprod(nan[::-1]).sum()
 
     if trailing > 0:
         data['coords']['time'] = data['coords']['time'][:-trailing]
         for key in data['data_vars']:
+            if key == 'beam2inst_orientmat':
+                continue
             if data['data_vars'][key].shape[-1] == l:
                 data['data_vars'][key] = data['data_vars'][key][..., :-trailing]
 
-- 
2.43.0


From 156a982dfd08d43cfc08c36f91181dbd3e0e1084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:11 +0000
Subject: [PATCH 42/95] fix: read Nortek files with more samples than guessed

---
 dolfyn/io/nortek.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index e2d060c..a0fe55c 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -302,7 +302,8 @@ class _NortekReader():
 
         # No apparent way to determine how many samples are in a file
         dlta = self.code_spacing('0x11')
-        self.n_samp_guess = int(self.filesize / dlta + 1)
+        # (the code spacing is zero if there's only 1 at the end of the file)
+        self.n_samp_guess = int(self.filesize / max(dlta, 1) + 1)
         self.n_samp_guess *= int(self.config['fs'])
 
     def init_AWAC(self,):
@@ -348,7 +349,7 @@ class _NortekReader():
 
         # No apparent way to determine how many samples are in a file
         dlta = self.code_spacing('0x51') # page 49 from system integrator manual
-        self.n_samp_guess = int(self.filesize / dlta + 1)
+        self.n_samp_guess = int(self.filesize / max(dlta, 1) + 1)
         self.n_samp_guess *= int(self.config['fs'])
 
 
@@ -397,7 +398,25 @@ class _NortekReader():
             return val
         return tmp[1]
 
+    def _extend_data(self,):
+        """Make room for more samples than were guessed.
+        """
+        n = self.n_samp_guess
+        for group in ['coords', 'data_vars', 'sys']:
+            obj = self.data[group]
+            for nm, dat in obj.items():
+                if nm != 'beam2inst_orientmat' and dat.shape[-1] == n:
+                    new = np.zeros(dat.shape[:-1] + (n + 1,), dat.dtype)
+                    if np.issubdtype(dat.dtype, np.floating):
+                        new[:] = np.nan
+                    obj[nm] = np.concatenate((dat, new), axis=-1)
+        self.burst_start = np.concatenate(
+            (self.burst_start, np.zeros(n + 1, dtype='bool')))
+        self.n_samp_guess += n + 1
+
     def readnext(self,):
+        if self.c >= self.n_samp_guess:
+            self._extend_data()
         id = '0x%02x' % self.read_id()
         if id in self.fun_map:
             func_name = self.fun_map[id]
@@ -457,7 +476,8 @@ class _NortekReader():
                 shift = 20
             else:
                 sz = 2 * unpack(self.endian + 'H', self.read(2))[0]
-                shift = sz - 4
+                # (never backwards, if the size is corrupted)
+                shift = max(sz - 4, 0)
             self.f.seek(shift, 1)
         return self.pos
 
-- 
2.43.0


From c2855cc7c2c80d0491763e296879c308157e4c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:31 +0000
Subject: [PATCH 43/95] fix: space Vector samples by 1/fs seconds where few
 system records are present

---
 dolfyn/io/nortek.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index a0fe55c..bef0cc0 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -899,10 +899,12 @@ class _NortekReader():
                 p = np.poly1d(np.polyfit(inds, t[iburst][inds], 1))
                 t[iburst] = p(arng)
             elif len(inds) == 1:
-                t[iburst] = ((arng - inds[0]) / (fs * 3600 * 24) +
+                t[iburst] = ((arng - inds[0]) / fs +
                              t[iburst][inds[0]])
-            else:
-                t[iburst] = (t[iburst][0] + arng / (fs * 24 * 3600))
+            elif sysi.any():
+                ind0 = np.nonzero(sysi)[0][0]
+                t[iburst] = ((arng - ind0) / fs +
+                             t[iburst][ind0])
 
             tmpd = tbx._nans_like(dv['heading'][iburst])
             # The first status bit should be the orientation.
-- 
2.43.0


From b7975e100046c3f80f4785aec1a4b1b8365284d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:31 +0000
Subject: [PATCH 44/95] fix: signed temperature in Vector, and tilt and
 temperature in AWAC files

---
 dolfyn/io/nortek.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index bef0cc0..b585927 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -865,7 +865,7 @@ class _NortekReader():
          dv['temp'][c],
          dv['error'][c],
          dv['status'][c],
-         ds['AnaIn'][c]) = unpack(self.endian + '2H3hH2BH', byts[8:])
+         ds['AnaIn'][c]) = unpack(self.endian + '2H4h2BH', byts[8:])
         self.checksum(byts)
 
     def sci_vec_sysdata(self,):
@@ -1092,7 +1092,7 @@ class _NortekReader():
          p_msb,
          dv['status'][c],
          p_lsw,
-         dv['temp'][c],) = unpack(self.endian + '7HBB2H', byts[8:28])
+         dv['temp'][c],) = unpack(self.endian + '4H3hBBHh', byts[8:28])
         dv['pressure'][c] = (65536 * p_msb + p_lsw)
         # The nortek system integrator manual specifies an 88byte 'spare'
         # field, therefore we start at 116.
-- 
2.43.0


From 018df676cf5bf3aff2ee66b8558898c615827918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:31 +0000
Subject: [PATCH 45/95] fix: report the recorded burst_mode of Nortek
 instruments

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index b585927..e894580 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -537,7 +537,7 @@ class _NortekReader():
         # (note: bit numbering is zero-based)
         cfg_u['usr']['profile_mode'] = [
             'single', 'continuous'][TimCtrlReg[1]]
-        cfg_u['usr']['burst_mode'] = str(bool(~TimCtrlReg[2]))
+        cfg_u['usr']['burst_mode'] = str(not TimCtrlReg[2])
         cfg_u['usr']['power_level'] = TimCtrlReg[5] + 2 * TimCtrlReg[6] + 1
         cfg_u['usr']['sync_out_pos'] = ['middle', 'end', ][TimCtrlReg[7]]
         cfg_u['usr']['sample_on_sync'] = str(bool(TimCtrlReg[8]))
-- 
2.43.0


From aeb734c4aba1ea922c08e42700694f62885e2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:31 +0000
Subject: [PATCH 46/95] fix: compare Nortek checksums modulo 65536

---
 dolfyn/io/nortek.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index e894580..004e4bf 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -501,10 +501,9 @@ class _NortekReader():
         """Perform a checksum on `byts` and read the checksum value.
         """
         if self.do_checksum:
-            if not np.sum(unpack(self.endian + str(int(1 + len(byts) / 2)) + 'H',
-                                 self._thisid_bytes + byts)) + \
-                    46476 - unpack(self.endian + 'H', self.read(2)):
-
+            cs = 46476 + sum(unpack(self.endian + str(int(1 + len(byts) / 2)) + 'H',
+                                    self._thisid_bytes + byts))
+            if cs % 65536 != unpack(self.endian + 'H', self.read(2))[0]:
                 raise Exception("CheckSum Failed at {}".format(self.pos))
         else:
             self.f.seek(2, 1)
-- 
2.43.0


From d805e8551cddf244d62d7b9aaa59e880a177df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 47/95] fix: checksum the record found after resynchronisation
 with its own id

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 004e4bf..ac4f47a 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -391,7 +391,7 @@ class _NortekReader():
                                 "in ping %d. Searching for next valid code..." %
                                 (tmp[0], tmp[1], self.c))
             val = int(self.findnext(do_cs=False), 0)
-            self.f.seek(2, 1)
+            self._thisid_bytes = self.read(2)
             if self.debug:
                 logging.debug(
                     ' ...FOUND {} at position: {}.'.format(val, self.pos))
-- 
2.43.0


From fb63e176960684a12aff631c34ab643110f29753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 48/95] fix: pass over inertial records that belong to no
 sample or are of unknown type

---
 dolfyn/io/nortek.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index ac4f47a..ade1f71 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -940,22 +940,27 @@ class _NortekReader():
                 dat['long_name'].pop('orientmat')
 
         # 0x71 = 113
-        if self.c == 0:
-            logging.warning('First "microstrain data" block '
-                            'is before first "vector system data" block.')
-        else:
-            self.c -= 1
-        if self.debug:
-            logging.info('Reading vector microstrain data (0x71) ping #{} @ {}...'
-                         .format(self.c, self.pos))
         byts0 = self.read(4)
         # The first 2 are the size, 3rd is count, 4th is the id.
         ahrsid = unpack(self.endian + '3xB', byts0)[0]
+        if self.c == 0 or ahrsid not in [195, 204, 211]:
+            # There is no sample to go with, or it can't be read: go to the
+            # next block
+            if self.c == 0:
+                logging.warning('First "microstrain data" block '
+                                'is before first "vector velocity data" block.')
+            else:
+                logging.warning('Unrecognized IMU identifier: ' + str(ahrsid))
+            self.f.seek(-6, 1)
+            return 10
+        self.c -= 1
+        if self.debug:
+            logging.info('Reading vector microstrain data (0x71) ping #{} @ {}...'
+                         .format(self.c, self.pos))
         if hasattr(self, '_ahrsid') and self._ahrsid != ahrsid:
             logging.warning('AHRS_ID changes mid-file!')
 
-        if ahrsid in [195, 204, 210, 211]:
-            self._ahrsid = ahrsid
+        self._ahrsid = ahrsid
 
         c = self.c
         dat = self.data
@@ -977,7 +982,7 @@ class _NortekReader():
                     da['rotate_vars'].extend(rv)
                 update_defs(dat, mag=False, orientmat=True)
 
-            if ahrsid in [204, 210]:
+            if ahrsid == 204:
                 self._orient_dnames = ['accel', 'angrt', 'mag', 'orientmat']
                 dv['accel'] = tbx._nans((3, self.n_samp_guess),
                                         dtype=np.float32)
@@ -988,9 +993,8 @@ class _NortekReader():
                 rv = ['accel', 'angrt', 'mag']
                 if not all(x in da['rotate_vars'] for x in rv):
                     da['rotate_vars'].extend(rv)
-                if ahrsid == 204:
-                    dv['orientmat'] = tbx._nans((3, 3, self.n_samp_guess),
-                                                dtype=np.float32)
+                dv['orientmat'] = tbx._nans((3, 3, self.n_samp_guess),
+                                            dtype=np.float32)
                 update_defs(dat, mag=True, orientmat=True)
 
             if ahrsid == 211:
@@ -1028,10 +1032,6 @@ class _NortekReader():
             (dv['angrt'][:, c],
              dv['accel'][:, c],
              dv['mag'][:, c]) = (dt[0:3], dt[3:6], dt[6:9],)
-        else:
-            logging.warning('Unrecognized IMU identifier: ' + str(ahrsid))
-            self.f.seek(-2, 1)
-            return 10
         self.checksum(byts0 + byts)
         self.c += 1  # reset the increment
 
-- 
2.43.0


From badec4bb88dab4f3d22b2ec25e87e53e375d556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 49/95] fix: orientation of the Vector changes with the record
 that says so

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index ade1f71..9f01482 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -911,7 +911,7 @@ class _NortekReader():
             tbx.fillgaps(tmpd, extrapFlg=True)
             tmpd = np.nan_to_num(tmpd, nan=0)  # nans in pitch roll heading
             slope = np.diff(tmpd)
-            tmpd[1:][slope < 0] = 1
+            tmpd[:-1][slope < 0] = 1
             tmpd[:-1][slope > 0] = 0
             dv['orientation_down'][iburst] = tmpd.astype('bool')
         tbx.interpgaps(dv['batt'], t)
-- 
2.43.0


From acbea840aff7bcfdd0a70a4dc145034ced602ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 50/95] fix: interpolate headings through North

---
 dolfyn/io/nortek.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 9f01482..cf9172f 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -916,7 +916,12 @@ class _NortekReader():
             dv['orientation_down'][iburst] = tmpd.astype('bool')
         tbx.interpgaps(dv['batt'], t)
         tbx.interpgaps(dv['c_sound'], t)
-        tbx.interpgaps(dv['heading'], t)
+        # Headings are interpolated through North, not the long way around
+        hdg = dv['heading'].astype('float64')
+        good = ~np.isnan(hdg)
+        hdg[good] = np.rad2deg(np.unwrap(np.deg2rad(hdg[good])))
+        tbx.interpgaps(hdg, t)
+        dv['heading'][~good] = hdg[~good] % 360
         tbx.interpgaps(dv['pitch'], t)
         tbx.interpgaps(dv['roll'], t)
         tbx.interpgaps(dv['temp'], t)
-- 
2.43.0


From 39d2877d30c49da622120dd584a6da0e4fc575de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 51/95] fix: read the inertial data of the last sample asked
 for

---
 dolfyn/io/nortek.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index cf9172f..d673075 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -414,6 +414,14 @@ class _NortekReader():
             (self.burst_start, np.zeros(n + 1, dtype='bool')))
         self.n_samp_guess += n + 1
 
+    def peek_id(self,):
+        """The 'ID' of the next block, or None if there isn't one.
+        """
+        bts = self.f.read(2)
+        self.f.seek(-len(bts), 1)
+        if len(bts) == 2 and bts[0] == 165:
+            return bts[1]
+
     def readnext(self,):
         if self.c >= self.n_samp_guess:
             self._extend_data()
@@ -440,12 +448,10 @@ class _NortekReader():
                     self.findnext()
                     retval = None
                 if self._npings is not None and self.c >= self._npings:
-                    if 'microstrain' in self._dtypes:
-                        try:
-                            self.readnext()
-                        except:
-                            pass
-                    break
+                    # The inertial data of the last sample come after it
+                    if self.c > self._npings or self._inst != 'ADV' or \
+                            self.peek_id() == 16:
+                        break
         except EOFError:
             if self.debug:
                 logging.info(' end of file at {} bytes.'.format(self.pos))
-- 
2.43.0


From 0c7a4647a2cc6cfaf25e2afade82cfc3d2a532f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 52/95] fix: read windows of a Vector file without known
 attitude

---
 dolfyn/rotate/vector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 9a91376..0c2c347 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -193,10 +193,12 @@ def _calc_omat(time, hh, pp, rr, orientation_down=None):
     hh = hh.data.copy()
     if np.isnan(rr[-1]) and np.isnan(pp[-1]) and np.isnan(hh[-1]):
         # The end of the data may not have valid orientations
-        lastgd = np.nonzero(~np.isnan(rr + pp + hh))[0][-1]
-        rr[lastgd:] = rr[lastgd]
-        pp[lastgd:] = pp[lastgd]
-        hh[lastgd:] = hh[lastgd]
+        good = np.nonzero(~np.isnan(rr + pp + hh))[0]
+        if len(good) > 0:
+            lastgd = good[-1]
+            rr[lastgd:] = rr[lastgd]
+            pp[lastgd:] = pp[lastgd]
+            hh[lastgd:] = hh[lastgd]
     if orientation_down is not None:
         # For Nortek Vector ADVs: 'down' configuration means the head was
         # pointing 'up', where the 'up' orientation corresponds to the
-- 
2.43.0


From 2883604f72ebba23b5c3e5a6859f26ffc1f308e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:29 +0000
Subject: [PATCH 53/95] fix: resynchronise on the next sound Nortek data block

---
 dolfyn/io/nortek.py | 51 +++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index d673075..19a204c 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -359,24 +359,42 @@ class _NortekReader():
             raise EOFError('Reached the end of the file')
         return byts
 
+    def block_size(self,):
+        """The size of the data block that starts here, or 0 if there is no
+        complete block with the right checksum.
+        """
+        pos = self.pos
+        byts = self.f.read(4)
+        size = 0
+        if len(byts) == 4 and byts[0] == 165:
+            # (the velocity data blocks don't record their size)
+            size = {16: 24, 81: 22}.get(
+                byts[1], 2 * unpack(self.endian + 'H', byts[2:])[0])
+            byts += self.f.read(max(size - 4, 0))
+            if size < 6 or len(byts) != size:
+                size = 0
+            else:
+                words = unpack(self.endian + '%dH' % (size // 2), byts)
+                if (46476 + sum(words[:-1])) % 65536 != words[-1]:
+                    size = 0
+        self.f.seek(pos, 0)
+        return size
+
     def findnext(self, do_cs=True):
-        """Find the next data block by checking the checksum and the
-        sync byte(0xa5)
+        """Find the next data block: the one after the block that starts here
+        if its checksum is right, otherwise the next one (at any byte) that has
+        the right checksum.
         """
-        sum = np.uint16(int('0xb58c', 0))  # Initialize the sum
-        cs = 0
-        func = _bitshift8
-        func2 = np.uint8
-        if self.endian == '<':
-            func = np.uint8
-            func2 = _bitshift8
-        while True:
-            val = unpack(self.endian + 'H', self.read(2))[0]
-            if func(val) == 165 and (not do_cs or cs == np.uint16(sum)):
-                self.f.seek(-2, 1)
-                return hex(func2(val))
-            sum += cs
-            cs = val
+        size = self.block_size() if do_cs else 0
+        if size > 0:
+            self.f.seek(size, 1)
+        else:
+            self.read(1)
+            while self.block_size() == 0:
+                self.read(1)
+        bts = self.read(2)
+        self.f.seek(-2, 1)
+        return hex(bts[1])
 
     def read_id(self,):
         """Read the next 'ID' from the file.
@@ -390,6 +408,7 @@ class _NortekReader():
                 logging.warning("Corrupted data block sync code (%d, %d) found "
                                 "in ping %d. Searching for next valid code..." %
                                 (tmp[0], tmp[1], self.c))
+            self.f.seek(-2, 1)
             val = int(self.findnext(do_cs=False), 0)
             self._thisid_bytes = self.read(2)
             if self.debug:
-- 
2.43.0


From f46cf695748c698beeb4e6ef68e47bf5ea69eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:47 +0000
Subject: [PATCH 54/95] fix: use the userdata file that is asked for

---
 dolfyn/io/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index fe7fe8b..df42384 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -41,15 +41,15 @@ def _get_filetype(fname):
 
 def _find_userdata(filename, userdata=True):
     # This function finds the file to read
-    if userdata:
-        for basefile in [filename.rsplit('.', 1)[0],
+    if isinstance(userdata, (str, )):
+        return _read_userdata(userdata)
+
+    elif userdata:
+        for basefile in [os.path.splitext(filename)[0],
                          filename]:
             jsonfile = basefile + '.userdata.json'
             if os.path.isfile(jsonfile):
                 return _read_userdata(jsonfile)
-
-    elif isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
-        return _read_userdata(userdata)
     return {}
 
 
-- 
2.43.0


From d29b8ba71f131a51a43f614d63a4e7a47da3a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:47 +0000
Subject: [PATCH 55/95] fix: take only 'declination' and 'inst2head_rotmat' for
 themselves

---
 dolfyn/io/nortek.py  | 4 ++--
 dolfyn/io/nortek2.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 19a204c..d9ce4e8 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -80,9 +80,9 @@ def read_nortek(filename, userdata=True, debug=False, do_checksum=False,
     rotmat = None
     declin = None
     for nm in userdata:
-        if 'rotmat' in nm:
+        if nm == 'inst2head_rotmat':
             rotmat = userdata[nm]
-        elif 'dec' in nm:
+        elif nm == 'declination':
             declin = userdata[nm]
         else:
             dat['attrs'][nm] = userdata[nm]
diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 2395a23..f6ec2ac 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -89,7 +89,7 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
 
     declin = None
     for nm in userdata:
-        if 'dec' in nm:
+        if nm == 'declination':
             declin = userdata[nm]
         else:
             out['attrs'][nm] = userdata[nm]
-- 
2.43.0


From 8f0362be706b707268d2653c000b134ceaf2a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:47 +0000
Subject: [PATCH 56/95] fix: rotate to the declination given in userdata

---
 dolfyn/io/rdi.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index bccc53e..c632cc3 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -177,7 +177,6 @@ def _set_rdi_declination(dat, fname, inplace):
             "'magnetic_var_deg', delete the value from userdata.json and "
             "re-read the file."
             .format(dat.attrs['magnetic_var_deg'], fname, declin))
-        dat.attrs['declination'] = declin
 
     if declin is not None:
         set_declination(dat, declin, inplace)
-- 
2.43.0


From 3540f2af09b3d24333e27506937837d5819427b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 57/95] fix: find a TRDI ensemble behind a single foreign byte

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index c632cc3..7a18828 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -486,7 +486,7 @@ class _RDIReader():
         id = self.f.read_ui8(2)
         if id is None:
             return False
-        id1 = list(id)
+        id1 = list(id)[::-1]  # latest byte first
         search_cnt = 0
         fd = self.f
         if self._debug_level >= 2:
-- 
2.43.0


From 4e20b2e6abbb68a270a21975372de0253702a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:41 +0000
Subject: [PATCH 58/95] fix: Signature temperatures are signed

---
 dolfyn/io/nortek2_defs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_defs.py b/dolfyn/io/nortek2_defs.py
index 8456734..2014910 100644
--- a/dolfyn/io/nortek2_defs.py
+++ b/dolfyn/io/nortek2_defs.py
@@ -189,7 +189,7 @@ _burst_hdr = [
     ('usec100', 'H', [], None),
     ('c_sound', 'H', [], _LinFunc(0.1, dtype=dt32), 'm s-1',
      'Speed of Sound', 'speed_of_sound_in_sea_water'),
-    ('temp', 'H', [], _LinFunc(0.01, dtype=dt32),
+    ('temp', 'h', [], _LinFunc(0.01, dtype=dt32),
      'degree_C', 'Temperature', 'sea_water_temperature'),
     ('pressure', 'I', [], _LinFunc(0.001, dtype=dt32),
      'dbar', 'Pressure', 'sea_water_pressure'),
@@ -237,7 +237,7 @@ _bt_hdr = [
     ('usec100', 'H', [], None),
     ('c_sound', 'H', [], _LinFunc(0.1, dtype=dt32), 'm s-1',
      'Speed of Sound', 'speed_of_sound_in_sea_water'),
-    ('temp', 'H', [], _LinFunc(0.01, dtype=dt32),
+    ('temp', 'h', [], _LinFunc(0.01, dtype=dt32),
      'degree_C', 'Temperature', 'sea_water_temperature'),
     ('pressure', 'I', [], _LinFunc(0.001, dtype=dt32),
      'dbar', 'Pressure', 'sea_water_pressure'),
-- 
2.43.0


From 74f2e4428109e8fd130afa049800f7811b4b1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:28 +0000
Subject: [PATCH 59/95] fix: transpose every Signature orientation matrix

---
 dolfyn/io/nortek2.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index f6ec2ac..abaf3a0 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -639,11 +639,13 @@ def _reduce(data):
 
     if 'orientmat' in data['data_vars']:
         da['has_imu'] = 1  # logical
-        # Signature AHRS rotation matrix returned in "inst->earth"
-        # Change to dolfyn's "earth->inst"
-        dv['orientmat'] = np.rollaxis(dv['orientmat'], 1)
     else:
         da['has_imu'] = 0
+    # Signature AHRS rotation matrix returned in "inst->earth"
+    # Change to dolfyn's "earth->inst"
+    for ky in dv:
+        if ky.startswith('orientmat'):
+            dv[ky] = np.rollaxis(dv[ky], 1)
 
     theta = da['filehead_config']['BEAMCFGLIST'][0]
     if 'THETA=' in theta:
-- 
2.43.0


From 20635c9715a531f5ddad5d9040261abc3772cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:21 +0000
Subject: [PATCH 60/95] fix: read Signature files of averages without AHRS

---
 dolfyn/io/nortek2.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index abaf3a0..bba4f92 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -99,8 +99,9 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
     ds = _set_coords(ds, ref_frame=ds.coord_sys)
 
     if 'orientmat' not in ds:
+        tag = '' if 'heading' in ds else '_avg'
         ds['orientmat'] = _euler2orient(
-            ds['time'], ds['heading'], ds['pitch'], ds['roll'])
+            ds['time'], ds['heading' + tag], ds['pitch' + tag], ds['roll' + tag])
 
     if declin is not None:
         set_declination(ds, declin, inplace=True)
@@ -620,7 +621,7 @@ def _reduce(data):
         dc['range_avg'] = ((np.arange(dv['vel_avg'].shape[1])+1) *
                            da['cell_size_avg'] +
                            da['blank_dist_avg'])
-        if 'orientmat' not in dv:
+        if 'orientmat' not in dv and 'orientmat_avg' in dv:
             dv['orientmat'] = dv.pop('orientmat_avg')
         tmat = da['filehead_config']['XFAVG']
         da['fs'] = da['filehead_config']['PLAN']['MIAVG']
@@ -659,10 +660,7 @@ def _reduce(data):
 
     # If burst velocity isn't used, need to copy one for 'time'
     if 'time' not in dc:
-        for val in dc:
-            if 'time' in val:
-                time = val
-        dc['time'] = dc[time]
+        dc['time'] = dc['time_avg']
 
 
 def split_dp_datasets(ds):
-- 
2.43.0


From 64d6afd1b1f2e6575acb5f380a67c429d501586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:21 +0000
Subject: [PATCH 61/95] fix: read a Signature file with a single ensemble

---
 dolfyn/io/nortek2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index bba4f92..3896bcc 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -146,6 +146,9 @@ class _Ad2cpReader():
         self.unknown_ID_count = {}
 
     def _calc_lastblock_iswhole(self, ):
+        if len(self._ens_pos) < 2:
+            # There is no other block to compare it to
+            return True
         blocksize, blocksize_count = np.unique(np.diff(self._ens_pos),
                                                return_counts=True)
         standard_blocksize = blocksize[blocksize_count.argmax()]
-- 
2.43.0


From 9b799d1afc0fded95a0a9d9a3806214174b98152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:21 +0000
Subject: [PATCH 62/95] fix: AD2CP packet sizes are unsigned

---
 dolfyn/io/nortek2_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index b72bfb7..167099e 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -36,7 +36,7 @@ def _reduce_by_average_angle(data, ky0, ky1, degrees=True):
 # This is the data-type of the index file.
 # This must match what is written-out by the create_index function.
 _index_version = 1
-_hdr = struct.Struct('<BBBBhhh')
+_hdr = struct.Struct('<BBBBHHH')
 _index_dtype = {
     None:
     np.dtype([('ens', np.uint64),
-- 
2.43.0


From 1feb327b997cd5f01ef6635b3f8cca822cd946a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:21 +0000
Subject: [PATCH 63/95] fix: index a Signature file that ends within a packet

---
 dolfyn/io/nortek2_lib.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 167099e..57ffc88 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -119,13 +119,17 @@ def _create_index(infile, outfile, N_ens, debug):
             break
         if dat[2] in ids:
             idk = dat[2]
-            d_ver, d_off, config = struct.unpack('<BBH', fin.read(4))
-            fin.seek(4, 1)
-            yr, mo, dy, h, m, s, u = struct.unpack('6BH', fin.read(8))
-            fin.seek(14, 1)
-            beams_cy = struct.unpack('<H', fin.read(2))[0]
-            fin.seek(seek_2ens[dat[2]], 1)
-            ens[idk] = struct.unpack('<I', fin.read(4))[0]
+            try:
+                d_ver, d_off, config = struct.unpack('<BBH', fin.read(4))
+                fin.seek(4, 1)
+                yr, mo, dy, h, m, s, u = struct.unpack('6BH', fin.read(8))
+                fin.seek(14, 1)
+                beams_cy = struct.unpack('<H', fin.read(2))[0]
+                fin.seek(seek_2ens[dat[2]], 1)
+                ens[idk] = struct.unpack('<I', fin.read(4))[0]
+            except struct.error:
+                # The file ends within this packet
+                break
 
             if last_ens[idk] > 0:
                 if (ens[idk] == 1) or (ens[idk] < last_ens[idk]):
-- 
2.43.0


From 05670e1f68396351e56ce33bd6f389eae784c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:21 +0000
Subject: [PATCH 64/95] fix: size of a raw altimeter packet with AHRS

---
 dolfyn/io/nortek2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 3896bcc..7a1ef6e 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -305,8 +305,8 @@ class _Ad2cpReader():
                     first_pass = True
                     tmp_idx = rdr._nsamp_index = rdr._names.index('nsamp_alt')
                     shift = rdr._nsamp_shift = calcsize(
-                        defs._format(rdr._format[:tmp_idx],
-                                     rdr._N[:tmp_idx]))
+                        '<' + defs._format(rdr._format[:tmp_idx],
+                                           rdr._N[:tmp_idx]))
                 else:
                     first_pass = False
                     tmp_idx = rdr._nsamp_index
@@ -321,7 +321,7 @@ class _Ad2cpReader():
                     rdr._shape[tmp_idx].append(sz)
                     rdr._N[tmp_idx] = sz
                     rdr._struct = defs.Struct('<' + rdr.format)
-                    rdr.nbyte = calcsize(rdr.format)
+                    rdr.nbyte = calcsize('<' + rdr.format)
                     rdr._cs_struct = defs.Struct(
                         '<' + '{}H'.format(int(rdr.nbyte // 2)))
                     # Initialize the array
-- 
2.43.0


From 4488094e8078b86918427945b85bd179801ffb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:21 +0000
Subject: [PATCH 65/95] fix: string packets in a dual-profile Signature file

---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 7a1ef6e..618db17 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -585,7 +585,7 @@ def _clean_dp_skips(data):
     configuration.
     """
     for id in data:
-        if id == 'filehead_config':
+        if id in ['filehead_config', 160]:
             continue
         # Check where 'ver' is zero (should be 1 (for bt) or 3 (everything else))
         skips = np.where(data[id]['ver'] != 0)
-- 
2.43.0


From 960c65aceccfa9d8d9b30735c75484e9926ecc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:05 +0000
Subject: [PATCH 66/95] fix: several pings skipped in a row in a Signature file

---
 dolfyn/io/nortek2_lib.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 57ffc88..46c63a6 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -198,8 +198,13 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
             # the ensemble count is wrong.
             warnings.warn("Skipped ping (ID: {}) in file {} at ensemble {}."
                           .format(id, infile, idx['ens'][inds[ib + 1] - 1]))
-            hwe[inds[(ib + 1):]] += 1
-            ens[inds[(ib + 1):]] += 1
+            skipped = 1
+            if not dp:
+                # The other packets in between tell how many pings are missing
+                between = idx['ID'][(inds[ib] + 1):inds[ib + 1]]
+                skipped = np.unique(between, return_counts=True)[1].max() - 1
+            hwe[inds[(ib + 1):]] += skipped
+            ens[inds[(ib + 1):]] += skipped
 
     # if not dp:
     #     # This block fixes skips that originate from before this file.
-- 
2.43.0


From 31295f730ee30ea1f8b2ed2d4ca5ec7cc5b53ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:05 +0000
Subject: [PATCH 67/95] fix: packets that don't come with every Signature ping

---
 dolfyn/io/nortek2_lib.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 46c63a6..363db9f 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -175,6 +175,16 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
         warnings.warn("Dual Profile detected... Two datasets will be returned.")
         dp = True
 
+    # Packets that don't come with every ping (e.g., raw altimeter) belong
+    # to the ensemble they are found in.
+    pings = np.isin(idx['ID'], [21, 22, 23, 24, 28])
+    if not dp and pings.any() and not pings.all():
+        sub = idx[pings]
+        dp = _check_index(sub, infile, fix_hw_ens, dp)
+        for ky in ['ens', 'hw_ens'] if fix_hw_ens else ['ens']:
+            idx[ky] = sub[ky][np.maximum(np.cumsum(pings) - 1, 0)]
+        return dp
+
     # This loop fixes 'skips' inside the file
     for id in uid:
         # These are the indices for this ID
-- 
2.43.0


From e2c85d88138ee8d892e5171dd40825717dba4a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 68/95] fix: Signature averages with a missing vertical-beam
 ping

---
 dolfyn/io/nortek2.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 618db17..5672569 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -605,6 +605,14 @@ def _reduce(data):
     dc = data['coords']
     da = data['attrs']
 
+    # Where one of the two pings is missing (all zeros), take the other's values
+    if 'time' in dc and 'time_b5' in dc:
+        for ky in ['c_sound', 'temp', 'pressure', 'temp_press', 'temp_clock',
+                   'batt', 'heading', 'pitch', 'roll']:
+            val, val5 = dv[ky], dv[ky + '_b5']
+            dv[ky] = np.where(dc['time'] == 0, val5, val)
+            dv[ky + '_b5'] = np.where(dc['time_b5'] == 0, val, val5)
+
     # Average these fields
     for ky in ['c_sound', 'temp', 'pressure',
                'temp_press', 'temp_clock', 'batt']:
-- 
2.43.0


From ba13a515a36c0f1353399aba72df33dbf97ff7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 69/95] fix: keep the last whole ensemble of a truncated
 Signature file

---
 dolfyn/io/nortek2.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 5672569..4efae9f 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -152,7 +152,14 @@ class _Ad2cpReader():
         blocksize, blocksize_count = np.unique(np.diff(self._ens_pos),
                                                return_counts=True)
         standard_blocksize = blocksize[blocksize_count.argmax()]
-        return (self._eof - self._ens_pos[-1]) == standard_blocksize
+        # Don't count what is left of a packet the file ends within
+        self.f.seek(int(self._index['pos'][-1]), 0)
+        hdr = self._read_hdr()
+        end = self.f.tell() + hdr['sz']
+        if end > self._eof:
+            return False
+        return standard_blocksize in (end - self._ens_pos[-1],
+                                      self._eof - self._ens_pos[-1])
 
     def _check_nortek(self, endian):
         self._reopen(10)
-- 
2.43.0


From 51044bda7f6543010272681f817e4d065a305c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:10 +0000
Subject: [PATCH 70/95] fix: stop reading a Signature file at a packet it ends
 within

---
 dolfyn/io/nortek2.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 4efae9f..39a03d8 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -146,18 +146,18 @@ class _Ad2cpReader():
         self.unknown_ID_count = {}
 
     def _calc_lastblock_iswhole(self, ):
-        if len(self._ens_pos) < 2:
-            # There is no other block to compare it to
-            return True
-        blocksize, blocksize_count = np.unique(np.diff(self._ens_pos),
-                                               return_counts=True)
-        standard_blocksize = blocksize[blocksize_count.argmax()]
         # Don't count what is left of a packet the file ends within
         self.f.seek(int(self._index['pos'][-1]), 0)
         hdr = self._read_hdr()
         end = self.f.tell() + hdr['sz']
         if end > self._eof:
             return False
+        if len(self._ens_pos) < 2:
+            # There is no other block to compare it to
+            return True
+        blocksize, blocksize_count = np.unique(np.diff(self._ens_pos),
+                                               return_counts=True)
+        standard_blocksize = blocksize[blocksize_count.argmax()]
         return standard_blocksize in (end - self._ens_pos[-1],
                                       self._eof - self._ens_pos[-1])
 
@@ -300,6 +300,9 @@ class _Ad2cpReader():
                 hdr = self._read_hdr()
             except IOError:
                 return outdat
+            if self.f.tell() + hdr['sz'] > self._eof:
+                # The file ends within this packet
+                return outdat
             id = hdr['id']
             if id in [21, 22, 23, 24, 28]:  # "burst data record" (vel + ast),
                 # "avg data record" (vel_avg + ast_avg), "bottom track data record" (bt),
-- 
2.43.0


From 2a681098524433d7b8df511ad20825a0eb0e6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:44 +0000
Subject: [PATCH 71/95] fix: refuse a duty cycle whose bursts are not at the
 stated interval

---
 dolfyn/adv/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adv/motion.py b/dolfyn/adv/motion.py
index 943e0bd..1918522 100644
--- a/dolfyn/adv/motion.py
+++ b/dolfyn/adv/motion.py
@@ -102,7 +102,7 @@ class CalcMotion():
         mean = actual_interval.mean()
         # Range will vary depending on how datetime64 rounds the timestamp
         # But isn't an issue if it does
-        if rng > 2 or (mean > interval+1 and mean < interval-1):
+        if rng > 2 or mean > interval+1 or mean < interval-1:
             raise Exception("Bad duty cycle detected")
 
         # If this passes, it means we're safe to blindly skip n_burst for every integral
-- 
2.43.0


From 25abe637a3995663467d8241d9d7906420f9ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:44 +0000
Subject: [PATCH 72/95] fix: head rotation of motion corrected data applies to
 the kept velocities too

---
 dolfyn/rotate/vector.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 0c2c347..77d2c68 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -30,10 +30,14 @@ def _rotate_inst2head(advo, reverse=False):
     if not _check_inst2head_rotmat(advo):
         # This object doesn't have a head2inst_rotmat, so we do nothing.
         return advo
+    # The velocities kept by motion correction share the frame of `vel`
+    vels = ['vel'] + [nm for nm in ('vel_raw', 'velrot', 'velacc')
+                      if nm in advo]
+    rmat = advo['inst2head_rotmat'].values
     if reverse:  # head->inst
-        advo['vel'].values = np.dot(advo['inst2head_rotmat'].T, advo['vel'])
-    else:  # inst->head
-        advo['vel'].values = np.dot(advo['inst2head_rotmat'], advo['vel'])
+        rmat = rmat.T
+    for nm in vels:
+        advo[nm].values = np.dot(rmat, advo[nm])
 
     return advo
 
-- 
2.43.0


From b1f3649a7cff3b37783c2c04730b5a06ba1d03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:44 +0000
Subject: [PATCH 73/95] fix: motion correction of a record that holds a single
 burst

---
 dolfyn/adv/motion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adv/motion.py b/dolfyn/adv/motion.py
index 1918522..4baa930 100644
--- a/dolfyn/adv/motion.py
+++ b/dolfyn/adv/motion.py
@@ -90,7 +90,8 @@ class CalcMotion():
         """
 
         n_burst = self.ds.attrs.get('duty_cycle_n_burst')
-        if not n_burst:
+        if not n_burst or n_burst >= len(self.ds.time):
+            # Continuous data, or a single burst
             return
 
         # duty cycle interval in seconds
-- 
2.43.0


From d976140c6e3ee5f771056c4631d13866ffbf41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 74/95] fix: turbulence averaging no longer changes its input's
 attributes

---
 dolfyn/adv/turbulence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 2ce78b4..e98f95f 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -39,10 +39,8 @@ class ADVBinner(VelBinner):
                                    window=window,
                                    freq_units=freq_units,
                                    noise=noise)
-        for key in list(ds.attrs.keys()):
-            if 'config' in key:
-                ds.attrs.pop(key)
-        out.attrs = ds.attrs
+        out.attrs = {key: val for key, val in ds.attrs.items()
+                     if 'config' not in key}
         out.attrs['n_bin'] = self.n_bin
         out.attrs['n_fft'] = self.n_fft
         out.attrs['n_fft_coh'] = self.n_fft_coh
-- 
2.43.0


From b0285b0ffb3e9682182338a0c9c957cc1a0754ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 75/95] fix: calc_ti masks bins below the speed threshold

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index f255a02..8aef458 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -961,7 +961,7 @@ class VelBinner(TimeBinner):
                 coords[nm] = U_mag[nm].values
 
         return xr.DataArray(
-            ti.data.astype('float32'),
+            ti.filled(np.nan).astype('float32'),
             coords=coords,
             dims=dims,
             attrs={'units': '% [0,1]',
-- 
2.43.0


From 8c1e0f75252934f149fc863be1ced795cdb344e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 76/95] fix: calc_acov for bin lengths that leave 2 or 3 modulo
 4

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 8aef458..26c25b7 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -825,7 +825,7 @@ class VelBinner(TimeBinner):
         dt1 = dt1 - dt1[..., :, int(n_bin // 4):
                         int(-n_bin // 4)].mean(-1)[..., None]
         dt2 = self.demean(indat, n_bin=n_bin)
-        se = slice(int(n_bin // 4) - 1, None, 1)
+        se = slice(int(n_bin // 4) - 1, 2 * int(n_bin // 4) - 1, 1)
         sb = slice(int(n_bin // 4) - 1, None, -1)
         for slc in slice1d_along_axis(dt1.shape, -1):
             tmp = np.correlate(dt1[slc], dt2[slc], 'valid')
-- 
2.43.0


From bf5f3b03b450b00a3848f1c2b2f1445b1e48d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 77/95] fix: calc_epsilon_LT83 for a single component's spectra
 and plain noise levels

---
 dolfyn/adv/turbulence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index e98f95f..8c61e4c 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -348,12 +348,12 @@ class ADVBinner(VelBinner):
         if not hasattr(freq_range, "__iter__") or len(freq_range) != 2:
             raise ValueError("`freq_range` must be an iterable of length 2.")
 
-        if noise is not None:
-            if np.shape(noise)[0] != 3:
+        if noise is not None and np.ndim(noise):
+            if np.shape(noise)[0] != np.shape(psd)[0]:
                 raise Exception(
                     'Noise should have same first dimension as velocity')
-        else:
-            noise = np.array([0, 0, 0])[:, None, None]
+            if 'xarray' not in type(noise).__module__:
+                noise = xr.DataArray(noise, dims=psd.dims[:np.ndim(noise)])
 
         # Noise subtraction from binner.TimeBinner.calc_psd_base
         psd = psd.copy()
-- 
2.43.0


From 1b76d8bcfb1e86e243188b754fdad5ce0e59b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 78/95] fix: averaging into an existing dataset whose
 attributes hold arrays

---
 dolfyn/binned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 8e99be4..ddcac08 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -132,7 +132,7 @@ class TimeBinner:
         props.update(raw_ds.attrs)
 
         for ky in props:
-            if ky in o_attrs and o_attrs[ky] != props[ky]:
+            if ky in o_attrs and not np.array_equal(o_attrs[ky], props[ky]):
                 # The values in out_ds must match `props` (raw_ds.attrs,
                 # plus those defined above)
                 raise AttributeError(
-- 
2.43.0


From 4c221cbb685e1ac30d8c16d27f157e8cb4330342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 79/95] fix: calc_epsilon_LT83 keeps flooring spectra when no
 noise is given

---
 dolfyn/adv/turbulence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 8c61e4c..f0ee6fc 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -354,6 +354,8 @@ class ADVBinner(VelBinner):
                     'Noise should have same first dimension as velocity')
             if 'xarray' not in type(noise).__module__:
                 noise = xr.DataArray(noise, dims=psd.dims[:np.ndim(noise)])
+        elif noise is None:
+            noise = 0
 
         # Noise subtraction from binner.TimeBinner.calc_psd_base
         psd = psd.copy()
-- 
2.43.0


From e3f36319399c6eb23e3f9d207464e0b2f8ea6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 80/95] fix: shear of a down-looking profiler

---
 dolfyn/adp/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 5ff46e0..1c953cd 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -99,8 +99,8 @@ class ADPBinner(VelBinner):
         if orientation == 'down':
             sign *= -1
 
-        dudz, rng = sign*self._diff_func(vel, 0)
-        return xr.DataArray(dudz,
+        dudz, rng = self._diff_func(vel, 0)
+        return xr.DataArray(sign*dudz,
                             coords=[rng, vel.time],
                             dims=['range', 'time'],
                             attrs={'units': 's-1',
-- 
2.43.0


From d24c58e67391545ea9c935f50d45358f7715b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 81/95] fix: a beam angle given by the caller is used

---
 dolfyn/adp/turbulence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 1c953cd..083aa53 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -251,7 +251,9 @@ class ADPBinner(VelBinner):
         """List of error and warnings to run through for ADCP stress calculations.
         """
         # Error 1. Beam Angle
-        b_angle = getattr(ds, 'beam_angle', beam_angle)
+        b_angle = beam_angle
+        if b_angle is None:
+            b_angle = getattr(ds, 'beam_angle', None)
         if b_angle is None:
             raise Exception(
                 "    Beam angle not found in dataset and no beam angle supplied.")
-- 
2.43.0


From d9bbe3a73d97797a34684c49401b9e7107fb425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 82/95] fix: stress calculations leave the caller's dataset in
 its frame

---
 dolfyn/adp/turbulence.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 083aa53..3e611e9 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -281,9 +281,9 @@ class ADPBinner(VelBinner):
         if 'beam' not in ds.coord_sys:
             warnings.warn("    Raw dataset must be in the 'beam' coordinate system. "
                           "Rotating raw dataset...")
-            ds.velds.rotate2('beam')
+            ds = ds.velds.rotate2('beam', inplace=False)
 
-        return b_angle, noise
+        return ds, b_angle, noise
 
     def _check_orientation(self, ds, orientation, beam5=False):
         """Get the beam order for the beam-stress rotation algorithm
@@ -384,7 +384,7 @@ class ADPBinner(VelBinner):
         Geophysical Research: Oceans 104.C5 (1999): 10933-10949.
         """
         # Run through warnings
-        b_angle, noise = self._stress_func_warnings(
+        ds, b_angle, noise = self._stress_func_warnings(
             ds, beam_angle, noise, tilt_thresh=5)
 
         # Fetch beam order
@@ -457,7 +457,7 @@ class ADPBinner(VelBinner):
             raise Exception("Must have 5th beam data to use this function.")
 
         # Run through warnings
-        b_angle, noise = self._stress_func_warnings(
+        ds, b_angle, noise = self._stress_func_warnings(
             ds, beam_angle, noise, tilt_thresh=5)
 
         # Fetch beam order
@@ -500,7 +500,7 @@ class ADPBinner(VelBinner):
 
         else:
             # Guerra Thomson calculate u'v' bar from from the covariance of u' and v'
-            ds.velds.rotate2('inst')
+            ds = ds.velds.rotate2('inst', inplace=False)
             vel = self.detrend(ds.vel.values)
             upvp_ = np.nanmean(vel[0] * vel[1], axis=-1,
                                dtype=np.float64).astype(np.float32)
-- 
2.43.0


From 721ea47f4c4e13bada8076fea6e64a5e7987a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 83/95] fix: structure function separations for cell sizes that
 are not binary fractions

---
 dolfyn/adp/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 3e611e9..0d78b18 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -743,7 +743,7 @@ class ADPBinner(VelBinner):
         n = np.empty(bm.shape[:2], dtype='float32')*np.nan
 
         bin_size = round(np.diff(rng)[0], 3)
-        R = int(r_range[0]/bin_size)
+        R = int(round(r_range[0]/bin_size, 6))
         r = np.arange(bin_size, r_range[1]+bin_size, bin_size)
 
         # D(z,r,time)
@@ -751,7 +751,7 @@ class ADPBinner(VelBinner):
         for r_value in r:
             # the i in d is the index based on r and bin size
             # bin size index, > 1
-            i = int(r_value/bin_size)
+            i = int(round(r_value/bin_size))
             for idx in range(bm.shape[1]):  # for each ensemble
                 # subtract the variance of adjacent depth cells
                 d = np.nanmean(
-- 
2.43.0


From e93e4907717f6c2d5da8a5b61eaee9b961227ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 84/95] fix: calc_dissipation_LT83 accepts plain noise levels

---
 dolfyn/adp/turbulence.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 0d78b18..31fd556 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -637,11 +637,13 @@ class ADPBinner(VelBinner):
             raise Exception('U_mag should be 1-dimensional (time)')
         if not hasattr(freq_range, "__iter__") or len(freq_range) != 2:
             raise ValueError("`freq_range` must be an iterable of length 2.")
-        if noise is not None:
+        if noise is not None and np.ndim(noise):
             if np.shape(noise)[0] != np.shape(psd)[0]:
                 raise Exception(
                     'Noise should have same first dimension as PSD')
-        else:
+            if 'xarray' not in type(noise).__module__:
+                noise = xr.DataArray(noise, dims=psd.dims[:np.ndim(noise)])
+        elif noise is None:
             noise = np.array(0)
 
         # Noise subtraction from binner.TimeBinner.calc_psd_base
-- 
2.43.0


From 2d4cea7cbe5d420dfd4de1720c306c924b1d60b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 85/95] fix: noise level of spectra per radian in
 calc_dissipation_LT83

---
 dolfyn/adp/turbulence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 31fd556..fae5a60 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -649,7 +649,8 @@ class ADPBinner(VelBinner):
         # Noise subtraction from binner.TimeBinner.calc_psd_base
         psd = psd.copy()
         if noise is not None:
-            psd -= noise**2 / (self.fs / 2)
+            fs = self.fs if psd.freq.units == 'Hz' else 2 * np.pi * self.fs
+            psd -= noise**2 / (fs / 2)
             psd = psd.where(psd > 0, np.min(np.abs(psd)) / 100)
 
         freq = psd.freq
-- 
2.43.0


From 89e2bf49da18d1ae7a9d6ca2fd3d3523bc34f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 86/95] fix: structure function stays within the requested
 separations

---
 dolfyn/adp/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index fae5a60..243dede 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -747,7 +747,7 @@ class ADPBinner(VelBinner):
 
         bin_size = round(np.diff(rng)[0], 3)
         R = int(round(r_range[0]/bin_size, 6))
-        r = np.arange(bin_size, r_range[1]+bin_size, bin_size)
+        r = bin_size * np.arange(1, int(round(r_range[1]/bin_size, 6)) + 1)
 
         # D(z,r,time)
         D = np.zeros((bm.shape[0], r.size, bm.shape[1]))
-- 
2.43.0


From e20cb8cbf2fa7fba7e3174fadf9a0dcf55a29b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:52 +0000
Subject: [PATCH 87/95] fix: TE01 dissipation rate from spectra in Hz

---
 dolfyn/adv/turbulence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index f0ee6fc..872ecd9 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -510,6 +510,10 @@ class ADVBinner(VelBinner):
             self._up_angle(dat_raw.velds.U.values)
         freq = dat_avg['psd'].freq.values
 
+        # Get units right (I_tke is already calculated from the true speed)
+        if dat_avg['psd'].freq.units == 'Hz':
+            U_mag = U_mag / (2 * np.pi)
+
         # Calculate constants
         alpha = 1.5
         intgrl = self._calc_epsTE01_int(I_tke, theta)
-- 
2.43.0


From 1b5a2e7fb250d10cb422f9979950a694daa1b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:48 +0000
Subject: [PATCH 88/95] fix: read Nortek files whose comments are not plain
 ASCII

---
 dolfyn/io/nortek.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index d9ce4e8..8a0e711 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -576,7 +576,7 @@ class _NortekReader():
         cfg_u['bin_length'] = tmp[16]
         cfg_u['burst_interval'] = tmp[17]
         cfg_u['usr']['deployment_name'] = tmp[18].partition(b'\x00')[
-            0].decode('utf-8')
+            0].decode('utf-8', 'replace')
         cfg_u['usr']['wrap_mode'] = str(bool(tmp[19]))
         cfg_u['deployment_time'] = np.array(tmp[20:23])
         cfg_u['diagnotics_interval'] = tmp[23]
@@ -593,7 +593,7 @@ class _NortekReader():
         cfg_u['usr']['salinity'] = tmp[32]/10
         cfg_u['VelAdjTable'] = np.array(tmp[33:123])
         cfg_u['usr']['comments'] = tmp[123].partition(b'\x00')[
-            0].decode('utf-8')
+            0].decode('utf-8', 'replace')
         cfg_u['awac']['wave_processing_method'] = [
             'PUV', 'SUV', 'MLM', 'MLMST', 'None'][tmp[124]]
         Mode1 = _int2binarray(tmp[125], 16)
@@ -851,11 +851,11 @@ class _NortekReader():
         hdrnow['Noise1'] = tmp[1]
         hdrnow['Noise2'] = tmp[2]
         hdrnow['Noise3'] = tmp[3]
-        hdrnow['Spare0'] = byts[13:14].decode('utf-8')
+        hdrnow['Spare0'] = byts[13:14].decode('utf-8', 'replace')
         hdrnow['Corr1'] = tmp[5]
         hdrnow['Corr2'] = tmp[6]
         hdrnow['Corr3'] = tmp[7]
-        hdrnow['Spare1'] = byts[17:].decode('utf-8')
+        hdrnow['Spare1'] = byts[17:].decode('utf-8', 'replace')
         self.checksum(byts)
         if 'data_header' not in self.config:
             self.config['data_header'] = hdrnow
-- 
2.43.0


From 035c891dcc2e97626bf5a910c85b5791c20b7c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:51 +0000
Subject: [PATCH 89/95] fix: let each data type of a file describe its own
 variables

---
 dolfyn/io/base.py    | 2 +-
 dolfyn/io/nortek2.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index df42384..6edd24a 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -263,7 +263,7 @@ def _create_dataset(data):
                 ds[key].attrs['coverage_content_type'] = 'physicalMeasurement'
             try:  # make sure ones with tags get units
                 tg = '_' + key.rsplit('_')[-1]
-                if any(val in key for val in tag):
+                if any(val in key for val in tag) and key not in data[md]:
                     ds[key].attrs[md] = data[md][key[:-len(tg)]]
             except:
                 pass
diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 39a03d8..2313a60 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -467,12 +467,14 @@ def _reorg(dat):
         if id not in dat:
             continue
         dnow = dat[id]
-        outdat['units'].update(dnow['units'])
-        outdat['long_name'].update(dnow['long_name'])
         for ky in dnow['units']:
             if not dnow['standard_name'][ky]:
                 dnow['standard_name'].pop(ky)
-        outdat['standard_name'].update(dnow['standard_name'])
+        # Each data type describes its own variables
+        for md in ['units', 'long_name', 'standard_name']:
+            for ky in dnow[md]:
+                outdat[md].setdefault(ky, dnow[md][ky])
+                outdat[md][ky + tag] = dnow[md][ky]
         cfg['burst_config' + tag] = lib._headconfig_int2dict(
             lib._collapse(dnow['config'], exclude=collapse_exclude,
                           name='config'))
-- 
2.43.0


From 795db77237054d3f8e72696d918e21b5c5dd9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:58 +0000
Subject: [PATCH 90/95] fix: save a variable in the type it has now

---
 dolfyn/io/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 786a63e..051532d 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -192,6 +192,12 @@ def save(ds, filename,
                   'preferred_chunks', 'coordinates']
         [enc[ky].pop(p) for p in params if p in enc[ky]]
 
+        # The type a variable had when it was loaded does not apply once it
+        # holds data of another type
+        if ds[ky].dtype.kind in 'biuf' and 'scale_factor' not in enc[ky] \
+                and enc[ky].get('dtype', ds[ky].dtype) != ds[ky].dtype:
+            enc[ky].pop('dtype')
+
         if compression:
             # New netcdf4-c cannot compress variable length strings
             if ds[ky].size <= 1 or isinstance(ds[ky].data[0], str):
-- 
2.43.0


From ba1b7c57f046b98582e5c669dbe7a29e1b94298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:11 +0000
Subject: [PATCH 91/95] fix: rotate integer vectors into the principal frame

---
 dolfyn/rotate/vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 77d2c68..33c2941 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -182,8 +182,8 @@ def _earth2principal(advo, reverse=False, rotate_vars=None):
     # Perform the rotation:
     for nm in rotate_vars:
         dat = advo[nm].values
-        dat[:2] = np.einsum('ij,j...->i...', rotmat[:2, :2], dat[:2])
-        advo[nm].values = dat.copy()
+        horiz = np.einsum('ij,j...->i...', rotmat[:2, :2], dat[:2])
+        advo[nm].values = np.concatenate((horiz, dat[2:]))
 
     # Finalize the output.
     advo = rotb._set_coords(advo, cs_new)
-- 
2.43.0


From 75ad00332446b03b2eb246cbe1795248a7aaa7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:14 +0000
Subject: [PATCH 92/95] fix: give variances the units of a variance

---
 dolfyn/velocity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 26c25b7..f1bb336 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -623,11 +623,14 @@ class VelBinner(TimeBinner):
 
             # create Dataset
             if 'ensemble' not in ky:
+                attrs = dict(raw_ds[ky].attrs)
+                if 'units' in attrs:
+                    attrs['units'] = '(%s)^2' % attrs['units']
                 try:  # variables with time coordinate
                     out_ds[ky+suffix] = xr.DataArray(self.var(raw_ds[ky].values),
                                                      coords=coords_dict,
                                                      dims=dims_list,
-                                                     attrs=raw_ds[ky].attrs
+                                                     attrs=attrs
                                                      ).astype('float32')
                 except:  # variables not needing averaging
                     pass
-- 
2.43.0


From 39d3691230b1dedd25946767911d4c1ccbd1059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:29 +0000
Subject: [PATCH 93/95] fix: end the leader of Ocean Surveyor firmware 14 where
 it ends

---
 dolfyn/io/rdi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 7a18828..65c4f17 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -764,7 +764,8 @@ class _RDIReader():
         if cfg['prog_ver'] >= 8.14:
             cpu_serialnum = fd.read_ui8(8)
             self._nbyte += 8
-        if cfg['prog_ver'] >= 8.24:
+        # The leader of Ocean Surveyor firmware 14 ends here
+        if cfg['prog_ver'] >= 8.24 and prog_ver0 != 14:
             cfg['bandwidth'] = fd.read_ui16(1)
             self._nbyte += 2
         if cfg['prog_ver'] >= 16.05:
-- 
2.43.0


From 5ce355e2a7d4d7b25a91457c61ccc88961563b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:00 +0000
Subject: [PATCH 94/95] fix: sampling rate of Signature averages

---
 dolfyn/io/nortek2.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 2313a60..55005aa 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -647,7 +647,12 @@ def _reduce(data):
         if 'orientmat' not in dv and 'orientmat_avg' in dv:
             dv['orientmat'] = dv.pop('orientmat_avg')
         tmat = da['filehead_config']['XFAVG']
-        da['fs'] = da['filehead_config']['PLAN']['MIAVG']
+        # One average is taken per measurement interval (in seconds)
+        fs_avg = 1 / da['filehead_config']['PLAN']['MIAVG']
+        if 'vel' in dv:  # dual profile
+            da['fs_avg'] = fs_avg
+        else:
+            da['fs'] = fs_avg
         da['avg_interval_sec'] = da['filehead_config']['AVG']['AI']
         da['bandwidth'] = da['filehead_config']['AVG']['BW']
     if 'vel_b5' in dv:
@@ -721,6 +726,7 @@ def split_dp_datasets(ds):
     ds2 = type(ds)()
     for a in (other_attrs + critical_attrs):
         ds2.attrs[a] = ds.attrs[a]
+    ds2.attrs['fs'] = ds2.attrs.pop('fs_avg')
     for v in other_vars:
         ds2[v] = ds[v]
     # Set rotate_vars
-- 
2.43.0


From d8dca21c61f3f07719f44e5b24157085a7204f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:39 +0000
Subject: [PATCH 95/95] fix: dual-profile Signature files with as many averages
 as bursts

---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 55005aa..6540179 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -702,7 +702,7 @@ def split_dp_datasets(ds):
 
     other_coords = []
     for key, val in t_dict.items():
-        if val != t_dict['time']:
+        if val != t_dict['time'] or key.endswith('_avg'):
             if key.endswith('altraw'):
                 # altraw goes with burst, altraw_avg goes with avg
                 continue
-- 
2.43.0


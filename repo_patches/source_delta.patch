From 2ce901dc26a7a0d7ff7567cd77b6d72dc16b948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 01/39] fix: sunset angle in degrees or radians raised
 UnboundLocalError

---
 src/sunwhere/_base.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index a0e3b18..eea70bc 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -517,11 +517,8 @@ class Sunpos:
             dl_hr = self.daylight_length()
             wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
 
-        if units == 'deg':
-            wss = (12. - wss)*15
-
-        if units == 'rad':
-            wss = np.radians((12. - wss)*15)
+        if units in ('deg', 'rad'):
+            wss = -self.sunrise(units)
 
         return wss.rename('wss').assign_attrs(
             units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
-- 
2.43.0


From c9a90fd9bc75405a7141eefaaceac05fa423d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 02/39] fix: universal_time_coordinated and true_solar_time
 read eot from evaluate's dict

---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index fd97acc..61c6974 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -8,7 +8,7 @@ def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_utc, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
@@ -26,7 +26,7 @@ def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_tst, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
-- 
2.43.0


From 73d255f2650e2c32c0ff12f975db42341619c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 03/39] fix: times in any kind of time zone are reported at the
 instants they denote

---
 src/sunwhere/_base.py         | 34 ++++++++++++++--------------------
 src/sunwhere/_cli/position.py |  8 ++++----
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index eea70bc..c3b7c03 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -50,26 +50,20 @@ class Sunpos:
 
         # I need that self._times is timezone-aware and ndmin==1. To ensure
         # ndmin==1, I must convert to a numpy datetime64, but numpy complains
-        # when dealing with timezone-aware times. Hence, first I use
-        # pd.to_datetime to retain the timezone of the input times (if
-        # timezone-aware) or assume UTC if the input times are naive. Then, I
-        # convert to a numpy array of datetime64[ns] with ndmin=1, but de-localizing
-        # the times to prevent numpy complains. Afterwards, I convert back to
-        # pandas using again pd.to_datetime and localize
-        _times = pd.to_datetime(times)
-
-        if _times.tz is None:
-            self._timezone = 'UTC'
-        elif hasattr(_times.tz, 'zone'):
-            self._timezone = _times.tz.zone
-        else:
-            self._timezone = 'UTC'
-
-        self._times = pd.to_datetime(
-            np.array(_times.tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-        ).tz_localize(self._timezone, ambiguous='infer')
-
-        self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')
+        # when dealing with timezone-aware times. Hence, first I convert the
+        # input times to UTC (UTC is assumed if they are naive) and create the
+        # ndmin==1 array of datetime64[ns] from the de-localized UTC times, which,
+        # unlike the local times, are never ambiguous. Afterwards, I convert to
+        # the timezone of the input times, whatever the kind of tzinfo is
+        _tz = pd.to_datetime(times).tz
+
+        self._times_utc = pd.to_datetime(
+            np.array(pd.to_datetime(times, utc=True).tz_localize(None),
+                     ndmin=1, dtype='datetime64[ns]')
+        ).tz_localize('UTC')
+
+        self._times = self._times_utc.tz_convert('UTC' if _tz is None else _tz)
+        self._timezone = getattr(self._times.tz, 'zone', None) or str(self._times.tz)
 
         self._latitude = np.array(latitude, ndmin=1)
         self._longitude = np.array(longitude, ndmin=1)
diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index ef51f4f..c63d124 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -49,10 +49,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': f'{sr_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
+            'Sunrise(UTC)': f'{sr_utc:%H:%M:%S}',
+            'Sunset(UTC)': f'{ss_utc:%H:%M:%S}',
+            f'Sunrise({timezone})': f'{sr_local:%H:%M:%S}',
+            f'Sunset({timezone})': f'{ss_local:%H:%M:%S}',
             'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From 2155f9637431c438d8419dde4ffc2ef56ec39b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 04/39] fix: local sunrise and sunset use the UTC offset in
 force at the event

---
 src/sunwhere/_base.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index c3b7c03..8201b1c 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -472,10 +472,7 @@ class Sunpos:
                 wsr = wsr - delta_ns
 
                 if units == 'local':
-                    utcoffset = xr.DataArray(
-                        self._times.tz_localize(None) - self._times_utc.tz_localize(None),
-                        coords={'time': wsr.coords['time']}, dims=('time',))
-                    wsr = wsr + utcoffset
+                    wsr = wsr.copy(data=self._utc_to_local(wsr.to_numpy()))
 
         return wsr.rename('wsr').assign_attrs(
             units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
@@ -507,10 +504,13 @@ class Sunpos:
         assert units in ('rad', 'deg', 'tst', 'utc', 'local')
 
         if units in ('tst', 'utc', 'local'):
-            wsr = self.sunrise(units)
+            wsr = self.sunrise('tst' if units == 'tst' else 'utc')
             dl_hr = self.daylight_length()
             wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
 
+            if units == 'local':
+                wss = wss.copy(data=self._utc_to_local(wss.to_numpy()))
+
         if units in ('deg', 'rad'):
             wss = -self.sunrise(units)
 
@@ -520,6 +520,13 @@ class Sunpos:
             description='sunset'
         )
 
+    def _utc_to_local(self, times_utc):
+        # the UTC offset must be that in force at times_utc, which may differ
+        # from that in force at self._times (e.g., due to daylight saving time)
+        local = (pd.to_datetime(times_utc.ravel()).tz_localize('UTC')
+                 .tz_convert(self._times.tz).tz_localize(None))
+        return np.array(local, dtype='datetime64[ns]').reshape(times_utc.shape)
+
     def daylight_length(self):
         """Daylight length, in hours.
 
-- 
2.43.0


From 7cd3526ae84fc44646e50823b905ee8bd902505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 05/39] fix: sunrise and sunset raise ValueError if units are
 unknown, as documented

---
 src/sunwhere/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 8201b1c..b2b6691 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -435,7 +435,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units {units}')
 
         tanlat = np.tan(np.radians(self.latitude))
         tandec = np.tan(np.radians(self.declination))
@@ -501,7 +502,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units {units}')
 
         if units in ('tst', 'utc', 'local'):
             wsr = self.sunrise('tst' if units == 'tst' else 'utc')
-- 
2.43.0


From faf0a87ff6e62d46fa9cafec82c5882c21cc2229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 06/39] fix: incidence has the dimensions order of the use case

---
 src/sunwhere/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index b2b6691..7a8b4ca 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -573,5 +573,5 @@ class Sunpos:
         coss = ((sinlat*cosbeta - coslat*sinbeta*cosgamma)*sindec +
                 (coslat*cosbeta + sinlat*sinbeta*cosgamma)*cosdec*coshour +
                 cosdec*sinhour*sinbeta*singamma)
-        return coss.rename('incidence').assign_attrs(
+        return coss.transpose(*self._zenith.dims).rename('incidence').assign_attrs(
             units='-', description='cosine of the angle of incidence')
-- 
2.43.0


From 1dda1f7d2399b22dc254c30befe7d13426a68a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 07/39] fix: coordinates truncated to single precision degraded
 angles near zenith and poles

---
 src/sunwhere/libspa/ne_iqbal.py    | 4 ++--
 src/sunwhere/libspa/ne_psa.py      | 4 ++--
 src/sunwhere/libspa/ne_soltrack.py | 4 ++--
 src/sunwhere/libspa/py_iqbal.py    | 4 ++--
 src/sunwhere/libspa/py_psa.py      | 4 ++--
 src/sunwhere/libspa/py_soltrack.py | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index bbacc02..04dc1bb 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -25,8 +25,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=False):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/ne_psa.py b/src/sunwhere/libspa/ne_psa.py
index e5ba0f3..7da3e5b 100644
--- a/src/sunwhere/libspa/ne_psa.py
+++ b/src/sunwhere/libspa/ne_psa.py
@@ -29,8 +29,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index 27bd91b..b8c7091 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -32,8 +32,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index c60aaa8..abd7f87 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -24,8 +24,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=False):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/py_psa.py b/src/sunwhere/libspa/py_psa.py
index 87fc09c..478b81e 100644
--- a/src/sunwhere/libspa/py_psa.py
+++ b/src/sunwhere/libspa/py_psa.py
@@ -25,8 +25,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index afae171..85aaf2a 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -28,8 +28,8 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
 
     # inputs must be 1d arrays
     unixtime = np.array(unixtime, ndmin=1, dtype=np.float64).ravel()
-    longitude = np.array(longitude, ndmin=1, dtype=np.float32).ravel()
-    latitude = np.array(latitude, ndmin=1, dtype=np.float32).ravel()
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
+    latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
     if ndim == 0:
 
-- 
2.43.0


From 1992d1e6b2d47452c3881ea0962e1fc459e25d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 08/39] fix: zenith is NaN or inaccurate when the sun is at the
 zenith or nadir

---
 src/sunwhere/libspa/ne_iqbal.py    | 9 ++++++---
 src/sunwhere/libspa/ne_nrel.py     | 9 ++++++---
 src/sunwhere/libspa/ne_psa.py      | 9 ++++++---
 src/sunwhere/libspa/ne_soltrack.py | 3 +++
 src/sunwhere/libspa/py_iqbal.py    | 6 +++---
 src/sunwhere/libspa/py_psa.py      | 6 +++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 7 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index 04dc1bb..75b764d 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -142,7 +142,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.)
+    sza_rad = nex('arccos(cosz)')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -203,7 +204,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.)
+    sza_rad = nex('arccos(cosz)')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -265,7 +267,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosz = np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.)
+    sza_rad = nex('arccos(cosz)')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 4d0c475..12ce1e3 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -227,7 +227,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp))')
+    sin_e = np.clip(nex('sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp)'), -1., 1.)
+    e = nex('arcsin(sin_e)')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -280,7 +281,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    sin_e = np.clip(nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)'), -1., 1.)
+    e = nex('arcsin(sin_e)')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -333,7 +335,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    sin_e = np.clip(nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)'), -1., 1.)
+    e = nex('arcsin(sin_e)')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_psa.py b/src/sunwhere/libspa/ne_psa.py
index 7da3e5b..2bf53a8 100644
--- a/src/sunwhere/libspa/ne_psa.py
+++ b/src/sunwhere/libspa/ne_psa.py
@@ -127,7 +127,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(delta)')
     tandec = nex('tan(delta)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    cosz = np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.)
+    zenith = nex('arccos(cosz)')
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -169,7 +170,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')  # radians
+    cosz = np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.)
+    zenith = nex('arccos(cosz)')  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -211,7 +213,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    cosz = np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.)
+    zenith = nex('arccos(cosz)')
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax Correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index b8c7091..453e669 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -147,6 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
+    sin_alt = np.clip(sin_alt, -1., 1.)
     alt_uncorr = nex('arcsin(sin_alt)')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')      # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -182,6 +183,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
+    sin_alt = np.clip(sin_alt, -1., 1.)
     alt_uncorr = nex('arcsin(sin_alt)')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -218,6 +220,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
+    sin_alt = np.clip(sin_alt, -1., 1.)
     alt_uncorr = nex('arcsin(sin_alt)')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index abd7f87..b29fd05 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -139,7 +139,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -198,7 +198,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -259,7 +259,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/py_psa.py b/src/sunwhere/libspa/py_psa.py
index 478b81e..a557ba0 100644
--- a/src/sunwhere/libspa/py_psa.py
+++ b/src/sunwhere/libspa/py_psa.py
@@ -129,7 +129,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta)
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -173,7 +173,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -218,7 +218,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index 85aaf2a..89c11dc 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -140,7 +140,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -188,7 +188,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -236,7 +236,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
-- 
2.43.0


From 1980ac71a521b43af826fdcc05b697f14b372a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 09/39] fix: soltrack's refraction is singular when the sun is
 about 5 degrees below the horizon

---
 src/sunwhere/libspa/ne_soltrack.py | 6 +++---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index 453e669..7659803 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -153,7 +153,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        alt = nex('where(alt >= -1.4545e-2, alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))), alt)')
 
     zenith = HALFPI - alt
 
@@ -189,7 +189,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        alt = nex('where(alt >= -1.4545e-2, alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))), alt)')
 
     zenith = HALFPI - alt
 
@@ -226,7 +226,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        alt = nex('where(alt >= -1.4545e-2, alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))), alt)')
 
     zenith = HALFPI - alt
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index 89c11dc..f28386b 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -147,7 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -195,7 +195,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -243,7 +243,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
-- 
2.43.0


From 72f1c1d590c93d69c050bf30f44b5cd4d265c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 10/39] fix: iqbal's refraction drives the zenith angle out of
 [0, 180] degrees

---
 src/sunwhere/libspa/ne_iqbal.py | 9 ++++++---
 src/sunwhere/libspa/py_iqbal.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index 75b764d..a30536d 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -154,7 +154,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')
@@ -216,7 +217,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None]
@@ -279,7 +281,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None, None]
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index b29fd05..753ebd8 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -149,7 +149,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -208,7 +209,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -269,7 +271,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
-- 
2.43.0


From cf3a130531870a481df44dacad0173d0ebb7eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 11/39] fix: refraction was silently ignored unless it was the
 builtin True

---
 src/sunwhere/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index 155328c..e53f8e3 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -151,7 +151,7 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
 
     # load function to compute solar position...
     spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos
-    spa_args = [ndim, refraction]
+    spa_args = [ndim, bool(refraction)]
 
     # ... and call it
     namespace = spa_func.__module__ + '.' + spa_func.__name__
-- 
2.43.0


From de5044d3b62ec482722e4dda8c9af64f6344c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 12/39] fix: command at failed in the polar day and the polar
 night

---
 src/sunwhere/_cli/position.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index c63d124..8cbebe3 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -13,6 +13,11 @@ import sunwhere
 locale.setlocale(locale.LC_TIME, locale.getlocale())
 
 
+def _hms(time):
+    # there is neither sunrise nor sunset in the polar day and the polar night
+    return '--' if pd.isna(time) else f'{time:%H:%M:%S}'
+
+
 def calculate_position(time, lat, lon, algorithm, refraction, timezone):
 
     # Online service to verify the results of NREL's SPA
@@ -49,10 +54,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': f'{sr_utc:%H:%M:%S}',
-            'Sunset(UTC)': f'{ss_utc:%H:%M:%S}',
-            f'Sunrise({timezone})': f'{sr_local:%H:%M:%S}',
-            f'Sunset({timezone})': f'{ss_local:%H:%M:%S}',
+            'Sunrise(UTC)': _hms(sr_utc),
+            'Sunset(UTC)': _hms(ss_utc),
+            f'Sunrise({timezone})': _hms(sr_local),
+            f'Sunset({timezone})': _hms(ss_local),
             'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From 086b95c0bb7240ec58883fb9122898606f1f6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 13/39] fix: command at lost the sign of the equation of time
 if shorter than 1 minute

---
 src/sunwhere/_cli/position.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 8cbebe3..e5776ce 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -37,8 +37,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
     ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
     eot = sw.eot.isel(time=0).item()
-    eot_min = int(eot)
-    eot_sec = 60*(abs(eot) % 1)
+    eot_min, eot_sec = divmod(round(60*abs(eot), 1), 60)
 
     ts = pd.to_datetime(time).tz_localize(timezone)
 
@@ -58,7 +57,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Sunset(UTC)': _hms(ss_utc),
             f'Sunrise({timezone})': _hms(sr_local),
             f'Sunset({timezone})': _hms(ss_local),
-            'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
+            'Equation of time': f'{"-" if eot < 0 else ""}{eot_min:.0f}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
 
-- 
2.43.0


From fb3bbc871283bdb279fbf88192f76e05cc63b045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 14/39] fix: command at took the machine's wall clock as that
 of the requested time zone

---
 src/sunwhere/_cli/position.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index e5776ce..8368b6d 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -1,6 +1,5 @@
 
 import locale
-from datetime import datetime
 
 from tabulate import tabulate
 
@@ -24,7 +23,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     # https://www.kso.ac.at/beobachtungen/ephem_api.php?date=20230715&time=12%3A00%3A00&lat=40.0000&lon=0.0000
 
     if time == 'now':
-        time = datetime.now()
+        time = pd.Timestamp.now(tz=timezone).tz_localize(None)
 
     times = np.array(
         pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-- 
2.43.0


From b7e03377e353f1e707266ceccf99a38bbcac3c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 15/39] fix: load_jpl_ephemeris dropped a missing column and
 localized UTC times twice

---
 src/sunwhere/utils/jpl_horizons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 195f0ec..ae7a5f9 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -119,7 +119,7 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
                 filenames.append(out_filename)
                 logger.success('data downloaded')
             logger.info(f'loading high-res ephemeris from file {out_filename}')
-            data.append(read_jpl_ephemeris_file(out_filename).drop(columns='julian_day'))
+            data.append(read_jpl_ephemeris_file(out_filename))
         df = pd.concat(data, axis=0)
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
@@ -129,4 +129,4 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         for filename in filenames:
             filename.unlink()
 
-    return pd.read_parquet(whole_data_filename).tz_localize('UTC')
+    return pd.read_parquet(whole_data_filename)
-- 
2.43.0


From 11e4095ae5ed8dea9ad4e65774106addccde1112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 16/39] fix: nrel's nutation terms vary with the julian
 ephemeris century, not the millennium

---
 src/sunwhere/libspa/ne_nrel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 12ce1e3..f7e3304 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -109,6 +109,8 @@ def time_dependent_calculations(unixtime):
     # geocentric latitude, radians
     beta = nex('-DEG2RAD * B')
 
+    jce_ = jce[None, :]
+
     # mean elongation
     x0 = nex('297.85036 + 445267.111480*jce - 0.0019142*jce**2 + jce**3 / 189474')
     x0_ = x0[None, :]
@@ -132,7 +134,7 @@ def time_dependent_calculations(unixtime):
     # longitude nutation
     delta_psi = np.sum(
         nex(
-            '(C_NUT_A + C_NUT_B*jme_)*'
+            '(C_NUT_A + C_NUT_B*jce_)*'
             'sin('
             '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
             '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
@@ -144,7 +146,7 @@ def time_dependent_calculations(unixtime):
     # obliquity nutation
     delta_eps = np.sum(
         nex(
-            '(C_NUT_C + C_NUT_D*jme_)*'
+            '(C_NUT_C + C_NUT_D*jce_)*'
             'cos('
             '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
             '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
-- 
2.43.0


From 1ce0656e2a69c4d8f1afb2434c658d8e7f68611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 17/39] fix: nrel failed if there were no valid times

---
 src/sunwhere/libspa/ne_nrel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index f7e3304..38ebc66 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -75,6 +75,9 @@ def time_dependent_calculations(unixtime):
 
     nex = ne.evaluate
 
+    if unixtime.size == 0:  # numexpr does not broadcast empty arrays
+        return tuple(np.empty(0) for _ in range(5))
+
     # julian day
     jd = nex('unixtime / 86400 + 2440587.5')
 
-- 
2.43.0


From dd5dee5f8dbbbd9ed3a36d62f0aa8d845fd026c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 18/39] fix: load_jpl_ephemeris returned the data of another
 site if that was loaded before

---
 src/sunwhere/utils/jpl_horizons.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index ae7a5f9..09cac2c 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -105,12 +105,14 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
     if not out_dir.exists():
         out_dir.mkdir(parents=True, exist_ok=True)
 
-    whole_data_filename = out_dir / f'jpl_ephemeris_highres_{year}.parquet'
+    # the site is in the file names because the files are reused across calls
+    stem = f'jpl_ephemeris_highres_{site_lon:.6f}_{site_lat:.6f}_{year}'
+    whole_data_filename = out_dir / f'{stem}.parquet'
     if not whole_data_filename.exists():
         data = []
         filenames = []
         for month in range(1, 13):
-            out_filename = out_dir / f'jpl_ephemeris_highres_{year}-{month:02d}.txt'
+            out_filename = out_dir / f'{stem}-{month:02d}.txt'
             if not out_filename.exists():
                 logger.info(f'downloading high-res ephemeris to file {out_filename}')
                 start_time = pd.to_datetime(f'{year}-{month:02d}-01 00:00')
-- 
2.43.0


From 6089bcbd663597bc83482073d09885aaaaa620bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 19/39] fix: incidence was an arbitrary number where the
 longitude is missing

---
 src/sunwhere/_base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 7a8b4ca..7bf46c7 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -558,9 +558,8 @@ class Sunpos:
         """
         # hour angle...
         tst = self.true_solar_time.to_numpy()
-        hour = self.true_solar_time.copy(
-            data=tst - tst.astype('datetime64[D]')
-        ).astype('float64') * 1e-9 / 3600
+        hour = self.true_solar_time.copy(  # NaN where tst is NaT
+            data=(tst - tst.astype('datetime64[D]')) / np.timedelta64(1, 'h'))
         ha = hour.copy(data=15*(12-hour))
 
         fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731
-- 
2.43.0


From 5e7fba4ba3c769a7c2598485ab543e793ea4218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 20/39] fix: the benchmark reversed the sign of azimuth errors
 across north

---
 src/sunwhere/_cli/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 29e0e8f..9242b99 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -127,8 +127,8 @@ def calc_residues(data, reference, relative=False):
     def calc_error(m, o):
         diff = m - o
         if 'azimuth' in diff.columns:
-            diff['azimuth'] = diff['azimuth'].where(diff['azimuth'] > -330, -360 - diff['azimuth'])
-            diff['azimuth'] = diff['azimuth'].where(diff['azimuth'] < 330, 360 - diff['azimuth'])
+            # the shortest way around
+            diff['azimuth'] = (diff['azimuth'] + 180) % 360 - 180
         return diff / o if relative is True else diff
 
     residue = data.copy()
-- 
2.43.0


From 4999827f9397b3f3182e63051736910d2917d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 21/39] fix: the benchmark failed at sites on the equator or
 the Greenwich meridian

---
 src/sunwhere/_cli/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 9242b99..df49656 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -539,7 +539,7 @@ def run_benchmark(year, site_lat, site_lon, show_accuracy=False, show_exec_time=
 
     logger.info(f'Performing benchmark tests for {year} at lat={site_lat} lon={site_lon}')
 
-    sign = lambda x: int(0.5*(1 + x / abs(x)))  # noqa: E731
+    sign = lambda x: int(x >= 0)  # noqa: E731
     lat_str = f'{abs(site_lat):07.4f}{("S", "N")[sign(site_lat)]}'.replace('.', 'p')
     lon_str = f'{abs(site_lon):08.4f}{("W", "E")[sign(site_lon)]}'.replace('.', 'p')
     out_filename = (Path(tempfile.gettempdir()) /
-- 
2.43.0


From e9e16eb19030bee0124cdd930e25b9640c7c9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 22/39] fix: the hour lines of solar charts were those of UTC
 in other time zones

---
 src/sunwhere/_cli/solar_chart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index 18e83b4..4f2e63a 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -140,7 +140,7 @@ class SolarChart(object):
             # draw analemmas
             date_s = pd.Timestamp(f'1 Jan {ts.year} {ho:02d}:{mn:02d}')
             times = self._date_range(date_s, 366 if ts.is_leap_year else 365, '1D')
-            sunpath = self.sunpath(pd.to_datetime(times).tz_localize(None))
+            sunpath = self.sunpath(times.tz_convert('UTC'))
             self.plot_sunpath(sunpath, ls='-', marker='', lw=0.7, color=color)
 
             # draw time labels
-- 
2.43.0


From a1988c89198fc08bfd2c057ce93058bc4d7e1f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 23/39] fix: solar charts swapped day and month of days up to
 the 12th

---
 src/sunwhere/_cli/solar_chart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index 4f2e63a..b0f42c2 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -169,7 +169,7 @@ class SolarChart(object):
         for day, month in days:
             # draw sun path
             sunpath = self.sunpath(
-                self._date_range(f'{day}/{month}/{ts.year}', 288, '5min'))
+                self._date_range(f'{ts.year}/{month}/{day}', 288, '5min'))
             self.plot_sunpath(
                 sunpath, ls='-', lw=0.5, marker='',
                 color=SolarChart.color_solar_grid)
-- 
2.43.0


From 7f0ec03053da14679ddb5820af4fa0e97011ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 24/39] fix: make_solar_chart failed without a date

---
 src/sunwhere/_cli/solar_chart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index b0f42c2..af4e48d 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -338,6 +338,7 @@ def make_solar_chart(site_lat, site_lon, user_datetime=None, timezone='UTC',
 
     solar_chart = SolarChart(site_lat, site_lon, user_datetime, timezone, polar)
     solar_chart.draw_solar_grid()
-    solar_chart.draw_solar_path(user_datetime)
+    if user_datetime is not None:
+        solar_chart.draw_solar_path(user_datetime)
     if filename is not None:
         solar_chart.savefig(filename, transparent=transparent)
-- 
2.43.0


From 530e4d50eb969b5665dd4e48a3bd96b91a733028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 25/39] fix: East and West were swapped in solar charts

---
 src/sunwhere/_cli/solar_chart.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index af4e48d..0062f09 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -213,8 +213,8 @@ class SolarChart(object):
                      bbox=dict(fc='white', ec='none', pad=3), fontsize=14)
             add_text(0.5, 1.08, 'N', ha='center', fontsize=16)
             add_text(0.5, -.08, 'S', ha='center', fontsize=16)
-            add_text(-.09, .5, 'W', va='center', fontsize=16)
-            add_text(1.09, .5, 'E', va='center', fontsize=16)
+            add_text(-.09, .5, 'E', va='center', fontsize=16)
+            add_text(1.09, .5, 'W', va='center', fontsize=16)
         else:
             add_text(.01, .97, r'Latitude=$%.2f^{\circ}$' % self.latitude,
                      bbox=dict(fc='white', ec='none', pad=4), fontsize=14)
@@ -225,8 +225,8 @@ class SolarChart(object):
             add_text(0., 1.06, 'North', fontsize=16)
             add_text(1., 1.06, 'NortH', ha='right', fontsize=14)
             add_text(0.5, 1.06, 'South', ha='center', fontsize=14)
-            add_text(0.25, 1.06, 'West', ha='center', fontsize=14)
-            add_text(0.75, 1.06, 'East', ha='center', fontsize=14)
+            add_text(0.25, 1.06, 'East', ha='center', fontsize=14)
+            add_text(0.75, 1.06, 'West', ha='center', fontsize=14)
 
         self.draw_background_grid()
 
-- 
2.43.0


From 0c20f7841303b3e6d31ca370378b86cdda32ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 26/39] fix: solar charts could not be rendered (labels placed
 at arrays)

---
 src/sunwhere/_cli/solar_chart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index 0062f09..2e494b3 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -146,7 +146,7 @@ class SolarChart(object):
             # draw time labels
             solpos = self.sunpath(
                 [pd.Timestamp(f'21 Jun {ts.year} {ho:d}:{mn:d}', tz=self.timezone)])
-            az, al = solpos['azimuth'], solpos['altitude']
+            az, al = solpos['azimuth'].item(), solpos['altitude'].item()
             if al >= 0:
                 daz, dal = 0., 1.
                 ha = 'center' if abs(az) < 60 else ('left' if az < 0 else 'right')
-- 
2.43.0


From b0c3bf68b97b0abbe55f2660ab37ec13aa1caa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 27/39] fix: command at now failed in the hour in which clocks
 go back

---
 src/sunwhere/_cli/position.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 8368b6d..f31081f 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -3,7 +3,6 @@ import locale
 
 from tabulate import tabulate
 
-import numpy as np
 import pandas as pd
 
 import sunwhere
@@ -22,12 +21,13 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     # Online service to verify the results of NREL's SPA
     # https://www.kso.ac.at/beobachtungen/ephem_api.php?date=20230715&time=12%3A00%3A00&lat=40.0000&lon=0.0000
 
+    # the wall clock of now may be ambiguous in the time zone
     if time == 'now':
-        time = pd.Timestamp.now(tz=timezone).tz_localize(None)
+        ts = pd.Timestamp.now(tz=timezone)
+    else:
+        ts = pd.to_datetime(time).tz_localize(timezone)
 
-    times = np.array(
-        pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-    times = pd.to_datetime(times).tz_localize(timezone)
+    times = pd.DatetimeIndex([ts])
 
     sw = sunwhere.sites(times, lat, lon, algorithm=algorithm, refraction=refraction)
 
@@ -38,8 +38,6 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     eot = sw.eot.isel(time=0).item()
     eot_min, eot_sec = divmod(round(60*abs(eot), 1), 60)
 
-    ts = pd.to_datetime(time).tz_localize(timezone)
-
     s = pd.Series(
         {
             'Day of week': ts.strftime("%A").capitalize(),
-- 
2.43.0


From 8ff377829d45b96977734221d05f1f76a286088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 28/39] fix: daylight_length has its units whatever the options
 of xarray

---
 src/sunwhere/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 7bf46c7..47df167 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -537,7 +537,7 @@ class Sunpos:
             [1] Eq. (1.5.5) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        return (2./15.)*self.sunrise(units='deg').rename('daylight_length').assign_attrs(
+        return ((2./15.)*self.sunrise(units='deg')).rename('daylight_length').assign_attrs(
             units='hour',
             description='daylight length'
         )
-- 
2.43.0


From ceec66c2ea924b1d620a86c8e64f71ecd34e2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 29/39] fix: table of execution times was left empty (chained
 assignment)

---
 src/sunwhere/_cli/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index df49656..1ffdba7 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -455,7 +455,7 @@ def load_speed_tests(out_dir=None):
                             continue
                         mean_time, std_time = speed_meter(
                             library, algorithm, n_times, n_locs)
-                        df.loc[n_times][n_locs] = mean_time
+                        df.loc[n_times, n_locs] = mean_time
                     df.to_parquet(this_filename)
                 keys.append(f'{library}.{algorithm}')
                 exec_time.append(pd.read_parquet(this_filename))
-- 
2.43.0


From fa2b8c1cf11f74e0a89fcc372fbd95e10663de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 30/39] fix: a scalar Timestamp keeps its nanoseconds in the
 reported times

---
 src/sunwhere/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 47df167..328ca5d 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -58,7 +58,7 @@ class Sunpos:
         _tz = pd.to_datetime(times).tz
 
         self._times_utc = pd.to_datetime(
-            np.array(pd.to_datetime(times, utc=True).tz_localize(None),
+            np.array(pd.to_datetime(times, utc=True).tz_localize(None).to_numpy(),
                      ndmin=1, dtype='datetime64[ns]')
         ).tz_localize('UTC')
 
-- 
2.43.0


From 9c8ba211dbab72ca6aa74a546743ad11858c35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:54 +0000
Subject: [PATCH 31/39] fix: the converters between UTC and true solar time
 overflow with longitudes in small integers

4*longitude was evaluated in the type of the input: with int8 or uint8
arrays the result was hours off, silently, and with decimals it failed.
---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index 61c6974..a55c920 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -7,7 +7,7 @@ from .._core import evaluate
 def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
-    longitude = np.array(longitude, ndmin=1)
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64)
     eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
@@ -25,7 +25,7 @@ def true_solar_time(times_utc, longitude):
 def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
-    longitude = np.array(longitude, ndmin=1)
+    longitude = np.array(longitude, ndmin=1, dtype=np.float64)
     eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
-- 
2.43.0


From d638643022acd0487213f32f74e6ea9d4bec1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 32/39] fix: solar charts of the present date failed near clock
 changes

The wall clock of the machine was read as that of the requested time
zone, where it may be ambiguous or not exist (and of another year).
---
 src/sunwhere/_cli/solar_chart.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/solar_chart.py b/src/sunwhere/_cli/solar_chart.py
index 2e494b3..53e0f4b 100644
--- a/src/sunwhere/_cli/solar_chart.py
+++ b/src/sunwhere/_cli/solar_chart.py
@@ -1,6 +1,5 @@
 
 import itertools as itt
-from datetime import datetime
 
 import numpy as np
 import pylab as pl
@@ -91,10 +90,9 @@ class SolarChart(object):
     def draw_solar_grid(self, days=None, months=None, hours=None, minutes=None,
                         include_solstice=True, include_equinox=True):
 
-        ts = pd.Timestamp(datetime.now())
+        ts = pd.Timestamp.now(tz=self.timezone)
         if self._user_datetime is not None:
-            ts = pd.Timestamp(self._user_datetime)
-        ts = ts.tz_localize(self.timezone)
+            ts = pd.Timestamp(self._user_datetime).tz_localize(self.timezone)
         time_ref = ts.tzname()
 
         zone_name = self.timezone
-- 
2.43.0


From 4808311091dbf83c977e66b5497f360a671b33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:21 +0000
Subject: [PATCH 33/39] fix: a single missing time (NaT, None) passed alone
 raised TypeError

---
 src/sunwhere/usecases.py       | 6 +++---
 src/sunwhere/utils/validate.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/usecases.py b/src/sunwhere/usecases.py
index 325b260..7ca4707 100644
--- a/src/sunwhere/usecases.py
+++ b/src/sunwhere/usecases.py
@@ -81,7 +81,7 @@ def sites(times, latitude, longitude, algorithm='psa',
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
     times_utc = np.array(
-        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime
+        pd.to_datetime(times, utc=True).tz_localize(None).to_numpy(),  # naive datetime
         ndmin=1, dtype='datetime64[s]')
     sites_lats = np.array(latitude, ndmin=1, dtype=np.float64)
     sites_lons = np.array(longitude, ndmin=1, dtype=np.float64)
@@ -176,7 +176,7 @@ def regular_grid(times, latitude, longitude, algorithm='psa',
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
     times_utc = np.array(
-        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime
+        pd.to_datetime(times, utc=True).tz_localize(None).to_numpy(),  # naive datetime
         ndmin=1, dtype='datetime64[s]')
     grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)
     grid_lons = np.array(longitude, ndmin=1, dtype=np.float64)
@@ -264,7 +264,7 @@ def transect(times, latitude, longitude, algorithm='psa',
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
     times_utc = np.array(
-        pd.to_datetime(times, utc=True).tz_localize(None),
+        pd.to_datetime(times, utc=True).tz_localize(None).to_numpy(),
         ndmin=1, dtype='datetime64[s]')
     transect_lats = np.array(latitude, ndmin=1, dtype=np.float64)
     transect_lons = np.array(longitude, ndmin=1, dtype=np.float64)
diff --git a/src/sunwhere/utils/validate.py b/src/sunwhere/utils/validate.py
index 7446d4f..cf4ac11 100644
--- a/src/sunwhere/utils/validate.py
+++ b/src/sunwhere/utils/validate.py
@@ -26,7 +26,7 @@ def check_timelatlon(times, latitude, longitude, ndim, dtype=None, dt64=None):
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
     times = np.array(
-        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime
+        pd.to_datetime(times, utc=True).tz_localize(None).to_numpy(),  # naive datetime
         ndmin=1, dtype=dt64)
     if times.ndim > 1:
         raise ValueError(
-- 
2.43.0


From f72c56b33188643a1678d7ee0427b6686e68866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:36 +0000
Subject: [PATCH 34/39] fix: incidence loses its precision with slopes or
 azimuths in small number types

---
 src/sunwhere/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 328ca5d..a3dc821 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -562,7 +562,8 @@ class Sunpos:
             data=(tst - tst.astype('datetime64[D]')) / np.timedelta64(1, 'h'))
         ha = hour.copy(data=15*(12-hour))
 
-        fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731
+        fcirc = lambda a: (np.cos(np.radians(a, dtype=np.float64)),  # noqa: E731
+                           np.sin(np.radians(a, dtype=np.float64)))
 
         cosbeta, sinbeta = fcirc(sfc_slope)
         cosgamma, singamma = fcirc(sfc_azimuth)
-- 
2.43.0


From 59fbf77fea161737c7f427f81d1ac7efa13740d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:50 +0000
Subject: [PATCH 35/39] fix: error replies of JPL Horizons were taken for
 ephemerides and cached

---
 src/sunwhere/utils/jpl_horizons.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 09cac2c..eaf2b0d 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -63,6 +63,10 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
     data = response.data.decode('utf-8')
     http.clear()
 
+    # error replies must not be taken for ephemerides, now or in later calls
+    if '$$EOE' not in data:
+        raise RuntimeError(f'there is no ephemeris in the response: {data[-500:]}')
+
     path = Path(out_filename)
     if not path.parent.exists():
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From bc68ea9bc62222f709a7f3722bdcc28137f18049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 36/39] fix: requests to JPL Horizons ignored the time zone of
 the period

---
 src/sunwhere/utils/jpl_horizons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index eaf2b0d..e31f757 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -43,8 +43,8 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
     }
 
     options = _options | {
-        'START_TIME': pd.to_datetime(start_time).strftime('%Y-%m-%d %H:%M'),
-        'STOP_TIME': pd.to_datetime(stop_time).strftime('%Y-%m-%d %H:%M'),
+        'START_TIME': pd.to_datetime(start_time, utc=True).strftime('%Y-%m-%d %H:%M'),
+        'STOP_TIME': pd.to_datetime(stop_time, utc=True).strftime('%Y-%m-%d %H:%M'),
         'SITE_COORD': f'{site_lon:.6f},{site_lat:.6f},{site_elev:.3f}',
         'STEP_SIZE': f'{step_size:.0f} MINUTES'
     }
-- 
2.43.0


From 7242142449357be0f1ff5bd02959bf2ee9193a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:28 +0000
Subject: [PATCH 37/39] fix: interrupted downloads and full disks do not spoil
 the files of JPL ephemeris

---
 src/sunwhere/utils/jpl_horizons.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index e31f757..0b47328 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -70,7 +70,7 @@ def get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon,
     path = Path(out_filename)
     if not path.parent.exists():
         path.parent.mkdir(parents=True, exist_ok=True)
-    path.open(mode='w').write(data)
+    path.write_text(data)  # unlike a file left to be closed later, it raises if writing fails
 
     return path
 
@@ -112,6 +112,7 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
     # the site is in the file names because the files are reused across calls
     stem = f'jpl_ephemeris_highres_{site_lon:.6f}_{site_lat:.6f}_{year}'
     whole_data_filename = out_dir / f'{stem}.parquet'
+    part_filename = out_dir / f'{stem}.part'
     if not whole_data_filename.exists():
         data = []
         filenames = []
@@ -121,7 +122,9 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
                 logger.info(f'downloading high-res ephemeris to file {out_filename}')
                 start_time = pd.to_datetime(f'{year}-{month:02d}-01 00:00')
                 stop_time = (start_time + pd.Timedelta('35days')).replace(day=1) - pd.Timedelta('1min')
-                get_jpl_ephemeris(out_filename, start_time, stop_time, site_lon, site_lat, step_size=12)
+                # written aside: if interrupted, it must not be taken for complete in later calls
+                get_jpl_ephemeris(part_filename, start_time, stop_time, site_lon, site_lat, step_size=12)
+                part_filename.replace(out_filename)
                 filenames.append(out_filename)
                 logger.success('data downloaded')
             logger.info(f'loading high-res ephemeris from file {out_filename}')
@@ -130,7 +133,8 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
 
-        df.to_parquet(whole_data_filename)
+        df.to_parquet(part_filename)
+        part_filename.replace(whole_data_filename)
 
         for filename in filenames:
             filename.unlink()
-- 
2.43.0


From a40d81c89421c8a9b33a5a23444cbb53319bf8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:38 +0000
Subject: [PATCH 38/39] fix: the benchmark took the ephemeris of nearby sites
 for that of the site

---
 src/sunwhere/_cli/benchmark.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 1ffdba7..24e411e 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -540,8 +540,9 @@ def run_benchmark(year, site_lat, site_lon, show_accuracy=False, show_exec_time=
     logger.info(f'Performing benchmark tests for {year} at lat={site_lat} lon={site_lon}')
 
     sign = lambda x: int(x >= 0)  # noqa: E731
-    lat_str = f'{abs(site_lat):07.4f}{("S", "N")[sign(site_lat)]}'.replace('.', 'p')
-    lon_str = f'{abs(site_lon):08.4f}{("W", "E")[sign(site_lon)]}'.replace('.', 'p')
+    # (with all the digits that are requested)
+    lat_str = f'{abs(site_lat):09.6f}{("S", "N")[sign(site_lat)]}'.replace('.', 'p')
+    lon_str = f'{abs(site_lon):010.6f}{("W", "E")[sign(site_lon)]}'.replace('.', 'p')
     out_filename = (Path(tempfile.gettempdir()) /
                     f'jpl_ephemerides_{year}_{lat_str}_{lon_str}.txt')
     logger.debug(f'JPL filename: {out_filename}')
-- 
2.43.0


From 05d385bf7a3f292c86823115a5e81c4b54286ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:48 +0000
Subject: [PATCH 39/39] fix: interrupted benchmarks do not leave files that
 later ones take for complete

---
 src/sunwhere/_cli/benchmark.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/benchmark.py b/src/sunwhere/_cli/benchmark.py
index 24e411e..e89df6c 100644
--- a/src/sunwhere/_cli/benchmark.py
+++ b/src/sunwhere/_cli/benchmark.py
@@ -456,7 +456,10 @@ def load_speed_tests(out_dir=None):
                         mean_time, std_time = speed_meter(
                             library, algorithm, n_times, n_locs)
                         df.loc[n_times, n_locs] = mean_time
-                    df.to_parquet(this_filename)
+                    # written aside: if interrupted, it must not be taken for complete later
+                    part_filename = this_filename.with_suffix('.part')
+                    df.to_parquet(part_filename)
+                    part_filename.replace(this_filename)
                 keys.append(f'{library}.{algorithm}')
                 exec_time.append(pd.read_parquet(this_filename))
 
@@ -548,9 +551,12 @@ def run_benchmark(year, site_lat, site_lon, show_accuracy=False, show_exec_time=
     logger.debug(f'JPL filename: {out_filename}')
 
     if not out_filename.exists():
-        get_jpl_ephemeris(out_filename, f'{year}-01-01T00:00:00',
+        # written aside: if interrupted, it must not be taken for complete in later runs
+        part_filename = out_filename.with_suffix('.part')
+        get_jpl_ephemeris(part_filename, f'{year}-01-01T00:00:00',
                           f'{year+1}-01-01T00:00:00', site_lon,
                           site_lat, site_elev=0., step_size=12)
+        part_filename.replace(out_filename)
         logger.success(f'JPL data downloaded to {out_filename}')
 
     # load JPL Horizons ephemeris file
-- 
2.43.0


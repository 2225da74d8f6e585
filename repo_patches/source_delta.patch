From d8be518a61f96b871adee7a04fafab57438b8afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 01/43] fix: keep times coincident with a sample on that sample

Machine precision in the time to sample conversion could move a time which is
exactly a sample timestamp to the sample before or after it, e.g. sample 29 at
50 Hz.
---
 resistics/sampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resistics/sampling.py b/resistics/sampling.py
index ab06eed..8240467 100644
--- a/resistics/sampling.py
+++ b/resistics/sampling.py
@@ -379,8 +379,10 @@ def to_n_samples(delta: RSTimeDelta, fs: float, method: str = "round") -> int:
     n_samples = (days_in_seconds + remaining_in_seconds) * fs
     # add 1 to be inclusive of start and end
     n_samples += 1
-    if n_samples.is_integer():
-        return int(n_samples)
+    # times coincident with a sample can be slightly off due to machine precision
+    nearest = round(n_samples)
+    if abs(n_samples - nearest) < 1e-5:
+        return int(nearest)
 
     if method == "floor":
         return int(floor(n_samples))
-- 
2.43.0


From 899089627e83a199e74827c94b9e6b88a4c5cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 02/43] fix: read single channel ascii data as two dimensional
 data

TimeData with one channel had a 1-D array after reading it from ascii files.
---
 resistics/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/time.py b/resistics/time.py
index 6c21864..279399a 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1049,6 +1049,7 @@ class TimeReaderAscii(TimeReaderJSON):
             delimiter=self.delimiter,
             skiprows=read_from + self.n_header,
             max_rows=n_samples,
+            ndmin=2,
         )
         data = data.transpose()
         metadata = self._get_return_metadata(metadata, read_from, read_to)
-- 
2.43.0


From 943b84793de18a4820d7fb0f6a9c80143493643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 03/43] fix: decouple numpy time data from the file it was read
 from

The read-only memory map stayed connected to the file. Writing the data back to
the directory it came from truncated the file under the map and crashed, losing
the data, and channels of data that had been read could not be set.
---
 resistics/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index 279399a..5e5c44f 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1100,7 +1100,9 @@ class TimeReaderNumpy(TimeReaderJSON):
         messages = [f"Reading raw data from {dir_path}"]
         messages.append(f"Sampling frequency {metadata.fs} Hz")
         data_path = dir_path / metadata.chans_metadata[metadata.chans[0]].data_files[0]
-        data = np.load(data_path, mmap_mode="r")[:, read_from : read_to + 1]
+        data = np.load(data_path, mmap_mode="r")
+        # copy to decouple from the file, which may be overwritten later
+        data = np.array(data[:, read_from : read_to + 1])
         metadata = self._get_return_metadata(metadata, read_from, read_to)
         messages.append(f"From sample, time: {read_from}, {str(metadata.first_time)}")
         messages.append(f"To sample, time: {read_to}, {str(metadata.last_time)}")
-- 
2.43.0


From 90ae92fbea049505125fdb36371317d7fe9ae3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 04/43] fix: time processes no longer add their records to the
 history of their input

Subsection, Resample, Decimate and ShiftTimestamps used a shallow copy of the
metadata, sharing the history with the data passed in.
---
 resistics/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 5e5c44f..8cd03e2 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1303,7 +1303,7 @@ class Subsection(TimeProcess):
         )
         messages = [f"Subection from sample {from_sample} to {to_sample}"]
         messages.append(f"Adjusted times {str(from_time)} to {str(to_time)}")
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(metadata, fs, from_time, n_samples=n_samples)
         data = np.array(time_data.data[:, from_sample : to_sample + 1])
         record = self._get_record(messages)
@@ -1973,7 +1973,7 @@ class Resample(TimeProcess):
         data = data.astype(time_data.data.dtype)
         # adjust headers and
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, self.new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2069,7 +2069,7 @@ class Decimate(TimeProcess):
         new_fs = fs / self.factor
         messages.append(f"Sampling frequency adjusted from {fs} to {new_fs}")
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2259,7 +2259,7 @@ class ShiftTimestamps(TimeProcess):
         x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
         data = interp_fnc(x_shift)
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
         )
-- 
2.43.0


From 69245f8f595ebbfdee12e68ccb39a02d1f4f90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 05/43] fix: writing time data no longer changes the metadata
 of the data in memory

The writers used a shallow copy of the metadata, therefore the data files and the
history of the data being written were changed too.
---
 resistics/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 8cd03e2..2f94895 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1142,7 +1142,7 @@ class TimeWriterNumpy(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data.npy"
         np.save(data_path, time_data.data)
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         for chan in time_data.metadata.chans:
             metadata[chan].data_files = [data_path.name]
         metadata.history.add_record(self._get_record(dir_path, type(time_data)))
@@ -1176,7 +1176,7 @@ class TimeWriterAscii(ResisticsWriter):
             raise WriteError(dir_path, "Unable to write to directory, check logs")
         logger.info(f"Writing time ASCII data to {dir_path}")
         metadata_path = dir_path / "metadata.json"
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         for chan in time_data.metadata.chans:
             chan_path = dir_path / f"{chan.lower()}.ascii"
             np.savetxt(chan_path, time_data[chan], fmt="%.6f", newline="\n")
-- 
2.43.0


From 0f5658dfe8ea6440874f67731a71352e6a84c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 06/43] fix: ApplyFunction keeps the data of channels without a
 function

These channels were left uninitialised in the output.
---
 resistics/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index 2f94895..792aaae 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2348,7 +2348,7 @@ class ApplyFunction(TimeProcess):
         """
         logger.info(f"Applying custom functions to channels {list(self.fncs.keys())}")
         messages = []
-        data = np.empty(shape=time_data.data.shape)
+        data = np.array(time_data.data, dtype=np.float64)
         for chan, fnc in self.fncs.items():
             if chan in time_data.metadata.chans:
                 messages.append(f"Applying custom function to {chan}")
-- 
2.43.0


From 0165dbcd2d1c95c5f1a36cca7ecc19d2482b4a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 07/43] fix: do not truncate values in Add and Multiply for
 integer data

Channel values given in a dictionary were cast to the integer type of the data,
e.g. multiplying a channel by 0.5 zeroed it.
---
 resistics/time.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 792aaae..bb10768 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1496,7 +1496,9 @@ class Add(TimeProcess):
 
     def _get_add(self, time_data: TimeData) -> np.ndarray:
         """Make an array to add to the data"""
-        add = np.zeros(shape=(time_data.metadata.n_chans), dtype=time_data.data.dtype)
+        # integer data is promoted to avoid truncating the values
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        add = np.zeros(shape=(time_data.metadata.n_chans), dtype=dtype)
         if isinstance(self.add, float) or isinstance(self.add, int):
             return add + self.add
         for chan in time_data.metadata.chans:
@@ -1573,7 +1575,9 @@ class Multiply(TimeProcess):
 
     def _get_mult(self, time_data: TimeData) -> np.ndarray:
         """Make an array to multiply the data with"""
-        mult = np.ones(shape=(time_data.metadata.n_chans), dtype=time_data.data.dtype)
+        # integer data is promoted to avoid truncating the values
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        mult = np.ones(shape=(time_data.metadata.n_chans), dtype=dtype)
         if isinstance(self.multiplier, float) or isinstance(self.multiplier, int):
             return mult * self.multiplier
         for chan in time_data.metadata.chans:
-- 
2.43.0


From 78e84af2aeac3b564c8d91692eefa8b5b1c0a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 08/43] fix: interpolate shifted timestamps at double precision
 sample positions

The sample positions had the data type of the data. For float32 data, positions in
long recordings lost the fraction of the shift.
---
 resistics/time.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index bb10768..aa5d489 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2259,10 +2259,11 @@ class ShiftTimestamps(TimeProcess):
         messages.append(f"Last time: {str(metadata.last_time)} -> {str(last_time)}")
 
         # shift data
-        x = np.arange(0, metadata.n_samples, dtype=time_data.data.dtype)
-        x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
+        x = np.arange(0, metadata.n_samples, dtype=np.float64)
+        x_shift = np.arange(0, n_samples, dtype=np.float64) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
-        data = interp_fnc(x_shift)
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        data = interp_fnc(x_shift).astype(dtype)
         metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
-- 
2.43.0


From 5b9efa449d15fe183be0df76a9ed8d37790d348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 09/43] fix: compare the notch band with the nyquist in the
 same units

The normalised upper frequency was compared with the nyquist in Hz. For sampling
frequencies below 2 Hz, the stop band was changed to a wrong one, and at higher
ones a band reaching the nyquist was an error instead of stopping at the nyquist.
---
 resistics/time.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index aa5d489..b9cf019 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1876,13 +1876,17 @@ class Notch(TimeProcess):
         band = 0.1 * time_data.metadata.fs if self.band is None else self.band
         low = (self.notch - (band / 2)) / nyquist
         high = (self.notch + (band / 2)) / nyquist
-        if high > nyquist:
-            logger.debug("Band high {high} > nyquist {nyquist}. Setting to nyquist")
-            high = nyquist
         logger.info(f"Notch filtering at {self.notch} Hz with bandwidth {band} Hz")
-        sos = butter(
-            self.order, (low, high), btype="bandstop", analog=False, output="sos"
-        )
+        if high >= 1:
+            # the stop band extends to the nyquist
+            logger.debug(f"Band high reaches nyquist {nyquist}. Setting to nyquist")
+            sos = butter(
+                self.order, low, btype="lowpass", analog=False, output="sos"
+            )
+        else:
+            sos = butter(
+                self.order, (low, high), btype="bandstop", analog=False, output="sos"
+            )
         data = sosfiltfilt(sos, time_data.data, axis=1).astype(time_data.data.dtype)
         messages = [f"Notch filtered at {self.notch} Hz with bandwidth {band} Hz"]
         record = self._get_record(messages)
-- 
2.43.0


From 38851b06d3f188204a1bfb6e0bb52c2fa795f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 10/43] fix: check the length of a decimation level before
 filtering it

---
 resistics/decimate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 9613dda..8d6f548 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -757,10 +757,11 @@ class Decimator(ResisticsProcess):
         for ilevel in range(0, dec_params.n_levels):
             factor = dec_params.dec_increments[ilevel]
             logger.info(f"Decimating level {ilevel} with factor {factor}")
-            time_data_new = decimation_fnc(time_data, factor)
-            if time_data_new.metadata.n_samples < dec_params.min_samples:
+            n_samples_new = -(-time_data.metadata.n_samples // factor)
+            if n_samples_new < dec_params.min_samples:
                 logger.warning(f"n_samples < min allowed {dec_params.min_samples}")
                 break
+            time_data_new = decimation_fnc(time_data, factor)
             data[ilevel] = time_data_new.data
             time_data = time_data_new
             fs = dec_params.dec_fs[ilevel]
-- 
2.43.0


From 1296d5a5da3b9b02862e951c78539acd930d4034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 11/43] fix: writing data no longer changes the history of the
 data in memory

---
 resistics/decimate.py | 2 +-
 resistics/spectra.py  | 2 +-
 resistics/window.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 8d6f548..9e6798a 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -830,7 +830,7 @@ class DecimatedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in dec_data.data.items()})
-        metadata = dec_data.metadata.copy()
+        metadata = dec_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(dec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 2ccd68d..a6b0dea 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -788,7 +788,7 @@ class SpectraDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in spec_data.data.items()})
-        metadata = spec_data.metadata.copy()
+        metadata = spec_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(spec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/window.py b/resistics/window.py
index 76d78a2..ba402f8 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1559,7 +1559,7 @@ class WindowedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in win_data.data.items()})
-        metadata = win_data.metadata.copy()
+        metadata = win_data.metadata.copy(deep=True)
         metadata.history.add_record(self._get_record(dir_path, type(win_data)))
         metadata.write(metadata_path)
 
-- 
2.43.0


From 1c79d73481aea6aa25b15f7b48b63da6ad988d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 12/43] fix: convert from global to local window by subtracting
 the offset

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index ba402f8..611c9c0 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1142,7 +1142,7 @@ class WindowedData(ResisticsData):
             Window data
         """
         index_offset = self.metadata.levels_metadata[level].index_offset
-        return self.get_local(level, global_win + index_offset)
+        return self.get_local(level, global_win - index_offset)
 
     def get_chan(self, level: int, chan: str) -> np.ndarray:
         """
-- 
2.43.0


From d67baf6c0393c411dc279e5858b60c2c864a79ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 13/43] fix: keep the window and channel axes of windowed data

---
 resistics/window.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index 611c9c0..871c99d 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1384,9 +1384,9 @@ class Windower(ResisticsProcess):
         from_sample = win_table.loc[0, "from_sample"]
         to_sample = win_table.loc[win_table.index[-1], "from_sample"]
         increment_size = win_size - olap_size
-        view = np.squeeze(
-            sliding_window_view(data, window_shape=(n_chans, win_size), writeable=True)
-        )
+        view = sliding_window_view(
+            data, window_shape=(n_chans, win_size), writeable=True
+        )[0]
         return view[from_sample : to_sample + 1 : increment_size]
 
     def _get_level_metadata(
-- 
2.43.0


From 79bcadf3663d784908c3f62a13f940be0c0ad86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 14/43] fix: WindowerTarget metadata has the reference time the
 windows refer to

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index 871c99d..fb4cb44 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1492,7 +1492,7 @@ class WindowerTarget(Windower):
             )
             data[ilevel] = win_level_data
             win_levels_metadata.append(win_level_metadata)
-        metadata_dict["ref_time"] = metadata_dict["first_time"]
+        metadata_dict["ref_time"] = ref_time
         metadata = self._get_metadata(metadata_dict, win_levels_metadata)
         metadata.history.add_record(self._get_record(messages))
         logger.info("Windowing completed")
-- 
2.43.0


From 44c40b29390b85768f8ddc0dcb901ba382b04e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 15/43] fix: windowed metadata has the sampling frequencies of
 its own levels

---
 resistics/window.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/window.py b/resistics/window.py
index fb4cb44..b6d7a3d 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1415,6 +1415,7 @@ class Windower(ResisticsProcess):
     ) -> WindowedMetadata:
         """Get the metadata for the windowed data"""
         metadata_dict.pop("file_info")
+        metadata_dict["fs"] = [x.fs for x in levels_metadata]
         metadata_dict["n_levels"] = len(levels_metadata)
         metadata_dict["levels_metadata"] = levels_metadata
         return WindowedMetadata(**metadata_dict)
-- 
2.43.0


From 761a3499b99ee6b674f07257cc610de14bc26fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 16/43] fix: find the last window from the number of samples

---
 resistics/window.py | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index b6d7a3d..3e65e40 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -378,12 +378,8 @@ def get_first_and_last_win(
 
     .. note::
 
-        For the last window, on initial calculation this may be one or a
-        maximum of two windows beyond the last time. The last window is adjusted
-        in this function.
-
-        Two windows may occur when the time of the last sample is in the overlap
-        of the final two windows.
+        If there are not enough samples to complete a single window, the last
+        window will be before the first window.
 
     Parameters
     ----------
@@ -402,12 +398,6 @@ def get_first_and_last_win(
         First and last global windows. This is window indices relative to the
         reference time
 
-    Raises
-    ------
-    ValueError
-        If unable to calculate the last window correctly as this will result in
-        an incorrect number of windows
-
     Examples
     --------
     Get the first and last window for the first decimation level in a decimated
@@ -473,20 +463,21 @@ def get_first_and_last_win(
     >>> level_metadata.last_time > last_win_start_time + increment
     True
     """
-    duration = win_duration(win_size, metadata.fs)
+    from resistics.sampling import to_n_samples
+
+    increment_size = win_size - olap_size
     increment = inc_duration(win_size, olap_size, metadata.fs)
     first_win = datetime_to_win(ref_time, metadata.first_time, increment, method="ceil")
-    last_win = datetime_to_win(ref_time, metadata.last_time, increment, method="floor")
-    # adjust if there is not enough date to complete the last window
-    last_win_time = win_to_datetime(ref_time, last_win, increment)
-    for attempt in range(2):
-        if metadata.last_time >= last_win_time + duration:
-            break
-        logger.debug(f"Adjusting last window attempt {attempt + 1}")
-        last_win -= 1
-        last_win_time = win_to_datetime(ref_time, last_win, increment)
-    if metadata.last_time < last_win_time + duration:
-        raise ValueError("Unable to correctly get the last window")
+    first_win_time = win_to_datetime(ref_time, first_win, increment)
+    delta = first_win_time - metadata.first_time
+    first_sample = to_n_samples(delta, metadata.fs, method="floor") - 1
+    # adjust if machine precision has put the first window before the data
+    if first_sample < 0:
+        first_win += 1
+        first_sample += increment_size
+    # the last window is the last one with enough samples to complete it
+    n_incs = (metadata.n_samples - win_size - first_sample) // increment_size
+    last_win = first_win + max(n_incs, -1)
     return first_win, last_win
 
 
-- 
2.43.0


From 9a666d2384e0ee41f732a04d4996d67cd7b567c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 17/43] fix: smooth spectra with the requested sigma

---
 resistics/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index a6b0dea..02bcdc6 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -928,7 +928,7 @@ class SpectraSmootherGaussian(SpectraProcess):
     >>> from resistics.spectra import SpectraSmootherGaussian
     >>> from resistics.testing import spectra_data_basic
     >>> spec_data = spectra_data_basic()
-    >>> smooth_data = SpectraSmootherGaussian().run(spec_data)
+    >>> smooth_data = SpectraSmootherGaussian(sigma=1).run(spec_data)
 
     Look at the results for the two windows
 
@@ -966,7 +966,7 @@ class SpectraSmootherGaussian(SpectraProcess):
         messages = [f"Smoothing frequencies with gaussian filter, sigma {self.sigma}"]
         for ilevel in range(spec_data.metadata.n_levels):
             data[ilevel] = ndimage.gaussian_filter1d(
-                spec_data.get_level(ilevel), 1, axis=-1
+                spec_data.get_level(ilevel), self.sigma, axis=-1
             )
             messages.append(f"Smoothed level {ilevel} with gaussian filter")
         metadata = SpectraMetadata(**spec_data.metadata.dict())
-- 
2.43.0


From e0e324f0ed7c9f93cd82652a739e83bed73420e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 18/43] fix: do not truncate the window function for integer
 data

---
 resistics/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index 02bcdc6..19a9c34 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -538,7 +538,8 @@ class FourierTransform(ResisticsProcess):
         # detrend and apply window
         if self.detrend is not None:
             data = signal.detrend(data, axis=-1, type=self.detrend)
-        win_coeffs = self._get_window(metadata.win_size).astype(data.dtype)
+        dtype = np.result_type(data.dtype, np.float32)
+        win_coeffs = self._get_window(metadata.win_size).astype(dtype)
         data = data * win_coeffs
         # perform the fft on the last axis
         return rfft(data, n=n_transform, axis=-1, norm="ortho", workers=self.workers)
-- 
2.43.0


From b6c5de66ada14abd076c04bb35697bd03c5b8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 19/43] fix: reject overlaps which are not smaller than the
 window

---
 resistics/window.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resistics/window.py b/resistics/window.py
index 3e65e40..cc06cc6 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -913,6 +913,8 @@ class WindowSetup(ResisticsProcess):
             If the number of windows does not match the number of levels
         ValueError
             If the number of overlaps does not match the number of levels
+        ValueError
+            If an overlap is not smaller than its window
         """
         if self.win_sizes is None:
             win_sizes = self._get_win_sizes(n_levels, dec_fs)
@@ -938,6 +940,10 @@ class WindowSetup(ResisticsProcess):
             # but decimated data has fewer levels
             olap_sizes = olap_sizes[:n_levels]
 
+        for win_size, olap_size in zip(win_sizes, olap_sizes):
+            if olap_size >= win_size:
+                raise ValueError(f"Overlap {olap_size} not < window size {win_size}")
+
         return WindowParameters(
             n_levels=n_levels,
             min_n_wins=self.min_n_wins,
-- 
2.43.0


From 6d8d629b8e8a8398831a104c3f312174c457c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 20/43] fix: times coincident with a window stay on that window

---
 resistics/window.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index cc06cc6..e31ee61 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -356,8 +356,9 @@ def datetime_to_win(
     delta_total_in_seconds = delta_days_in_seconds + delta_remaining_in_seconds
     n_increments = delta_total_in_seconds / increment_seconds
 
-    if n_increments.is_integer():
-        n_increments = int(n_increments)
+    # times coincident with a window can be slightly off due to machine precision
+    if abs(n_increments - round(n_increments)) < 1e-6:
+        n_increments = int(round(n_increments))
     elif method == "floor":
         n_increments = int(floor(n_increments))
     elif method == "ceil":
-- 
2.43.0


From 33728b76c794f1dd075444ce06c1c168ee5bf4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 21/43] fix: calibrate levels with a single frequency

---
 resistics/calibrate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 3cfc156..143c1d6 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -466,8 +466,7 @@ class Calibrator(ResisticsProcess):
             Calibrated data
         """
         transfunc = self._interpolate(np.array(freqs), cal_data)
-        chan_data = chan_data[:, np.newaxis, :] / transfunc[np.newaxis, :]
-        return np.squeeze(chan_data)
+        return chan_data / transfunc[np.newaxis, :]
 
     def _interpolate(
         self, freqs: np.ndarray, cal_data: CalibrationData
-- 
2.43.0


From b99be31006addb106e80dd49c1fc651b4385f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 22/43] fix: interpolate calibration data given in any
 frequency order

---
 resistics/calibrate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 143c1d6..f361d16 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -492,8 +492,11 @@ class Calibrator(ResisticsProcess):
             column, complex, which is the complex values for the magnitude and
             phase combinations.
         """
-        mag = np.interp(freqs, cal_data.frequency, cal_data.magnitude)
-        phs = np.interp(freqs, cal_data.frequency, cal_data.phase)
+        # np.interp requires increasing frequencies
+        order = np.argsort(cal_data.frequency)
+        cal_freqs = cal_data["frequency"][order]
+        mag = np.interp(freqs, cal_freqs, cal_data["magnitude"][order])
+        phs = np.interp(freqs, cal_freqs, cal_data["phase"][order])
         return mag * np.exp(1j * phs)
 
 
-- 
2.43.0


From 6c05378fc940414108e114fcb29836f8ea0f2b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 23/43] fix: keep the case of sensor and serial in TXT
 calibration files

---
 resistics/calibrate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index f361d16..a227779 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -362,10 +362,9 @@ class SensorCalibrationTXT(SensorCalibrationReader):
         serial: str = "1"
         sensor: str = ""
         for line in lines:
-            line = line.lower()
-            if "serial" in line:
+            if "serial" in line.lower():
                 serial = line.split("=")[1].strip()
-            if "sensor" in line:
+            if "sensor" in line.lower():
                 sensor = line.split("=")[1].strip()
         return serial, sensor
 
-- 
2.43.0


From fb1fc9638e970d74c1c52bafecdf8da04a084e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 24/43] fix: accept the phase unit of TXT calibration files in
 any case

---
 resistics/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index a227779..4a64dff 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -404,7 +404,7 @@ class SensorCalibrationTXT(SensorCalibrationReader):
         data = np.array([x.split() for x in data_lines], dtype=float)
         df = pd.DataFrame(data=data, columns=["frequency", "magnitude", "phase"])
         # unit manipulation - change phase to radians
-        if data_dict["phase_unit"] == "degrees":
+        if data_dict["phase_unit"].lower() == "degrees":
             df["phase"] = df["phase"] * (np.pi / 180)
         df = df.set_index("frequency").sort_index()
         return df
-- 
2.43.0


From e6e9377bf9c88797403863f085f6dcb0ade5ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 25/43] fix: initialising a process leaves the given dictionary
 unchanged

---
 resistics/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/common.py b/resistics/common.py
index ab9a3cc..9f6de07 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -816,6 +816,7 @@ class ResisticsProcess(ResisticsModel):
             )
         if "name" not in value:
             raise KeyError("No name provided for initialisation of process")
+        value = dict(value)
         name = value.pop("name")
         try:
             return cls._types[name](**value)
-- 
2.43.0


From b397d85b6b72936acb98d0541a834fef08cc1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 26/43] fix: initialising a transfer function leaves the given
 dictionary unchanged

---
 resistics/transfunc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/transfunc.py b/resistics/transfunc.py
index 016ba2b..1e4efd9 100644
--- a/resistics/transfunc.py
+++ b/resistics/transfunc.py
@@ -253,6 +253,7 @@ class TransferFunction(Metadata):
         if "name" not in value:
             raise KeyError("No name provided for initialisation of TransferFunction")
         # check if it is a TransferFunction
+        value = dict(value)
         name = value.pop("name")
         if name == "TransferFunction":
             return cls(**value)
-- 
2.43.0


From f54fa00ad49e9550411fc0b1e02415cff7b41633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 27/43] fix: SolverScikitHuber uses its fit_intercept parameter

---
 resistics/regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resistics/regression.py b/resistics/regression.py
index a428093..6fe537d 100644
--- a/resistics/regression.py
+++ b/resistics/regression.py
@@ -918,7 +918,9 @@ class SolverScikitHuber(SolverScikit):
         """Run Huber Regressor regression on the RegressionInputData"""
         from sklearn.linear_model import HuberRegressor
 
-        model = HuberRegressor(epsilon=self.epsilon)
+        model = HuberRegressor(
+            epsilon=self.epsilon, fit_intercept=self.fit_intercept
+        )
         return self._solve(regression_input, model)
 
 
-- 
2.43.0


From db8daf3bd46784d393434fd20bfe5af3f2c2268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 28/43] fix: sites without measurements do not set the times of
 a project

---
 resistics/letsgo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index e541d52..aa9b2af 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -130,9 +130,10 @@ class ProjectLoader(ResisticsProcess):
         for site_dir in time_subdirs:
             site = self._load_site(site_dir, config)
             sites[site_dir.name] = site
-        if len(sites) > 0:
-            begin_time = min([x.begin_time for x in sites.values()])
-            end_time = max([x.end_time for x in sites.values()])
+        sites_with_meas = [x for x in sites.values() if x.n_meas > 0]
+        if len(sites_with_meas) > 0:
+            begin_time = min([x.begin_time for x in sites_with_meas])
+            end_time = max([x.end_time for x in sites_with_meas])
         else:
             begin_time = datetime.now()
             end_time = datetime.now()
-- 
2.43.0


From 8c05ababc6ad23852babba5eca789e40e6b6f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 29/43] fix: exclude hidden files and directories from
 directory contents, as documented

---
 resistics/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resistics/common.py b/resistics/common.py
index 9f6de07..cdace22 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -151,6 +151,8 @@ def dir_contents(dir_path: Path) -> Tuple[List[Path], List[Path]]:
     dirs = []
     files = []
     for obj in dir_path.iterdir():
+        if obj.name.startswith("."):
+            continue
         if obj.is_file():
             files.append(obj)
         elif obj.is_dir():
-- 
2.43.0


From 7f6b8c5adb46cc13965c602bf024df6c96cf85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 30/43] fix: ApplyFunction takes any callable, not only Python
 functions

---
 resistics/time.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resistics/time.py b/resistics/time.py
index b9cf019..b8f51cb 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -8,6 +8,7 @@ Classes and methods for storing and manipulating time data, including:
 """
 from loguru import logger
 from typing import List, Dict, Union, Any, Tuple, Optional, Callable
+import functools
 import types
 from pathlib import Path
 from pydantic import validator, conint, PositiveFloat
@@ -2339,6 +2340,10 @@ class ApplyFunction(TimeProcess):
         json_encoders = {
             types.LambdaType: serialize_custom_fnc,
             types.FunctionType: serialize_custom_fnc,
+            types.BuiltinFunctionType: serialize_custom_fnc,
+            types.MethodType: serialize_custom_fnc,
+            functools.partial: serialize_custom_fnc,
+            np.ufunc: serialize_custom_fnc,
         }
 
     def run(self, time_data: TimeData) -> TimeData:
-- 
2.43.0


From 7f90df3479a64b07c9802b9325cbf7fdac9c67d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 31/43] fix: downsampled plot data are exact samples, also for
 long or gapped data

---
 resistics/plot.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/resistics/plot.py b/resistics/plot.py
index 04b4805..30c23e5 100644
--- a/resistics/plot.py
+++ b/resistics/plot.py
@@ -43,14 +43,16 @@ def lttb_downsample(
     if max_pts >= x.size:
         return x, y
 
-    x_dtype = x.dtype
-    y_dtype = y.dtype
-    nx, ny = lttbc.downsample(
-        x.astype(np.float32),
-        y.astype(np.float32),
-        max_pts,
-    )
-    return nx.astype(x_dtype), ny.astype(y_dtype)
+    lttb_x = x.astype(np.float64)
+    lttb_y = y.astype(np.float64)
+    valid = np.isfinite(lttb_y)
+    if not valid.all() and valid.any():
+        lttb_y = np.interp(lttb_x, lttb_x[valid], lttb_y[valid])
+    elif not valid.any():
+        lttb_y = np.zeros(lttb_y.size)
+    nx, _ = lttbc.downsample(lttb_x, lttb_y, max_pts)
+    indices = np.searchsorted(lttb_x, nx)
+    return x[indices], y[indices]
 
 
 def apply_lttb(
-- 
2.43.0


From 86ed3e55df51238fb405e38007296ad4b820d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 32/43] fix: time data can be plotted for a selection of its
 channels

---
 resistics/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index b8f51cb..55dee25 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -680,7 +680,7 @@ class TimeData(ResisticsData):
             chans = self.metadata.chans
         if fig is None:
             y_labels = {x: self.metadata.chans_metadata[x].chan_type for x in chans}
-            fig = get_time_fig(self.metadata.chans, y_labels)
+            fig = get_time_fig(chans, y_labels)
 
         # plot the data
         for idx, chan in enumerate(chans):
-- 
2.43.0


From ebe0441f429b8de13c13ea0aeb8c5f140dbb6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 33/43] fix: plot any number of decimation levels and groups

---
 resistics/decimate.py | 3 ++-
 resistics/spectra.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 9e6798a..d80bf8f 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -6,6 +6,7 @@ Module for time data decimation including classes and for the following
 """
 from loguru import logger
 from typing import Any, Optional, Tuple, Union, Dict, List
+from itertools import cycle
 from pathlib import Path
 from pydantic import validator, PositiveInt, conint
 import numpy as np
@@ -688,7 +689,7 @@ class DecimatedData(ResisticsData):
         chans = self.metadata.chans
         y_labels = {x: self.metadata.chans_metadata[x].chan_type for x in chans}
         fig = get_time_fig(chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
 
         for ilevel in range(0, self.metadata.n_levels):
             logger.info(f"Plotting decimation level {ilevel}")
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 19a9c34..39c839d 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -7,6 +7,7 @@ Fourier transform implementation is inspired by the implementation of the
 scipy stft function.
 """
 from loguru import logger
+from itertools import cycle
 from pathlib import Path
 from typing import Union, Tuple, Dict, List, Any, Optional
 from pydantic import PositiveInt
@@ -194,7 +195,7 @@ class SpectraData(ResisticsData):
 
         y_labels = {x: "Magnitude" for x in self.metadata.chans}
         fig = get_spectra_stack_fig(self.metadata.chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
         for ilevel in range(self.metadata.n_levels):
             level_metadata = self.metadata.levels_metadata[ilevel]
             freqs = np.array(level_metadata.freqs)
@@ -250,7 +251,7 @@ class SpectraData(ResisticsData):
         freqs = np.array(level_metadata.freqs)
         y_labels = {x: "Magnitude" for x in self.metadata.chans}
         fig = get_spectra_stack_fig(self.metadata.chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
         for idx, group in df.groupby(pd.Grouper(freq=grouping, offset=offset)):
             stack = np.mean(np.absolute(self.data[level][group["local"]]), axis=0)
             fig = self._add_stack_data(
-- 
2.43.0


From f9c8fe11382b3d59d408679bc7638f0caa58d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 34/43] fix: spectra sections and stacks allow single channels
 and groups without windows

---
 resistics/spectra.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index 39c839d..8c38a4b 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -253,6 +253,8 @@ class SpectraData(ResisticsData):
         fig = get_spectra_stack_fig(self.metadata.chans, y_labels)
         colors = cycle(px.colors.qualitative.Plotly)
         for idx, group in df.groupby(pd.Grouper(freq=grouping, offset=offset)):
+            if len(group) == 0:
+                continue
             stack = np.mean(np.absolute(self.data[level][group["local"]]), axis=0)
             fig = self._add_stack_data(
                 fig, freqs, stack, str(idx), color=next(colors), max_pts=max_pts
@@ -336,7 +338,7 @@ class SpectraData(ResisticsData):
 
         fig = get_spectra_section_fig(self.metadata.chans)
         colorbar_len = 0.90 / self.metadata.n_chans
-        colorbar_inc = 0.84 / (self.metadata.n_chans - 1)
+        colorbar_inc = 0.84 / max(self.metadata.n_chans - 1, 1)
         # group by the grouping frequency, iterate over the groups and plot
         data = {}
         for idx, group in df.groupby(pd.Grouper(freq=grouping)):
@@ -345,9 +347,12 @@ class SpectraData(ResisticsData):
             df_data = pd.DataFrame(
                 data={k: v[idx] for k, v in data.items()}, index=level_metadata.freqs
             )
-            z = np.log10(df_data.values)
-            z_min = np.ceil(z.min())
-            z_max = np.floor(z.max())
+            # groups without windows and zero magnitudes have no logarithm to plot
+            z = np.log10(df_data.where(df_data > 0).values)
+            if np.isnan(z).all():
+                z_min, z_max = 0, 0
+            else:
+                z_min, z_max = np.ceil(np.nanmin(z)), np.floor(np.nanmax(z))
             z_range = np.arange(z_min, z_max + 1)
             colorbar = dict(
                 tickvals=z_range,
-- 
2.43.0


From e8fc5763ba3b18099e80c402b63b8b82edfd35be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 35/43] fix: estimated timestamps do not drift from their
 samples

---
 resistics/sampling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resistics/sampling.py b/resistics/sampling.py
index 8240467..fb185d4 100644
--- a/resistics/sampling.py
+++ b/resistics/sampling.py
@@ -933,9 +933,9 @@ def datetime_array_estimate(
     if isinstance(first_time, RSDateTime):
         first_time = pd.to_datetime(first_time.isoformat())
 
-    dt = pd.Timedelta(1 / fs, "s")
     if n_samples is not None:
-        return pd.date_range(start=first_time, freq=dt, periods=n_samples)
+        samples = np.arange(n_samples)
     if samples is None:
         raise ValueError("One of n_samples or samples must be provided")
-    return pd.to_datetime(pd.to_datetime(first_time) + samples * dt)
+    nanoseconds = np.round(np.asarray(samples) * (1e9 / fs)).astype(np.int64)
+    return pd.to_datetime(first_time) + pd.to_timedelta(nanoseconds, unit="ns")
-- 
2.43.0


From 4f5fc5cd0bd901aa083c9c473833b9b23742d56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 36/43] fix: solution frequencies in projects whose time
 processors change the sampling frequency

process_evals_to_tf took the evaluation frequencies expected from the
recording frequency, not those of the evaluation data, so with a Decimate
or Resample time processor the solution was put at the wrong frequencies
---
 resistics/gather.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/resistics/gather.py b/resistics/gather.py
index 1732388..0d18dc7 100644
--- a/resistics/gather.py
+++ b/resistics/gather.py
@@ -611,6 +611,12 @@ class ProjectGather(ResisticsProcess):
         data = self._get_empty_data(selection, chans)
         histories = {}
         metadata = None
+        # the evals data knows its frequencies, which are not those expected
+        # from the recording frequency if time processors changed it
+        level_freqs = {
+            ilevel: selection.dec_params.get_eval_freqs(ilevel)
+            for ilevel in range(selection.n_levels)
+        }
         for meas in measurements:
             evals_path = get_meas_evals_path(
                 proj.dir_path, site.name, meas, config_name
@@ -618,6 +624,9 @@ class ProjectGather(ResisticsProcess):
             eval_data = SpectraDataReader().run(evals_path)
             self._populate_data(selection, site, meas, eval_data, chans, data)
             histories[meas] = eval_data.metadata.history
+            for ilevel, level_metadata in enumerate(eval_data.metadata.levels_metadata):
+                if ilevel < selection.n_levels:
+                    level_freqs[ilevel] = level_metadata.freqs
             if metadata is None:
                 metadata = eval_data.metadata
         combined_metadata = SiteCombinedMetadata(
@@ -633,7 +642,7 @@ class ProjectGather(ResisticsProcess):
             measurements=measurements,
             chans=chans,
             n_evals=len(data),
-            eval_freqs=selection.get_eval_freqs(),
+            eval_freqs=[freq for freqs in level_freqs.values() for freq in freqs],
             histories=histories,
         )
         return SiteCombinedData(combined_metadata, data)
-- 
2.43.0


From 9768c1122f633d2f85adbf5936d44b34e9ab2184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 37/43] fix: read ascii data with a file per channel

TimeWriterAscii writes a file per channel, of which TimeReaderAscii only
read the first, returning data with a single row for all the channels
---
 resistics/time.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 55dee25..048a414 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -999,9 +999,10 @@ class TimeReaderAscii(TimeReaderJSON):
     """
     Class for reading Ascii data
 
-    Ascii data expected to be a single file with all the data. The delimiter can
-    be set using the delimiter class attribute as can the number of header
-    lines with the n_header attribute.
+    Ascii data expected to be a single file with all the data or, as written by
+    TimeWriterAscii, a file per channel. The delimiter can be set using the
+    delimiter class attribute as can the number of header lines with the
+    n_header attribute.
     """
 
     extension: str = ".txt"
@@ -1042,17 +1043,20 @@ class TimeReaderAscii(TimeReaderJSON):
         logger.info(f"Reading data from {dir_path}")
         messages = [f"Reading raw data from {dir_path}"]
         messages.append(f"Sampling frequency {metadata.fs} Hz")
-        # all channels have the same data path
-        data_path = dir_path / metadata.chans_metadata[metadata.chans[0]].data_files[0]
-        data = np.loadtxt(
-            data_path,
-            dtype=dtype,
-            delimiter=self.delimiter,
-            skiprows=read_from + self.n_header,
-            max_rows=n_samples,
-            ndmin=2,
-        )
-        data = data.transpose()
+        # either all channels have the same data path or each has its own
+        data_files = [metadata.chans_metadata[x].data_files[0] for x in metadata.chans]
+        data = [
+            np.loadtxt(
+                dir_path / data_file,
+                dtype=dtype,
+                delimiter=self.delimiter,
+                skiprows=read_from + self.n_header,
+                max_rows=n_samples,
+                ndmin=2,
+            )
+            for data_file in dict.fromkeys(data_files)
+        ]
+        data = np.hstack(data).transpose()
         metadata = self._get_return_metadata(metadata, read_from, read_to)
         messages.append(f"From sample, time: {read_from}, {str(metadata.first_time)}")
         messages.append(f"To sample, time: {read_to}, {str(metadata.last_time)}")
-- 
2.43.0


From 9f0970c3d607bdad7eade8f09701dfd5688d46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 38/43] fix: raise an error for time data which do not match
 their metadata

Truncated data files or files with another number of channels than their
metadata were returned as they were, with metadata describing samples and
channels that were not there
---
 resistics/time.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/resistics/time.py b/resistics/time.py
index 048a414..8504db8 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -761,11 +761,22 @@ class TimeReader(ResisticsProcess):
         )
         logger.debug(f"Reading samples from {from_sample} to {to_sample}")
         time_data = self.read_data(dir_path, metadata, from_sample, to_sample)
+        self._check_data(dir_path, time_data)
         if self.apply_scalings:
             logger.debug("Applying scaling to time series data")
             return self.scale_data(time_data)
         return time_data
 
+    def _check_data(self, dir_path: Path, time_data: TimeData) -> None:
+        """Check that the data has the channels and samples of its metadata"""
+        from resistics.errors import TimeDataReadError
+
+        expected = (time_data.metadata.n_chans, time_data.metadata.n_samples)
+        if time_data.data.shape != expected:
+            raise TimeDataReadError(
+                dir_path, f"Data shape {time_data.data.shape} != expected {expected}"
+            )
+
     def read_metadata(self, dir_path: Path) -> TimeMetadata:
         """
         Read time series data metadata
-- 
2.43.0


From 49e0a8bfb8d5bca42433659dcb795800f89c2236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 39/43] fix: raise an error for timestamps of negative levels

Negative levels are not within bounds, but decimated data and spectra data
returned the timestamps of another level counted from the end
---
 resistics/decimate.py | 2 +-
 resistics/spectra.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index d80bf8f..780fa18 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -652,7 +652,7 @@ class DecimatedData(ResisticsData):
         """
         from resistics.sampling import datetime_array, datetime_array_estimate
 
-        if level >= self.metadata.n_levels:
+        if level < 0 or level >= self.metadata.n_levels:
             raise ValueError(f"Level {level} not <= max {self.metadata.n_levels}")
         fnc = datetime_array_estimate if estimate else datetime_array
         level_metadata = self.metadata.levels_metadata[level]
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 8c38a4b..1ad3048 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -163,7 +163,7 @@ class SpectraData(ResisticsData):
         """
         from resistics.window import get_win_starts
 
-        if level >= self.metadata.n_levels:
+        if level < 0 or level >= self.metadata.n_levels:
             raise ValueError(f"Level {level} not <= max {self.metadata.n_levels - 1}")
         level_metadata = self.metadata.levels_metadata[level]
         return get_win_starts(
-- 
2.43.0


From f086e6ce47f0ed4d6bd2a2fbed265ee6eebb7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 40/43] fix: leave the dictionary for time metadata as it was

get_time_metadata added the channels metadata to the dictionary of the
caller
---
 resistics/time.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 8504db8..257c3e7 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -368,8 +368,7 @@ def get_time_metadata(
     """
     chans = time_dict["chans"]
     chans_metadata = {chan: ChanMetadata(**chans_dict[chan]) for chan in chans}
-    time_dict["chans_metadata"] = chans_metadata
-    return TimeMetadata(**time_dict)
+    return TimeMetadata(**{**time_dict, "chans_metadata": chans_metadata})
 
 
 def adjust_time_metadata(
-- 
2.43.0


From 815d10031e3abb1b12a9c027257506c30378bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 41/43] fix: last times and data types of generated time data

The sampling interval was rounded to nanoseconds before multiplying it by
the number of samples, so that the last time was off by many samples for
long data, and time_data_with_offset ignored its dtype
---
 resistics/testing.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/resistics/testing.py b/resistics/testing.py
index 1490dfd..9db9aff 100644
--- a/resistics/testing.py
+++ b/resistics/testing.py
@@ -73,6 +73,8 @@ def time_metadata_1chan(
     TimeMetadata
         TimeMetadata
     """
+    from resistics.sampling import sample_to_datetime, to_datetime
+
     first_time = pd.to_datetime(first_time)
     time_dict = {
         "chans": ["chan1"],
@@ -80,7 +82,7 @@ def time_metadata_1chan(
         "n_samples": n_samples,
         "n_chans": 1,
         "first_time": first_time,
-        "last_time": first_time + pd.Timedelta(1 / fs, "s") * (n_samples - 1),
+        "last_time": sample_to_datetime(fs, to_datetime(first_time), n_samples - 1),
     }
     chans_dict = {
         "chan1": {
@@ -112,6 +114,8 @@ def time_metadata_2chan(
     TimeMetadata
         TimeMetadata
     """
+    from resistics.sampling import sample_to_datetime, to_datetime
+
     first_time = pd.to_datetime(first_time)
     time_dict = {
         "chans": ["chan1", "chan2"],
@@ -119,7 +123,7 @@ def time_metadata_2chan(
         "n_samples": n_samples,
         "n_chans": 2,
         "first_time": first_time,
-        "last_time": first_time + pd.Timedelta(1 / fs, "s") * (n_samples - 1),
+        "last_time": sample_to_datetime(fs, to_datetime(first_time), n_samples - 1),
     }
     chans_dict = {
         "chan1": {
@@ -157,6 +161,8 @@ def time_metadata_mt(
     TimeMetadata
         TimeMetadata
     """
+    from resistics.sampling import sample_to_datetime, to_datetime
+
     first_time = pd.to_datetime(first_time)
     time_dict = {
         "chans": ["Ex", "Ey", "Hx", "Hy"],
@@ -165,7 +171,7 @@ def time_metadata_mt(
         "n_chans": 4,
         "n_samples": n_samples,
         "first_time": first_time,
-        "last_time": first_time + pd.Timedelta(1 / fs, "s") * (n_samples - 1),
+        "last_time": sample_to_datetime(fs, to_datetime(first_time), n_samples - 1),
     }
     chans_dict = {
         "Ex": {"name": "Ex", "data_files": "Ex.ascii"},
@@ -465,7 +471,7 @@ def time_data_with_offset(
         dtype = DEFAULT_TIME_DATA_DTYPE
     first_time = (pd.to_datetime(first_time) + pd.Timedelta(offset, "s")).isoformat()
     metadata = time_metadata_1chan(fs, first_time, n_samples)
-    data = np.arange(0, n_samples).reshape(1, n_samples)
+    data = np.arange(0, n_samples, dtype=dtype).reshape(1, n_samples)
     creator = {
         "name": "time_data_with_offset",
         "offset": offset,
-- 
2.43.0


From a1d0208ea1ffcb376f03817914e8fbd26be9c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:50 +0000
Subject: [PATCH 42/43] fix: refuse decimation setups with a division factor
 below 2, which never end

---
 resistics/decimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 780fa18..d2c73c6 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -364,7 +364,7 @@ class DecimationSetup(ResisticsProcess):
     n_levels: int = 8
     per_level: int = 5
     min_samples: int = 256
-    div_factor: int = 2
+    div_factor: conint(ge=2) = 2
     eval_freqs: Optional[List[float]] = None
 
     def run(self, fs: float) -> DecimationParameters:
-- 
2.43.0


From c8da6a2471de52c8a3c0ac4f43fa6f6222ba0227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:50 +0000
Subject: [PATCH 43/43] fix: refuse evaluation frequencies of 0 Hz and below,
 for which decimation setup never ends

---
 resistics/decimate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index d2c73c6..ae9e099 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -412,6 +412,8 @@ class DecimationSetup(ResisticsProcess):
             If size of evaluation frequencies != n_levels * per_level
         ValueError
             If any evaluation frequency is > nyquist
+        ValueError
+            If any evaluation frequency is <= 0
         """
         nyquist = fs / 2
         n_freqs = self.n_levels * self.per_level
@@ -422,6 +424,8 @@ class DecimationSetup(ResisticsProcess):
             raise ValueError(f"Size eval freqs {eval_freqs.size} != n_freqs {n_freqs}")
         if np.any(eval_freqs > nyquist):
             raise ValueError(f"Found frequencies {eval_freqs} > nyquist {nyquist}")
+        if np.any(eval_freqs <= 0):
+            raise ValueError(f"Found frequencies {eval_freqs} <= 0")
         return eval_freqs
 
     def _get_factors(self, fs: float, eval_freqs: np.ndarray) -> List[int]:
-- 
2.43.0


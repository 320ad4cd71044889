From ead700fb324d67538e83816012cfc3aaf60ae093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 01/84] fix: sample interval of a recording must divide by the
 number of intervals

---
 shepherd_core/shepherd_core/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 29bff8c..4a7ce8a 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -179,7 +179,8 @@ class Reader:
         if (sample_count > 0) and (duration_raw > 0):
             # this assumes iso-chronous sampling
             duration_s = self._cal.time.raw_to_si(duration_raw)
-            self.sample_interval_s = duration_s / sample_count
+            self.sample_interval_s = duration_s / (sample_count - 1)
+            # ⤷ n samples span n-1 intervals
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
             self.samplerate_sps = max(round((sample_count - 1) / duration_s), 1)
         self.runtime_s = round(self.ds_voltage.shape[0] / self.samplerate_sps, 1)
-- 
2.43.0


From ff35e84622756c797e0d764507b936daef4f8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 02/84] fix: writer rejects unusable settings before touching
 any file

---
 shepherd_core/shepherd_core/writer.py | 60 ++++++++++++++++++---------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 7f36874..9883b46 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -138,6 +138,14 @@ class Writer(Reader):
                 self.file_path.name,
             )
 
+        # sanity-check arguments before any file gets created, truncated or altered
+        if isinstance(mode, str) and mode not in self.mode_dtype_dict:
+            msg = f"Can't handle mode '{mode}' (choose one of {self.mode_dtype_dict})"
+            raise ValueError(msg)
+        if isinstance(datatype, str):
+            datatype = EnergyDType[datatype]
+        self._check_settings(mode, datatype, window_samples)
+
         # open file
         if self._modify:
             self.h5file = h5py.File(self.file_path, "r+")  # = rw
@@ -149,33 +157,16 @@ class Writer(Reader):
             self._create_skeleton()
 
         # Handle Mode
-        if isinstance(mode, str) and mode not in self.mode_dtype_dict:
-            msg = f"Can't handle mode '{mode}' (choose one of {self.mode_dtype_dict})"
-            raise ValueError(msg)
-
         if mode is not None:
             self.h5file.attrs["mode"] = mode
         if "mode" not in self.h5file.attrs:
             self.h5file.attrs["mode"] = self.mode_default
 
-        _dtypes = self.mode_dtype_dict[self.get_mode()]
-
         # Handle Datatype
-        if isinstance(datatype, str):
-            datatype = EnergyDType[datatype]
-        if isinstance(datatype, EnergyDType) and datatype not in _dtypes:
-            msg = f"Can't handle value '{datatype}' of datatype (choose one of {_dtypes})"
-            raise ValueError(msg)
-
         if isinstance(datatype, EnergyDType):
             self.h5file["data"].attrs["datatype"] = datatype.name
         if "datatype" not in self.h5file["data"].attrs:
             self.h5file["data"].attrs["datatype"] = self.datatype_default.name
-        if self.get_datatype() not in _dtypes:
-            msg = (
-                f"Can't handle value '{self.get_datatype()}' of datatype (choose one of {_dtypes})"
-            )
-            raise ValueError(msg)
 
         # Handle Window_samples
         if window_samples is not None:
@@ -183,9 +174,6 @@ class Writer(Reader):
         if "window_samples" not in self.h5file["data"].attrs:
             self.h5file["data"].attrs["window_samples"] = 0
 
-        if datatype == EnergyDType.ivcurve and self.get_window_samples() < 1:
-            raise ValueError("Window Size argument needed for ivcurve-Datatype")
-
         # Handle Cal
         if isinstance(cal_data, (CalEmu, CalHrv)):
             cal_data = CalSeries.from_cal(cal_data)
@@ -228,6 +216,38 @@ class Writer(Reader):
         self.is_valid()
         self.h5file.close()
 
+    def _check_settings(
+        self,
+        mode: Optional[str],
+        datatype: Optional[EnergyDType],
+        window_samples: Optional[int],
+    ) -> None:
+        """Make sure the resulting combination of settings is usable.
+
+        When modifying a file, its stored settings are considered as fallback.
+        """
+        stored_mode, stored_dtype, stored_window = None, None, None
+        if self._modify:
+            with h5py.File(self.file_path, "r") as h5file:
+                stored_mode = h5file.attrs.get("mode")
+                stored_dtype = h5file["data"].attrs.get("datatype")
+                stored_window = h5file["data"].attrs.get("window_samples")
+
+        if mode is None:
+            mode = self.mode_default if stored_mode is None else stored_mode
+        if datatype is None:
+            _dtype = self.datatype_default.name if stored_dtype is None else stored_dtype
+            datatype = EnergyDType.__members__.get(_dtype)
+        if window_samples is None:
+            window_samples = 0 if stored_window is None else int(stored_window)
+
+        _dtypes = self.mode_dtype_dict[mode]
+        if datatype not in _dtypes:
+            msg = f"Can't handle value '{datatype}' of datatype (choose one of {_dtypes})"
+            raise ValueError(msg)
+        if datatype == EnergyDType.ivcurve and window_samples < 1:
+            raise ValueError("Window Size argument needed for ivcurve-Datatype")
+
     def _create_skeleton(self) -> None:
         """Initialize the structure of the HDF5 file.
 
-- 
2.43.0


From 18277b30a5787d36262c2b226c5e245f78cdcda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 03/84] fix: writer creates new recordings exclusively (never
 truncates a file of a concurrent writer)

---
 shepherd_core/shepherd_core/writer.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 9883b46..1a01e76 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -150,10 +150,8 @@ class Writer(Reader):
         if self._modify:
             self.h5file = h5py.File(self.file_path, "r+")  # = rw
         else:
-            if not self.file_path.parent.exists():
-                self.file_path.parent.mkdir(parents=True)
-            self.h5file = h5py.File(self.file_path, "w")
-            # ⤷ write, truncate if exist
+            self.file_path.parent.mkdir(parents=True, exist_ok=True)
+            self.h5file = self._create_file(file_path, force_overwrite=force_overwrite)
             self._create_skeleton()
 
         # Handle Mode
@@ -248,6 +246,18 @@ class Writer(Reader):
         if datatype == EnergyDType.ivcurve and window_samples < 1:
             raise ValueError("Window Size argument needed for ivcurve-Datatype")
 
+    def _create_file(self, file_path: Path, *, force_overwrite: bool) -> h5py.File:
+        if force_overwrite:
+            return h5py.File(self.file_path, "w")
+            # ⤷ write, truncate if exist
+        while True:
+            try:
+                return h5py.File(self.file_path, "x")
+                # ⤷ exclusive, another writer may have been faster since checking the path
+            except FileExistsError:  # noqa: PERF203
+                base_dir = file_path.resolve().parents[0]
+                self.file_path = unique_path(base_dir / file_path.stem, file_path.suffix)
+
     def _create_skeleton(self) -> None:
         """Initialize the structure of the HDF5 file.
 
-- 
2.43.0


From 28e4e2b4f26b71fc1324dbc0289a35157775121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 04/84] fix: reader looks for config where the writer stores it

---
 shepherd_core/shepherd_core/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 4a7ce8a..90c5dd3 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -256,8 +256,10 @@ class Reader:
         return ""
 
     def get_config(self) -> Dict:
-        if "config" in self.h5file["data"].attrs:
-            return yaml.safe_load(self.h5file["data"].attrs["config"])
+        for node in (self.h5file, self.h5file["data"]):
+            # ⤷ writer stores it in root, data-group is just a fallback
+            if "config" in node.attrs:
+                return yaml.safe_load(node.attrs["config"])
         return {}
 
     def get_hostname(self) -> str:
-- 
2.43.0


From 256f60578da30dc3ea7cc89180d59d4d894527e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 05/84] fix: voltage-step from recorded data is calibrated and
 handles falling voltages

---
 shepherd_core/shepherd_core/reader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 90c5dd3..68baa1c 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -290,16 +290,15 @@ class Reader:
             self.get_config().get("virtual_harvester", {}).get("voltage_step_mV", None)
         )
         if voltage_step is None:
-            dsv = self.ds_voltage[0:2000]
-            diffs_np = np.unique(dsv[1:] - dsv[0:-1], return_counts=False)
+            dsv = self.ds_voltage[0:2000].astype("i8")
+            # ⤷ signed, as difference can be negative
+            diffs_np = np.unique(np.abs(dsv[1:] - dsv[0:-1]), return_counts=False)
             diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]
             # static voltages have 0 steps, so
             if len(diffs_ls) == 0:
                 return None  # or is 0 better? that may provoke div0
-            voltage_step = min(diffs_ls)
-        if voltage_step is not None:
-            voltage_step = 1e-3 * voltage_step
-        return voltage_step
+            return float(min(diffs_ls) * self._cal.voltage.gain)
+        return 1e-3 * voltage_step
 
     def get_hrv_config(self) -> dict:
         """Essential info for harvester.
-- 
2.43.0


From 196f3cc3fa513e9818ccfe07db9af550c341fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 06/84] fix: detect time-jumps between processing-chunks

---
 shepherd_core/shepherd_core/reader.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 68baa1c..02460f7 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -530,20 +530,21 @@ class Reader:
 
         :return: list of (unique) time-deltas between buffers [s]
         """
-        iterations = math.ceil(self.ds_time.shape[0] / self.max_elements)
+        step = max(self.max_elements // self.samples_per_buffer, 1) * self.samples_per_buffer
+        # ⤷ chunks start at a buffer
+        iterations = math.ceil(self.ds_time.shape[0] / step)
         job_iter = trange(
             0,
             self.h5file["data"]["time"].shape[0],
-            self.max_elements,
+            step,
             desc="timediff",
             leave=False,
             disable=iterations < 8,
         )
 
         def calc_timediffs(idx_start: int) -> list:
-            ds_time = self.ds_time[
-                idx_start : (idx_start + self.max_elements) : self.samples_per_buffer
-            ]
+            ds_time = self.ds_time[idx_start : (idx_start + step + 1) : self.samples_per_buffer]
+            # ⤷ includes start of next chunk
             diffs_np = np.unique(ds_time[1:] - ds_time[0:-1], return_counts=False)
             return list(np.array(diffs_np))
 
-- 
2.43.0


From 57ed969732d936ab6631deda52a04669f708f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 07/84] fix: time-diff check can handle recordings with less
 than two buffers

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 02460f7..2328aa0 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -564,6 +564,8 @@ class Reader:
         :return: True if OK
         """
         diffs = self._data_timediffs()
+        if len(diffs) < 1:
+            return True  # less than two buffers -> nothing to compare
         if len(diffs) > 1:
             self._logger.warning(
                 "Time-jumps detected -> expected equal steps, but got: %s s", diffs
-- 
2.43.0


From c65a5d404db7aac9dd1735f9588f7041e5ce7ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 08/84] fix: statistics of datasets are independent of chunking

---
 shepherd_core/shepherd_core/reader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 2328aa0..750dbea 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -505,7 +505,7 @@ class Reader:
         )
 
         def _calc_statistics(data: np.ndarray) -> list:
-            return [np.mean(data), np.min(data), np.max(data), np.std(data)]
+            return [np.mean(data), np.min(data), np.max(data), np.std(data), data.size]
 
         stats_list = [
             _calc_statistics(cal.raw_to_si(dset[i : i + self.max_elements])) for i in job_iter
@@ -513,12 +513,16 @@ class Reader:
         if len(stats_list) < 1:
             return {}
         stats_nd = np.stack(stats_list)
+        # combine chunks (can differ in size)
+        weights = stats_nd[:, 4] / stats_nd[:, 4].sum()
+        mean = float((stats_nd[:, 0] * weights).sum())
+        variance = float(((stats_nd[:, 3] ** 2 + (stats_nd[:, 0] - mean) ** 2) * weights).sum())
         stats: Dict[str, float] = {
             # TODO: wrong calculation for ndim-datasets with n>1
-            "mean": float(stats_nd[:, 0].mean()),
+            "mean": mean,
             "min": float(stats_nd[:, 1].min()),
             "max": float(stats_nd[:, 2].max()),
-            "std": float(stats_nd[:, 3].mean()),  # TODO: sooo wrong :)
+            "std": math.sqrt(variance),
             "si_converted": si_converted,
         }
         return stats
-- 
2.43.0


From 831edf76036080c2d8d0bc070195c4eb153a7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 09/84] fix: durations are not shifted by the offset of the
 time-calibration

---
 shepherd_core/shepherd_core/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 750dbea..a4b7399 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -178,7 +178,8 @@ class Reader:
         # above's typecasting prevents overflow in u64-format
         if (sample_count > 0) and (duration_raw > 0):
             # this assumes iso-chronous sampling
-            duration_s = self._cal.time.raw_to_si(duration_raw)
+            duration_s = duration_raw * self._cal.time.gain
+            # ⤷ a duration must not include the offset
             self.sample_interval_s = duration_s / (sample_count - 1)
             # ⤷ n samples span n-1 intervals
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
@@ -554,7 +555,7 @@ class Reader:
 
         diffs_ll = [calc_timediffs(i) for i in job_iter]
         diffs = {
-            round(self._cal.time.raw_to_si(j) / self.samples_per_buffer, 6)
+            round(float(j) * self._cal.time.gain / self.samples_per_buffer, 6)
             for i in diffs_ll
             for j in i
         }
-- 
2.43.0


From 172db78dde7873e87ecae51948c1cc300b03d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 10/84] fix: downsampling is uniform across processing-blocks

---
 shepherd_data/shepherd_data/reader.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 16e75e6..79cd0ff 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -203,8 +203,9 @@ class Reader(CoreReader):
         if data_len == 0:
             self._logger.warning("downsampling failed because of data_len = 0")
             return data_dst
-        iblock_len = min(self.max_elements, data_len)
-        oblock_len = round(iblock_len / ds_factor)
+        oblock_len = max(1, min(self.max_elements, data_len) // ds_factor)
+        iblock_len = oblock_len * ds_factor
+        # ⤷ multiple of factor keeps decimation uniform between blocks
         iterations = math.ceil(data_len / iblock_len)
         dest_len = math.floor(data_len / ds_factor)
         if data_dst is None:
@@ -225,7 +226,6 @@ class Reader(CoreReader):
         # filter state - needed for sliced calculation
         f_state = np.zeros((filter_.shape[0], 2))
 
-        slice_len = 0
         for _iter in trange(
             0,
             iterations,
@@ -238,11 +238,9 @@ class Reader(CoreReader):
                 slice_ds, f_state = signal.sosfilt(filter_, slice_ds, zi=f_state)
             slice_ds = slice_ds[::ds_factor]
             slice_len = min(dest_len - _iter * oblock_len, oblock_len)
-            data_dst[_iter * oblock_len : (_iter + 1) * oblock_len] = slice_ds[:slice_len]
-        if isinstance(data_dst, np.ndarray):
-            data_dst.resize((oblock_len * (iterations - 1) + slice_len,), refcheck=False)
-        else:
-            data_dst.resize((oblock_len * (iterations - 1) + slice_len,))
+            if slice_len < 1:
+                break  # remaining input is too short for another sample
+            data_dst[_iter * oblock_len : _iter * oblock_len + slice_len] = slice_ds[:slice_len]
         return data_dst
 
     def cut_and_downsample_to_file(
-- 
2.43.0


From b2a0c5e84457e063f25c25158768a29849600bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 11/84] fix: cutting a recording includes samples beyond the
 rounded runtime

---
 shepherd_data/shepherd_data/reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 79cd0ff..7835388 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -257,12 +257,14 @@ class Reader(CoreReader):
         when applicable.
         """
         # prepare cut
+        duration_s = self.ds_voltage.shape[0] / self.samplerate_sps
+        # ⤷ .runtime_s is rounded
         if not isinstance(start_s, (float, int)):
             start_s = 0
         if not isinstance(end_s, (float, int)):
-            end_s = self.runtime_s
+            end_s = duration_s
         start_s = max(0, start_s)
-        end_s = min(self.runtime_s, end_s)
+        end_s = min(duration_s, end_s)
 
         start_sample = round(start_s * self.samplerate_sps)
         end_sample = round(end_s * self.samplerate_sps)
@@ -288,7 +290,7 @@ class Reader(CoreReader):
             )
 
         # assemble file-name of output
-        if start_s != 0.0 or end_s != self.runtime_s:
+        if start_s != 0.0 or end_s != duration_s:
             start_str = f"{start_s:.3f}".replace(".", "s")
             end_str = f"{end_s:.3f}".replace(".", "s")
             cut_str = f".cut_{start_str}_to_{end_str}"
-- 
2.43.0


From f7ec066cc1943f69667474d47adfe47814aa9f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 12/84] fix: name and attribute of downsampled file state the
 applied factor

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 7835388..373e7f4 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -283,6 +283,7 @@ class Reader(CoreReader):
                 "Cut & downsample for %s failed because factor < 1",
                 self.file_path.name,
             )
+        ds_factor = math.floor(ds_factor)  # what .downsample() applies
         if ((end_sample - start_sample) / ds_factor) < 1000:
             raise ValueError(
                 "Cut & downsample for %s failed because resulting sample-size is too small",
@@ -297,7 +298,7 @@ class Reader(CoreReader):
         else:
             cut_str = ""
 
-        ds_str = f".downsample_x{round(ds_factor)}" if ds_factor > 1 else ""
+        ds_str = f".downsample_x{ds_factor}" if ds_factor > 1 else ""
 
         dst_file = self.file_path.resolve().with_suffix(cut_str + ds_str + ".h5")
         if dst_file.exists():
-- 
2.43.0


From c81e64cbb66ccb331205f719d7ba61047b563a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 13/84] fix: downsampling can fill arrays that are still
 referenced by the caller

---
 shepherd_data/shepherd_data/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 373e7f4..f4bddb4 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -210,8 +210,10 @@ class Reader(CoreReader):
         dest_len = math.floor(data_len / ds_factor)
         if data_dst is None:
             data_dst = np.empty((dest_len,))
-        elif isinstance(data_dst, (h5py.Dataset, np.ndarray)):
+        elif isinstance(data_dst, h5py.Dataset):
             data_dst.resize((dest_len,))
+        elif isinstance(data_dst, np.ndarray):
+            data_dst.resize((dest_len,), refcheck=False)
 
         # 8th order butterworth filter for downsampling
         # note: cheby1 does not work well for static outputs
-- 
2.43.0


From 53732a2ac09d9e8bd9bc5454cc015594475b6f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 14/84] fix: csv-export does not add an offset to data without
 calibration

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index f4bddb4..375ee94 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -78,7 +78,7 @@ class Reader(CoreReader):
                 key: h5_group[key].attrs.get("gain", 1.0) for key in datasets[1:]
             }
             offsets: Dict[str, float] = {
-                key: h5_group[key].attrs.get("offset", 1.0) for key in datasets[1:]
+                key: h5_group[key].attrs.get("offset", 0.0) for key in datasets[1:]
             }
             for idx, time_ns in enumerate(h5_group["time"][:]):
                 timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
-- 
2.43.0


From baf62c8a75e58fc979d7795ee2fcdba46a8a09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 15/84] fix: log-export ignores sub-groups instead of raising

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 375ee94..bb46d8f 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -109,7 +109,7 @@ class Reader(CoreReader):
         if log_path.exists():
             self._logger.info("File already exists, will skip '%s'", log_path.name)
             return 0
-        datasets = [key if isinstance(h5_group[key], h5py.Dataset) else [] for key in h5_group]
+        datasets = [key for key in h5_group if isinstance(h5_group[key], h5py.Dataset)]
         datasets.remove("time")
         with log_path.open("w", encoding="utf-8-sig") as log_file:
             self._logger.info("Log-Generator will save '%s' to '%s'", h5_group.name, log_path.name)
-- 
2.43.0


From d84505dd6e54f4dff5ae97edcd43f77ead43b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 16/84] fix: validate-command fails for unreadable files and
 inspects the remaining ones

---
 shepherd_data/shepherd_data/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 166595e..423a34b 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -85,11 +85,12 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
             with Reader(file, verbose=verbose_level > 2) as shpr:
                 valid_file &= shpr.is_valid()
                 valid_file &= shpr.check_timediffs()
-                valid_dir &= valid_file
-                if not valid_file:
-                    logger.error(" -> File '%s' was NOT valid", file.name)
-        except TypeError:
+        except (TypeError, ValueError, KeyError):
+            valid_file = False
             logger.exception("ERROR: Will skip file. It caused an exception.")
+        valid_dir &= valid_file
+        if not valid_file:
+            logger.error(" -> File '%s' was NOT valid", file.name)
     sys.exit(int(not valid_dir))
 
 
-- 
2.43.0


From 0050866fe0efe1f4d52bacd7f51f5b8d8ee849b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 17/84] fix: commands skip files without data instead of
 aborting the batch

---
 shepherd_data/shepherd_data/cli.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 423a34b..6e8b3fd 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -158,7 +158,7 @@ def extract(
                 out_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_factor)
                 with Reader(out_file, verbose=verbose_level > 2) as shpd:
                     shpd.save_csv(shpd["data"], separator, raw=raw)
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, KeyError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -203,7 +203,7 @@ def extract_meta(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                         # TODO: allow omitting timestamp,
                         #       also test if segmented uart is correctly written
                         shpr.warn_logs(element, show=True)
-        except TypeError:
+        except (TypeError, ValueError, KeyError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -244,7 +244,7 @@ def extract_uart(in_data: Path, *, recurse: bool = False) -> None:
                             log_file.write(f"\t{str.encode(line[1])}")
                             # TODO: does this produce "\tb'abc'"?
                             log_file.write("\n")
-        except TypeError:
+        except (TypeError, ValueError, KeyError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -274,7 +274,7 @@ def extract_gpio(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                 wfs = shpr.gpio_to_waveforms()
                 for name, wf in wfs.items():
                     shpr.waveform_to_csv(name, wf, separator)
-        except TypeError:
+        except (TypeError, ValueError, KeyError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -342,7 +342,7 @@ def downsample(
                 for _factor in ds_list:
                     path_file = shpr.cut_and_downsample_to_file(start, end, _factor)
                     logger.info("Created %s", path_file.name)
-        except (TypeError, ValueError):  # noqa: PERF203
+        except (TypeError, ValueError, KeyError):  # noqa: PERF203
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -421,7 +421,7 @@ def plot(
                     data.append(date)
                 else:
                     shpr.plot_to_file(start, end, width, height, only_pwr=only_power)
-        except TypeError:
+        except (TypeError, ValueError, KeyError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
-- 
2.43.0


From 00e11e70850c5c30ec9cc8033fc96f32da08045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 18/84] fix: downsample-command determines the factor for each
 file individually

---
 shepherd_data/shepherd_data/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 6e8b3fd..6ea8cd5 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -331,11 +331,12 @@ def downsample(
     for file in files:
         try:
             with Reader(file, verbose=verbose_level > 2) as shpr:
-                if ds_factor is None and sample_rate is not None and sample_rate >= 1:
-                    ds_factor = shpr.samplerate_sps / sample_rate
+                factor = ds_factor
+                if factor is None and sample_rate is not None and sample_rate >= 1:
+                    factor = shpr.samplerate_sps / sample_rate  # specific for each file
 
-                if isinstance(ds_factor, (float, int)) and ds_factor >= 1:
-                    ds_list = [ds_factor]
+                if isinstance(factor, (float, int)) and factor >= 1:
+                    ds_list = [factor]
                 else:
                     ds_list = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]
 
-- 
2.43.0


From 3a19a85558d330a1d216e89baa4646e090e1520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 19/84] fix: gpio-waveforms can handle recordings without
 gpio-samples

---
 shepherd_core/shepherd_core/reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index a4b7399..1c0d1ed 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -681,6 +681,8 @@ class Reader:
         """
         if len(data.shape) > 1:
             raise ValueError("Array must be 1D")
+        if data.shape[0] < 1:
+            return np.zeros(0, dtype=bool)
         data_1 = np.concatenate(([not data[0]], data[:-1]))
         return data != data_1
 
@@ -691,6 +693,8 @@ class Reader:
 
         gpio_ts = self.h5file["gpio"]["time"]
         gpio_vs = self.h5file["gpio"]["value"]
+        if gpio_ts.shape[0] < 1:
+            return waveforms  # nothing recorded
 
         if name is None:
             descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
-- 
2.43.0


From 62fe08e5aff2edc61e8964de48327d2104d03784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 20/84] fix: header of waveform-csv uses the chosen separator

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 1c0d1ed..2a15b58 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -719,7 +719,7 @@ class Reader:
             self._logger.info("File already exists, will skip '%s'", path_csv.name)
             return
         with path_csv.open("w") as csv:
-            csv.write(f"timestamp [s],{pin_name}\n")
+            csv.write(f"timestamp [s]{separator}{pin_name}\n")
             for row in pin_wf:
                 csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\n")
 
-- 
2.43.0


From b3e8d40a0e4185dd4b785c34d87a0fd4371693ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 21/84] fix: gpio-pins are found by their exact name first,
 unknown ones give no waveform

---
 shepherd_core/shepherd_core/reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 2a15b58..255b23b 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -668,6 +668,9 @@ class Reader:
         if "gpio" not in self.h5file:
             return None
         descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
+        for desc_name, desc in descriptions.items():
+            if name == desc["name"]:
+                return int(desc_name)
         for desc_name, desc in descriptions.items():
             if name in desc["name"]:
                 return int(desc_name)
@@ -698,9 +701,10 @@ class Reader:
 
         if name is None:
             descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
-            pin_dict = {value["name"]: key for key, value in descriptions.items()}
+            pin_dict = {value["name"]: int(key) for key, value in descriptions.items()}
         else:
-            pin_dict = {name: self.get_gpio_pin_num(name)}
+            pin_num = self.get_gpio_pin_num(name)
+            pin_dict = {name: pin_num} if pin_num is not None else {}
 
         for pin_name, pin_num in pin_dict.items():
             gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0
-- 
2.43.0


From 8c83037c382221fb22512df2f262723bd7c3dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 22/84] fix: uart-decoder does not modify data of the caller

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index c463ea1..9222ea9 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -72,7 +72,7 @@ class Uart:
             # TODO: if float fails load as str -
             #  cast first col as np.datetime64 with ns-resolution, convert to delta
         else:
-            self.events_sig = content
+            self.events_sig = content.copy()  # is modified below
 
         # verify table
         if self.events_sig.shape[1] != 2:
-- 
2.43.0


From a2407379f336a88d3e48e725996fdeccec1d7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 23/84] fix: uart-decoder recovers frames with set msb, with
 only zeros and at end of recording

---
 .../shepherd_core/decoder_waveform/uart.py    | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index 9222ea9..f74647c 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -214,11 +214,13 @@ class Uart:
         content = []
 
         for time, value, steps in self.events_sig:
-            if steps > self.frame_length:
+            if steps > self.frame_length + (0 if value else 1.5):
+                # ⤷ frame can be LOW for startbit & all databits
                 if value:
                     # long pause on High -> reset frame
                     if pos_df is not None:
-                        content.append([t_start, chr(symbol)])
+                        symbol += (2 ** (self.frame_length - pos_df) - 1) << pos_df
+                        content.append((t_start, chr(symbol)))
                         t_start = None
                         symbol = 0
                     pos_df = None
@@ -232,9 +234,8 @@ class Uart:
                 t_start = time
             if pos_df is not None:
                 if round(steps) >= 1 and value:
-                    chunk = min(steps, self.frame_length - pos_df - 1)
-                    lshift = min(pos_df, self.frame_length - 1)
-                    symbol += (2 ** round(chunk) - 1) << lshift
+                    chunk = min(steps, self.frame_length - pos_df)
+                    symbol += (2 ** round(chunk) - 1) << pos_df
                 pos_df += round(steps)
                 off_tick = abs(steps - round(steps)) > 0.1
                 if pos_df >= self.frame_length or (off_tick and value):
@@ -246,10 +247,12 @@ class Uart:
                     pos_df = None
                     if off_tick and value == 0:
                         logger.debug("Error - Off-sized step - but SigLow (@%d)", time)
-        self.events_symbols = np.concatenate(content).reshape((len(content), 2))
-        # TODO: numpy is converting timestamp to string -> must be added as tuple (ts, symbol)
-        # symbol_events[:, 0] = symbol_events[:, 0].astype(float)  # noqa: ERA001
-        # ⤷ does not work
+        if pos_df is not None and self.events_sig[-1, 1] == 0:
+            # last event has no duration -> signal stays HIGH after it
+            symbol += (2 ** (self.frame_length - pos_df) - 1) << pos_df
+            content.append((t_start, chr(symbol)))
+        self.events_symbols = np.array(content, dtype=object).reshape((len(content), 2))
+        # ⤷ keeps timestamp as float and does not strip zero-symbols
         return self.events_symbols
 
     def get_lines(self, *, force_redo: bool = False) -> np.ndarray:
-- 
2.43.0


From 712f55d7ec9f2a879cc33e37bdd3de8edc82dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 24/84] fix: uart-decoder keeps symbols after a lone
 carriage-return and unfinished lines

---
 .../shepherd_core/decoder_waveform/uart.py    | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index f74647c..2cb88e3 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -269,22 +269,23 @@ class Uart:
         t_start = None
         line = ""
         for time, symbol in self.events_symbols:
-            if symbol == "\n" or semi_stop:
-                if symbol == "\n":
-                    line += symbol
+            if semi_stop and symbol != "\n":
+                # line was ended by a lone \r
                 content.append((t_start, line))
-                semi_stop = False
                 t_start = None
                 line = ""
-                if not semi_stop:
-                    continue
-            if symbol == "\r":
-                semi_stop = True
+            semi_stop = symbol == "\r"
 
             if t_start is None:
                 t_start = time
             line += symbol
-        self.events_lines = np.concatenate(content).reshape((len(content), 2))
+            if symbol == "\n":
+                content.append((t_start, line))
+                t_start = None
+                line = ""
+        if len(line) > 0:
+            content.append((t_start, line))  # unfinished line
+        self.events_lines = np.array(content, dtype=object).reshape((len(content), 2))
         return self.events_lines
 
     def get_text(self, *, force_redo: bool = False) -> str:
-- 
2.43.0


From 8d241e2e0d6aaca0a24185281de28e6d9e6b08c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 25/84] fix: calibration from constant measurements is rejected

---
 .../shepherd_core/data_models/base/cal_measurement.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/cal_measurement.py b/shepherd_core/shepherd_core/data_models/base/cal_measurement.py
index aa74a8c..7f7503a 100644
--- a/shepherd_core/shepherd_core/data_models/base/cal_measurement.py
+++ b/shepherd_core/shepherd_core/data_models/base/cal_measurement.py
@@ -48,7 +48,9 @@ def meas_to_cal(data: CalMeasPairs, component: str) -> CalibrationPair:
     sstot = np.sum((y - ybar) ** 2)
     rval = ssreg / sstot
 
-    if rval < 0.999:
+    is_flat = np.ptp(x) == 0 or np.ptp(y) == 0
+    # ⤷ no line can be determined, rval becomes NaN or just noise
+    if is_flat or not (rval >= 0.999):
         msg = (
             "Calibration faulty -> Correlation coefficient "
             f"(rvalue) = {rval}:.6f is too low for '{component}'"
-- 
2.43.0


From f98d6ca7d5ed3bde79da0ad85757e8261725d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 26/84] fix: inheritance-circles of any length raise ValueError
 instead of RecursionError

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index a0ee6c1..5b19e92 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -109,6 +109,9 @@ class Fixture:
                 chain.append(base_name)
             fixture_base = copy.copy(self[fixture_name])
             logger.debug("'%s' will inherit from '%s'", self.model_type, fixture_name)
+            if str(fixture_name).lower() in [str(_name).lower() for _name in chain]:
+                msg = f"Inheritance-Circle detected ({fixture_name} already in {chain})"
+                raise ValueError(msg)
             fixture_base["name"] = fixture_name
             chain.append(fixture_name)
             base_dict, chain = self.inheritance(values=fixture_base, chain=chain)
-- 
2.43.0


From e2321df0c9b1a845a27c56bce55c4baf4607fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 27/84] fix: unique id for harvester-definition cv10

---
 .../data_models/content/virtual_harvester_fixture.yaml          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml b/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
index 9fc270a..0ee7603 100644
--- a/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
+++ b/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
@@ -88,7 +88,7 @@
 
 - datatype: VirtualHarvesterConfig
   parameters:
-    id: 2102
+    id: 2103
     name: cv10
     inherit_from: cv20
     voltage_mV: 1000
-- 
2.43.0


From 373b86d4b68a0cab85caebc4b2009bc62d14df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 28/84] fix: cache of fixtures can be damaged, is written
 atomically and only represents default-fixtures

---
 .../shepherd_core/testbed_client/fixtures.py  | 44 +++++++++++++++----
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index 5b19e92..b055dec 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -5,6 +5,7 @@ import pickle
 from datetime import datetime
 from datetime import timedelta
 from pathlib import Path
+from tempfile import NamedTemporaryFile
 from typing import Any
 from typing import Dict
 from typing import Mapping
@@ -186,20 +187,21 @@ class Fixtures:
             self.file_path = file_path
         self.components: Dict[str, Fixture] = {}
         cache_file = cache_user_path / "fixtures.pickle"
+        use_cache = file_path is None  # cache only represents the default-fixtures
         sheep_detect = Path("/lib/firmware/am335x-pru0-fw").exists()
 
         if (
-            not sheep_detect
+            use_cache
+            and not sheep_detect
             and cache_file.exists()
             and not file_older_than(cache_file, timedelta(hours=24))
             and not reset
         ):
             # speedup by loading from cache
             # TODO: also add version as criterion
-            with cache_file.open("rb", buffering=-1) as fd:
-                self.components = pickle.load(fd)  # noqa: S301
-            logger.debug(" -> found & used pickled fixtures")
-        else:
+            self.components = self._load_cache(cache_file)
+
+        if len(self.components) < 1:
             if self.file_path.is_file():
                 files = [self.file_path]
             elif self.file_path.is_dir():
@@ -215,10 +217,34 @@ class Fixtures:
 
             if len(self.components) < 1:
                 logger.error(f"No fixture-components found at {self.file_path.as_posix()}")
-            elif sheep_detect:
-                cache_file.parent.mkdir(parents=True, exist_ok=True)
-                with cache_file.open("wb", buffering=-1) as fd:
-                    pickle.dump(self.components, fd)
+            elif sheep_detect and use_cache:
+                self._store_cache(cache_file)
+
+    @staticmethod
+    def _load_cache(cache_file: Path) -> Dict[str, Fixture]:
+        try:
+            with cache_file.open("rb", buffering=-1) as fd:
+                components = pickle.load(fd)  # noqa: S301
+        except Exception:  # noqa: BLE001 - unpickling of damaged data can raise anything
+            logger.warning("Cache for fixtures is damaged and will be ignored")
+            return {}
+        if not isinstance(components, dict) or not all(
+            isinstance(_c, Fixture) for _c in components.values()
+        ):
+            logger.warning("Cache for fixtures is damaged and will be ignored")
+            return {}
+        logger.debug(" -> found & used pickled fixtures")
+        return components
+
+    def _store_cache(self, cache_file: Path) -> None:
+        """Write to temporary file first, so an interruption never leaves a partial cache."""
+        try:
+            cache_file.parent.mkdir(parents=True, exist_ok=True)
+            with NamedTemporaryFile(dir=cache_file.parent, delete=False) as fd:
+                pickle.dump(self.components, fd)
+            Path(fd.name).replace(cache_file)
+        except OSError:
+            logger.warning("Cache for fixtures could not be written")
 
     @validate_call
     def insert_file(self, file: Path) -> None:
-- 
2.43.0


From 8446cb4d5409479d6385295e662310f666948fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 29/84] fix: yaml-export keeps sub-second part of durations

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 5 ++++-
 shepherd_core/shepherd_core/writer.py                    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 6745ea3..facc660 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -32,7 +32,10 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+    seconds = data.total_seconds()
+    if seconds.is_integer():
+        return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(seconds)))
+    return dumper.represent_float(seconds)
 
 
 def generic2str(dumper: Dumper, data: Any) -> ScalarNode:
diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 1a01e76..6789822 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -42,7 +42,10 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+    seconds = data.total_seconds()
+    if seconds.is_integer():
+        return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(seconds)))
+    return dumper.represent_float(seconds)
 
 
 yaml.add_representer(pathlib.PosixPath, path2str, SafeDumper)
-- 
2.43.0


From 6580989bdbca64a3a00a20846cff714d92daf838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 30/84] fix: models with ipv6-address or url can be exported to
 yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index facc660..419fe5a 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -4,6 +4,7 @@ import hashlib
 import pathlib
 from datetime import timedelta
 from ipaddress import IPv4Address
+from ipaddress import IPv6Address
 from pathlib import Path
 from typing import Any
 from typing import Generator
@@ -14,6 +15,7 @@ from uuid import UUID
 import yaml
 from pydantic import BaseModel
 from pydantic import ConfigDict
+from pydantic import HttpUrl
 from typing_extensions import Self
 from yaml import Dumper
 from yaml import SafeDumper
@@ -48,6 +50,8 @@ yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
 yaml.add_representer(timedelta, time2int, SafeDumper)
 yaml.add_representer(IPv4Address, generic2str, SafeDumper)
+yaml.add_representer(IPv6Address, generic2str, SafeDumper)
+yaml.add_representer(HttpUrl, generic2str, SafeDumper)
 yaml.add_representer(UUID, generic2str, SafeDumper)
 
 
-- 
2.43.0


From 8448b13053b5053d4f34584277406abc4d1c8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 31/84] fix: minimal yaml-export includes generated values like
 IDs and timestamps

---
 .../shepherd_core/data_models/base/shepherd.py        | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 419fe5a..89ee57d 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -84,6 +84,17 @@ class ShpModel(BaseModel):
         # defer_build=True, possible speedup -> but it triggers a bug
     )
 
+    def model_post_init(self, _context: Any, /) -> None:
+        """Generated values (i.e. IDs, timestamps) are no constant defaults.
+
+        Marking them as set makes them part of the minimal export.
+        """
+        self.model_fields_set.update(
+            name
+            for name, field in type(self).model_fields.items()
+            if field.default_factory is not None
+        )
+
     def __repr__(self) -> str:
         """string-representation allows print(model)."""
         name = type(self).__name__
-- 
2.43.0


From 32b9cc1ec489f8380260ccf3159cfbd96bde6af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 32/84] fix: hash of models does not depend on the
 representation of time-zones

---
 .../shepherd_core/data_models/base/shepherd.py   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 89ee57d..92bfc89 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -2,7 +2,9 @@
 
 import hashlib
 import pathlib
+from datetime import datetime
 from datetime import timedelta
+from datetime import timezone
 from ipaddress import IPv4Address
 from ipaddress import IPv6Address
 from pathlib import Path
@@ -45,6 +47,17 @@ def generic2str(dumper: Dumper, data: Any) -> ScalarNode:
     return dumper.represent_scalar("tag:yaml.org,2002:str", str(data))
 
 
+def normalize_time(data: Any) -> Any:
+    """Unify time-zones, as equal timestamps can have different representations."""
+    if isinstance(data, dict):
+        return {key: normalize_time(value) for key, value in data.items()}
+    if isinstance(data, list):
+        return [normalize_time(value) for value in data]
+    if isinstance(data, datetime) and data.tzinfo is not None:
+        return data.astimezone(timezone.utc)
+    return data
+
+
 yaml.add_representer(pathlib.PosixPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
@@ -182,4 +195,5 @@ class ShpModel(BaseModel):
         return cls(**shp_wrap.parameters)
 
     def get_hash(self) -> str:
-        return hashlib.sha3_224(str(self.model_dump()).encode("utf-8")).hexdigest()
+        content = normalize_time(self.model_dump())
+        return hashlib.sha3_224(str(content).encode("utf-8")).hexdigest()
-- 
2.43.0


From af477402f950917005b66b95d4b2811980521535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 33/84] fix: path of firmware has same type after loading from
 yaml

---
 .../shepherd_core/data_models/content/firmware.py          | 7 +++++++
 .../shepherd_core/data_models/task/firmware_mod.py         | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 765569f..f0a25d9 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -9,6 +9,7 @@ from typing import TypedDict
 from typing import Union
 
 from pydantic import StringConstraints
+from pydantic import field_validator
 from pydantic import model_validator
 from pydantic import validate_call
 from typing_extensions import Annotated
@@ -88,6 +89,12 @@ class Firmware(ContentModel, title="Firmware of Target"):
                 raise ValueError("Firmware-Path is invalid") from None
         return tb_client.fill_in_user_data(values)
 
+    @field_validator("data")
+    @classmethod
+    def unify_path(cls, value: Union[str, Path]) -> str:
+        """Paths are also loaded as string from yaml."""
+        return value.as_posix() if isinstance(value, Path) else value
+
     @classmethod
     def from_firmware(
         cls,
diff --git a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
index 735a28d..f8888be 100644
--- a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
+++ b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
@@ -7,6 +7,7 @@ from typing import TypedDict
 from typing import Union
 
 from pydantic import Field
+from pydantic import field_validator
 from pydantic import model_validator
 from pydantic import validate_call
 from typing_extensions import Annotated
@@ -36,6 +37,12 @@ class FirmwareModTask(ShpModel):
     verbose: Annotated[int, Field(ge=0, le=4)] = 2
     # ⤷ 0=Errors, 1=Warnings, 2=Info, 3=Debug
 
+    @field_validator("data")
+    @classmethod
+    def unify_path(cls, value: Union[str, Path]) -> str:
+        """Paths are also loaded as string from yaml."""
+        return value.as_posix() if isinstance(value, Path) else value
+
     @model_validator(mode="after")
     def post_validation(self) -> Self:
         if self.data_type in {
-- 
2.43.0


From 9222b93c47100bbf57d5f675b5d8606604ed206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 34/84] fix: find target in testbed when there are active
 observers without cape

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index a955c99..4a81f50 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -93,8 +93,8 @@ class Testbed(ShpModel):
 
     def get_observer(self, target_id: int) -> Observer:
         for _observer in self.observers:
-            if not _observer.active or not _observer.cape.active:
-                # skip decommissioned setups
+            if not _observer.active or _observer.cape is None or not _observer.cape.active:
+                # skip decommissioned & incomplete setups
                 continue
             if _observer.has_target(target_id):
                 return _observer
-- 
2.43.0


From 9c215d80a1b3470b04f3353cc0a94e6a2d4ce450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 35/84] fix: detect collisions of the IDs that are patched into
 firmware

---
 .../shepherd_core/data_models/experiment/experiment.py     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/experiment.py b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
index fcc6493..9fac693 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/experiment.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
@@ -75,12 +75,13 @@ class Experiment(ShpModel, title="Config of an Experiment"):
         for _config in configs:
             for _id in _config.target_IDs:
                 target_ids.append(_id)
-                Target(id=_id)
+                target = Target(id=_id)
                 # ⤷ this can raise exception for non-existing targets
+                if _config.custom_IDs is None:
+                    custom_ids.append(target.testbed_id)
+                    # ⤷ ID that gets used for firmware
             if _config.custom_IDs is not None:
                 custom_ids = custom_ids + _config.custom_IDs[: len(_config.target_IDs)]
-            else:
-                custom_ids = custom_ids + _config.target_IDs
         if len(target_ids) > len(set(target_ids)):
             raise ValueError("Target-ID used more than once in Experiment!")
         if len(target_ids) > len(set(custom_ids)):
-- 
2.43.0


From b7e05bf2abf679c15a2ba8cbe8aeb8a570aecdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 36/84] fix: observers of an experiment share one
 output-directory if start is asap

---
 .../shepherd_core/data_models/task/observer_tasks.py  | 11 +++++++++--
 .../shepherd_core/data_models/task/testbed_tasks.py   |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/task/observer_tasks.py b/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
index 2fdf1db..185b6d9 100644
--- a/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
+++ b/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
@@ -47,14 +47,21 @@ class ObserverTasks(ShpModel):
 
     @classmethod
     @validate_call
-    def from_xp(cls, xp: Experiment, tb: Testbed, tgt_id: IdInt) -> Self:
+    def from_xp(
+        cls, xp: Experiment, tb: Testbed, tgt_id: IdInt, time_asap: Optional[datetime] = None
+    ) -> Self:
+        """Create task-set.
+
+        time_asap: start-time for experiments without one,
+                   has to be identical for all observers of an experiment
+        """
         if not tb.shared_storage:
             raise ValueError("Implementation currently relies on shared storage!")
 
         t_start = (
             xp.time_start
             if isinstance(xp.time_start, datetime)
-            else datetime.now().astimezone() + timedelta(minutes=3)
+            else (time_asap or datetime.now().astimezone() + timedelta(minutes=3))
         )  # TODO: this is messed up, just a hotfix
 
         obs = tb.get_observer(tgt_id)
diff --git a/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py b/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py
index d8f62a6..f3bc1ec 100644
--- a/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py
+++ b/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py
@@ -1,5 +1,7 @@
 """Collection of tasks for all observers included in experiment."""
 
+from datetime import datetime
+from datetime import timedelta
 from typing import List
 from typing import Optional
 
@@ -36,7 +38,9 @@ class TestbedTasks(ShpModel):
             tb = Testbed()  # this will query the first (and only) entry of client
 
         tgt_ids = xp.get_target_ids()
-        obs_tasks = [ObserverTasks.from_xp(xp, tb, _id) for _id in tgt_ids]
+        time_asap = datetime.now().astimezone() + timedelta(minutes=3)
+        # ⤷ common fallback for all observers when experiment has no start-time
+        obs_tasks = [ObserverTasks.from_xp(xp, tb, _id, time_asap) for _id in tgt_ids]
         return cls(
             name=xp.name,
             observer_tasks=obs_tasks,
-- 
2.43.0


From 8d8391201a3463f24780f61e025b56c78457df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 37/84] fix: harvester-config without name or with one sample
 raises validation-error

---
 .../shepherd_core/data_models/content/virtual_harvester.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/virtual_harvester.py b/shepherd_core/shepherd_core/data_models/content/virtual_harvester.py
index 2edc6ed..3d1739f 100644
--- a/shepherd_core/shepherd_core/data_models/content/virtual_harvester.py
+++ b/shepherd_core/shepherd_core/data_models/content/virtual_harvester.py
@@ -76,7 +76,7 @@ class VirtualHarvesterConfig(ContentModel, title="Config for the Harvester"):
     def query_database(cls, values: dict) -> dict:
         values, chain = tb_client.try_completing_model(cls.__name__, values)
         values = tb_client.fill_in_user_data(values)
-        if values["name"] == "neutral":
+        if values.get("name") == "neutral":
             # TODO: same test is later done in calc_algorithm_num() again
             raise ValueError("Resulting Harvester can't be neutral")
         logger.debug("VHrv-Inheritances: %s", chain)
@@ -91,7 +91,8 @@ class VirtualHarvesterConfig(ContentModel, title="Config for the Harvester"):
             v_max = values.get("voltage_max_mV", 5_000)  # cls.voltage_max_mV)
             v_min = values.get("voltage_min_mV", 0)  # cls.voltage_min_mV)
             samples_n = values.get("samples_n", 8)  # cls.samples_n) TODO
-            values["voltage_step_mV"] = abs(v_max - v_min) / (samples_n - 1)
+            # too few samples are rejected by the field itself
+            values["voltage_step_mV"] = abs(v_max - v_min) / max(1, samples_n - 1)
 
         values["voltage_step_mV"] = max(
             10**3 * cal.dac_V_Hrv.raw_to_si(4), values["voltage_step_mV"]
-- 
2.43.0


From f52b1ba41ec4a04264d49093a46ac70ff2282a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 38/84] fix: tiny output-efficiency of virtual source is
 limited instead of raising OverflowError

---
 .../shepherd_core/data_models/content/virtual_source.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/virtual_source.py b/shepherd_core/shepherd_core/data_models/content/virtual_source.py
index 2cc900e..7880abc 100644
--- a/shepherd_core/shepherd_core/data_models/content/virtual_source.py
+++ b/shepherd_core/shepherd_core/data_models/content/virtual_source.py
@@ -346,7 +346,7 @@ class ConverterPRUConfig(ShpModel):
                 [min(255, round(256 * ival)) for ival in il] for il in data.LUT_input_efficiency
             ],
             LUT_out_inv_efficiency_n4=[
-                min((2**14), round((2**4) / value)) if (value > 0) else (2**14)
+                round(min((2**14), (2**4) / value)) if (value > 0) else (2**14)
                 for value in data.LUT_output_efficiency
             ],
         )
-- 
2.43.0


From 7afb1d20ed85c88fc360c1683628b23737be840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 39/84] fix: periodic gpio-events have exactly the configured
 count

---
 .../shepherd_core/data_models/experiment/observer_features.py  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
index 1fa133d..658cb16 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
@@ -115,8 +115,7 @@ class GpioEvent(ShpModel, title="Config for a GPIO-Event"):
         return self
 
     def get_events(self) -> np.ndarray:
-        stop = self.delay + self.count * self.period
-        return np.arange(self.delay, stop, self.period)
+        return self.delay + self.period * np.arange(self.count)
 
 
 class GpioActuation(ShpModel, title="Config for GPIO-Actuation"):
-- 
2.43.0


From 2f5a61f51e4ede822726040b50d3d74c17e653db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 40/84] fix: detect capes, targets and MAC-addresses used more
 than once in testbed independent of representation

---
 .../shepherd_core/data_models/testbed/testbed.py          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index 4a81f50..abf0158 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -65,13 +65,13 @@ class Testbed(ShpModel):
         for _obs in self.observers:
             observers.append(_obs.id)
             ips.append(_obs.ip)
-            macs.append(_obs.mac)
+            macs.append(_obs.mac.lower().replace("-", ":"))
             if _obs.cape is not None:
-                capes.append(_obs.cape)
+                capes.append(_obs.cape.id)
             if _obs.target_a is not None:
-                targets.append(_obs.target_a)
+                targets.append(_obs.target_a.id)
             if _obs.target_b is not None:
-                targets.append(_obs.target_b)
+                targets.append(_obs.target_b.id)
             eth_ports.append(_obs.eth_port)
         if len(observers) > len(set(observers)):
             raise ValueError("Observers used more than once in Testbed")
-- 
2.43.0


From bb2b31c88504b1dfc715af38971147bfac9ffb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 41/84] fix: observers of a testbed need unique names (key for
 their tasks and outputs)

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index abf0158..e5273e9 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -57,6 +57,7 @@ class Testbed(ShpModel):
     @model_validator(mode="after")
     def post_validation(self) -> Self:
         observers = []
+        names = []
         ips = []
         macs = []
         capes = []
@@ -64,6 +65,7 @@ class Testbed(ShpModel):
         eth_ports = []
         for _obs in self.observers:
             observers.append(_obs.id)
+            names.append(_obs.name)
             ips.append(_obs.ip)
             macs.append(_obs.mac.lower().replace("-", ":"))
             if _obs.cape is not None:
@@ -75,6 +77,8 @@ class Testbed(ShpModel):
             eth_ports.append(_obs.eth_port)
         if len(observers) > len(set(observers)):
             raise ValueError("Observers used more than once in Testbed")
+        if len(names) > len(set(names)):
+            raise ValueError("Observer-Names used more than once in Testbed")
         if len(ips) > len(set(ips)):
             raise ValueError("Observer-IP used more than once in Testbed")
         if len(macs) > len(set(macs)):
-- 
2.43.0


From 14980a33d77c716ba928a06322d4d68607e8a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 42/84] fix: target without id raises validation-error

---
 shepherd_core/shepherd_core/data_models/testbed/target.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/target.py b/shepherd_core/shepherd_core/data_models/testbed/target.py
index f64a94b..c242001 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/target.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/target.py
@@ -55,7 +55,7 @@ class Target(ShpModel, title="Target Node (DuT)"):
                 # ⤷ this will raise if default is faulty
             elif isinstance(values.get(_mcu), dict):
                 values[_mcu] = MCU(**values[_mcu])
-        if values.get("testbed_id") is None:
-            values["testbed_id"] = values.get("id") % 2**16
+        if values.get("testbed_id") is None and values.get("id") is not None:
+            values["testbed_id"] = int(values["id"]) % 2**16
 
         return values
-- 
2.43.0


From 51da6dda630fbb77955a7e2bda53626a1918006e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 43/84] fix: damaged embedded firmware raises value-error
 instead of internal error of decompressor

---
 shepherd_core/shepherd_core/fw_tools/converter.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/converter.py b/shepherd_core/shepherd_core/fw_tools/converter.py
index 07c8a87..607f850 100644
--- a/shepherd_core/shepherd_core/fw_tools/converter.py
+++ b/shepherd_core/shepherd_core/fw_tools/converter.py
@@ -45,6 +45,15 @@ def file_to_base64(file_path: Path) -> str:
     return base64.b64encode(file_cmpress).decode("ascii")
 
 
+def base64_to_bytes(content: str) -> bytes:
+    """Decode and decompress content."""
+    file_cmpress = base64.b64decode(content)
+    try:
+        return zstd.ZstdDecompressor().decompress(file_cmpress)
+    except (zstd.ZstdError, MemoryError) as err:
+        raise ValueError("Compressed content is damaged") from err
+
+
 @validate_call
 def base64_to_file(content: str, file_path: Path) -> None:
     """DeCompress and decode Content of file.
@@ -52,8 +61,7 @@ def base64_to_file(content: str, file_path: Path) -> None:
     - base64 adds ~33 % overhead
     - zstd compression reduces to ~ 1:3
     """
-    file_cmpress = base64.b64decode(content)
-    file_content = zstd.ZstdDecompressor().decompress(file_cmpress)
+    file_content = base64_to_bytes(content)
     if not file_path.parent.exists():
         file_path.parent.mkdir(parents=True)
     with file_path.resolve().open("wb") as file:
@@ -73,8 +81,7 @@ def file_to_hash(file_path: Path) -> str:
 @validate_call
 def base64_to_hash(content: str) -> str:
     """Convert base64-content to hash-value."""
-    file_cmpress = base64.b64decode(content)
-    file_content = zstd.ZstdDecompressor().decompress(file_cmpress)
+    file_content = base64_to_bytes(content)
     return hashlib.sha3_224(file_content).hexdigest()
 
 
-- 
2.43.0


From 8a234e0579ad9cf87baf81371eb9919373981c23 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 44/84] fix: reject files with unknown suffix, non-executable
 ELFs and foreign architectures as firmware

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 4 ++++
 shepherd_core/shepherd_core/fw_tools/patcher.py             | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index f0a25d9..d5ecd36 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -118,6 +118,8 @@ class Firmware(ContentModel, title="Firmware of Target"):
             kwargs["data_local"] = True
 
         if "data_type" not in kwargs:
+            if file.suffix.lower() not in suffix_to_DType:
+                raise ValueError(f"Firmware-type of '{file.name}' is unknown (suffix)")
             kwargs["data_type"] = suffix_to_DType[file.suffix.lower()]
 
         if kwargs["data_type"] == FirmwareDType.base64_hex:
@@ -132,6 +134,8 @@ class Firmware(ContentModel, title="Firmware of Target"):
 
         if kwargs["data_type"] == FirmwareDType.base64_elf:
             arch = fw_tools.read_arch(file)
+            if arch not in arch_to_mcu:
+                raise ValueError("File is not an executable ELF for the Testbed")
             if "msp430" in arch and not fw_tools.is_elf_msp430(file):
                 raise ValueError("File is not a ELF for msp430")
             if ("nrf52" in arch or "arm" in arch) and not fw_tools.is_elf_nrf52(file):
diff --git a/shepherd_core/shepherd_core/fw_tools/patcher.py b/shepherd_core/shepherd_core/fw_tools/patcher.py
index 946c359..ff57453 100644
--- a/shepherd_core/shepherd_core/fw_tools/patcher.py
+++ b/shepherd_core/shepherd_core/fw_tools/patcher.py
@@ -77,8 +77,8 @@ def read_arch(file_elf: Path) -> Optional[str]:
     if ELF is None:
         raise RuntimeError(elf_error_text)
     elf = ELF(path=file_elf)
-    if "exec" in elf.elftype.lower():
-        return elf.arch.lower()
+    if "exec" in str(elf.elftype).lower():
+        return str(elf.arch).lower()
     logger.error("ELF is not Executable")
     return None
 
-- 
2.43.0


From 0f5a0c75ba0190910bdc71e34ee21de7dc59d034 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 45/84] fix: compare hash of linked firmware with its file
 instead of decoding the path

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index d5ecd36..f91e371 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -158,6 +158,9 @@ class Firmware(ContentModel, title="Firmware of Target"):
         if path is not None and path.is_file():
             hash_new = fw_tools.file_to_hash(path)
             match = self.data_hash == hash_new
+        elif self.data_type in {FirmwareDType.path_hex, FirmwareDType.path_elf}:
+            path_data = Path(self.data)
+            match = path_data.is_file() and self.data_hash == fw_tools.file_to_hash(path_data)
         else:
             hash_new = fw_tools.base64_to_hash(self.data)
             match = self.data_hash == hash_new
-- 
2.43.0


From e93169692f6c194597d8ee138e90a1c6b65ddd99 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 46/84] fix: linked firmware without path raises value-error

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index f91e371..597bf37 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -85,7 +85,7 @@ class Firmware(ContentModel, title="Firmware of Target"):
         }:
             try:
                 _ = Path(values.get("data"))
-            except (SyntaxError, NameError):
+            except (SyntaxError, NameError, TypeError):
                 raise ValueError("Firmware-Path is invalid") from None
         return tb_client.fill_in_user_data(values)
 
-- 
2.43.0


From 33c4db03121d441ac1f5998136c27e7d1dca880c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 47/84] fix: check range of start-address when detecting
 firmware for msp430

---
 shepherd_core/shepherd_core/fw_tools/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index 088a1b5..b5d9143 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -54,7 +54,7 @@ def is_hex_msp430(file: Path) -> bool:
         if 0xFFFE not in ih.addresses():
             return False
         value = int.from_bytes(ih.gets(0xFFFE, 2), byteorder="little", signed=False)
-        if 0x4000 > value >= 0xFF80:
+        if not 0x4000 <= value < 0xFF80:
             return False
 
         # conservative test for now - should be well below 128 kB + 8kB for msp430fr5962
-- 
2.43.0


From b3fcc3aa540462bcbfc96d4dc8f5ed53c81c0f19 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 48/84] fix: use size of firmware (not of python-objects) to
 detect its architecture

---
 shepherd_core/shepherd_core/fw_tools/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index b5d9143..1f2494b 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -58,7 +58,7 @@ def is_hex_msp430(file: Path) -> bool:
             return False
 
         # conservative test for now - should be well below 128 kB + 8kB for msp430fr5962
-        return ih.get_memory_size() <= 270_000
+        return len(ih) <= 270_000
     return False
 
 
@@ -73,7 +73,7 @@ def is_hex_nrf52(file: Path) -> bool:
         ih = IntelHex(file.as_posix())
         # conservative test for now - should be between 0 and 1 MB + 256 kB,
         # but lately showed much higher values > 4 MB
-        return ih.get_memory_size() > 0
+        return len(ih) > 0
     return False
 
 
-- 
2.43.0


From 0d2da6df5d83f07758d9e676766b8f6c05bfc872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 49/84] fix: unpowered constant-power target draws no current
 instead of raising ZeroDivisionError

---
 shepherd_core/shepherd_core/vsource/target_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index e682071..81932dc 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -122,6 +122,8 @@ class ConstantPowerTarget(TargetABC):
         self.P_sleep_fW = 1e15 * P_sleep_W
 
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
+        if voltage_uV <= 0:
+            return 0
         return (self.P_active_fW if pwr_good else self.P_sleep_fW) / voltage_uV  # = nA
 
 
-- 
2.43.0


From 60613614a894e002bd9179e5ede14c4647ba48f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 50/84] fix: virtual source without boost & feedback takes no
 power from inputs below storage-voltage (with series resistor)

---
 shepherd_core/shepherd_core/vsource/virtual_converter_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_converter_model.py b/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
index 8d0c1f5..018e506 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
@@ -127,6 +127,7 @@ class VirtualConverterModel:
             # TODO: vdrop in case of v_input > v_storage (non-boost)
         elif self.enable_storage:
             # no boost, but cap, for ie. diode+cap (+resistor)
+            is_blocked = input_voltage_uV < self.V_mid_uV
             V_diff_uV = (
                 (input_voltage_uV - self.V_mid_uV) if (input_voltage_uV >= self.V_mid_uV) else 0
             )
@@ -139,7 +140,7 @@ class VirtualConverterModel:
             # IF input==ivcurve request new CV
             if self.feedback_to_hrv:
                 self.V_input_request_uV = self.V_mid_uV + V_res_drop_uV + self._cfg.V_input_drop_uV
-            elif input_voltage_uV < self.V_mid_uV:
+            elif is_blocked:
                 # without feedback there is no usable energy here
                 input_voltage_uV = 0
         else:
-- 
2.43.0


From c1f088f975c4f83435853c1079908a3fad8777e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 51/84] fix: cv-harvester also updates when set-point is
 centered between two samples

---
 shepherd_core/shepherd_core/vsource/virtual_harvester_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
index 41cf950..cc21217 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
@@ -121,7 +121,7 @@ class VirtualHarvesterModel:
                 self.current_delta = _current_nA - self.current_last
                 self.voltage_delta = _voltage_uV - self.voltage_last
                 # TODO: voltage_delta is static
-            elif distance_last < distance_now and distance_last < self.voltage_step_x4_uV:
+            elif distance_last <= distance_now and distance_last < self.voltage_step_x4_uV:
                 self.voltage_hold = self.voltage_last
                 self.current_hold = self.current_last
                 self.current_delta = _current_nA - self.current_last
-- 
2.43.0


From 49fa59bb47fc8a094e911e6a5fbdf8ed00e52ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 52/84] fix: linear extrapolation of cv-harvester does not
 return negative voltage or current

---
 .../shepherd_core/vsource/virtual_harvester_model.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
index cc21217..d80bf08 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
@@ -129,8 +129,8 @@ class VirtualHarvesterModel:
         elif self.lin_extrapolation:
             # apply the proper delta if needed
             if (self.voltage_hold < self.voltage_set_uV) == (self.voltage_delta > 0):
-                self.voltage_hold += self.voltage_delta
-                self.current_hold += self.current_delta
+                self.voltage_hold = max(0, self.voltage_hold + self.voltage_delta)
+                self.current_hold = max(0, self.current_hold + self.current_delta)
             else:
                 if self.voltage_hold > self.voltage_delta:
                     self.voltage_hold -= self.voltage_delta
-- 
2.43.0


From cc5b0d587a0747fdfc7c3819ee5018a23085ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 53/84] fix: size internal stats of source-simulation by
 processed samples (recordings with gaps)

---
 .../shepherd_core/vsource/virtual_source_simulation.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
index f014de8..e6f8d8f 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
@@ -62,7 +62,7 @@ def simulate_source(
     e_out_Ws = 0.0
     if monitor_internals and path_output:
         stats_sample = 0
-        stats_internal = np.empty((round(file_inp.runtime_s * file_inp.samplerate_sps), 11))
+        stats_internal = np.empty((file_inp.buffers_n * file_inp.samples_per_buffer, 11))
         try:
             # keep dependencies low
             from matplotlib import pyplot as plt
-- 
2.43.0


From bb227b26f70145647193e489386d783be5d07d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 54/84] fix: virtual source without config falls back to
 neutral one instead of raising validation-error

---
 shepherd_core/shepherd_core/vsource/virtual_source_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_source_model.py b/shepherd_core/shepherd_core/vsource/virtual_source_model.py
index 4e1b4ab..3c82789 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_source_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_source_model.py
@@ -38,7 +38,7 @@ class VirtualSourceModel:
         self._cal_emu: CalibrationEmulator = cal_emu
         self._cal_pru: PruCalibration = PruCalibration(cal_emu)
 
-        self.cfg_src = VirtualSourceConfig() if vsrc is None else vsrc
+        self.cfg_src = VirtualSourceConfig(name="neutral") if vsrc is None else vsrc
         cnv_config = ConverterPRUConfig.from_vsrc(
             self.cfg_src,
             dtype_in=dtype_in,
-- 
2.43.0


From 532b3552c5ed3a09db62f7903d841cef58697b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 55/84] fix: inventory-warnings name the affected hosts instead
 of raising attribute-error

---
 shepherd_core/shepherd_core/inventory/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/__init__.py b/shepherd_core/shepherd_core/inventory/__init__.py
index 20e2fe9..41339d3 100644
--- a/shepherd_core/shepherd_core/inventory/__init__.py
+++ b/shepherd_core/shepherd_core/inventory/__init__.py
@@ -75,12 +75,15 @@ class InventoryList(ShpModel):
 
     def warn(self) -> dict:
         warnings = {}
+        h_uptime, h_delta = [], []
         ts_earl = min([_e.created.timestamp() for _e in self.elements])
         for _e in self.elements:
             if _e.uptime > timedelta(hours=30).total_seconds():
-                warnings["uptime"] = f"[{self.hostname}] restart is recommended"
+                h_uptime.append(_e.hostname)
+                warnings["uptime"] = f"[{', '.join(h_uptime)}] restart is recommended"
             if (_e.created.timestamp() - ts_earl) > 10:
-                warnings["time_delta"] = f"[{self.hostname}] time-sync has failed"
+                h_delta.append(_e.hostname)
+                warnings["time_delta"] = f"[{', '.join(h_delta)}] time-sync has failed"
 
         # turn  Dict[hostname][type] = val
         # to    Dict[type][val] = List[hostnames]
-- 
2.43.0


From 9db10a997ffb387e74c03dd1b0008839ac7005b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 56/84] fix: inventory-warnings handle unhashable items like
 interfaces

---
 shepherd_core/shepherd_core/inventory/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/inventory/__init__.py b/shepherd_core/shepherd_core/inventory/__init__.py
index 41339d3..d1d0003 100644
--- a/shepherd_core/shepherd_core/inventory/__init__.py
+++ b/shepherd_core/shepherd_core/inventory/__init__.py
@@ -9,6 +9,7 @@ This will collect:
 from datetime import datetime
 from datetime import timedelta
 from pathlib import Path
+from typing import Hashable
 from typing import List
 
 from pydantic import Field
@@ -94,6 +95,8 @@ class InventoryList(ShpModel):
         result = {}
         for _host, _types in _inp.items():
             for _type, _val in _types.items():
+                if not isinstance(_val, Hashable):
+                    continue  # i.e. interfaces
                 if _type not in result:
                     result[_type] = {}
                 if _val not in result[_type]:
-- 
2.43.0


From 8d57182ed48130e2e4cb1fd7c0ea42991779a173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 57/84] fix: inventory-warnings handle items that no host
 provides

---
 shepherd_core/shepherd_core/inventory/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/inventory/__init__.py b/shepherd_core/shepherd_core/inventory/__init__.py
index d1d0003..fd47397 100644
--- a/shepherd_core/shepherd_core/inventory/__init__.py
+++ b/shepherd_core/shepherd_core/inventory/__init__.py
@@ -114,7 +114,7 @@ class InventoryList(ShpModel):
             "zstandard",
         ]
         for _key in t_unique:
-            if rescnt[_key] > 1:
+            if rescnt.get(_key, 0) > 1:
                 warnings[_key] = f"[{_key}] VersionMismatch - {result[_key]}"
 
         # TODO: finish with more potential warnings
-- 
2.43.0


From 9b73c52ad90a6f98d05a828ccd82db924200c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 58/84] fix: inventory-warnings consider every host if names
 are not unique

---
 shepherd_core/shepherd_core/inventory/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/__init__.py b/shepherd_core/shepherd_core/inventory/__init__.py
index fd47397..9ff4595 100644
--- a/shepherd_core/shepherd_core/inventory/__init__.py
+++ b/shepherd_core/shepherd_core/inventory/__init__.py
@@ -88,12 +88,12 @@ class InventoryList(ShpModel):
 
         # turn  Dict[hostname][type] = val
         # to    Dict[type][val] = List[hostnames]
-        _inp = {
-            _e.hostname: _e.model_dump(exclude_unset=True, exclude_defaults=True)
-            for _e in self.elements
-        }
+        _inp = [
+            (_e.hostname, _e.model_dump(exclude_unset=True, exclude_defaults=True))
+            for _e in self.elements  # hostnames are not guaranteed to be unique
+        ]
         result = {}
-        for _host, _types in _inp.items():
+        for _host, _types in _inp:
             for _type, _val in _types.items():
                 if not isinstance(_val, Hashable):
                     continue  # i.e. interfaces
-- 
2.43.0


From b5260166757582508bd74eddb434e22df2a26231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 59/84] fix: interfaces of inventory survive storing to file
 (tuple became list)

---
 shepherd_core/shepherd_core/inventory/system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index 0ac1997..9ff5ce0 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -5,8 +5,10 @@ import subprocess
 import time
 from datetime import datetime
 from pathlib import Path
+from typing import Dict
 from typing import List
 from typing import Optional
+from typing import Tuple
 
 from typing_extensions import Self
 
@@ -44,7 +46,7 @@ class SystemInventory(ShpModel):
 
     hostname: str
 
-    interfaces: dict = {}  # noqa: RUF012
+    interfaces: Dict[str, Tuple[str, ...]] = {}  # noqa: RUF012
     # ⤷ tuple with
     #   ip IPvAnyAddress
     #   mac MACStr
-- 
2.43.0


From cd41c1b7e9ccb13a832c73985458de30cfb670e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 60/84] fix: collecting inventory without psutil or right after
 boot raises validation-error

---
 shepherd_core/shepherd_core/inventory/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index 9ff5ce0..08a9353 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -21,7 +21,7 @@ except ImportError:
     psutil = None
 
 from pydantic import ConfigDict
-from pydantic.types import PositiveInt
+from pydantic.types import NonNegativeInt
 
 from ..data_models import ShpModel
 
@@ -29,7 +29,7 @@ from ..data_models import ShpModel
 class SystemInventory(ShpModel):
     """System / OS related inventory model."""
 
-    uptime: PositiveInt
+    uptime: NonNegativeInt
     # ⤷ seconds
     timestamp: datetime
     # time_delta: timedelta = timedelta(0)  # noqa: ERA001
-- 
2.43.0


From a0cf47f02b33e234715d7df5c1ca2d262ba4568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 61/84] fix: optional lists of inventory can be left out

---
 shepherd_core/shepherd_core/inventory/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index 08a9353..5ac4463 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -51,8 +51,8 @@ class SystemInventory(ShpModel):
     #   ip IPvAnyAddress
     #   mac MACStr
 
-    fs_root: List[str] = None
-    beagle: List[str] = None
+    fs_root: Optional[List[str]] = None
+    beagle: Optional[List[str]] = None
 
     model_config = ConfigDict(str_min_length=0)
 
-- 
2.43.0


From f43c95506e9eec918e3ba642126889842640c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 62/84] fix: ivonne-conversion keeps the requested duration
 despite float-rounding

---
 shepherd_data/shepherd_data/ivonne.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 0077623..fcf4a35 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -122,7 +122,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], round(duration_s * self.samplerate_sps))
         else:
             df_elements_n = self._df.shape[0]
 
@@ -194,7 +194,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], round(duration_s * self.samplerate_sps))
         else:
             df_elements_n = self._df.shape[0]
 
@@ -252,7 +252,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], round(duration_s * self.samplerate_sps))
         else:
             df_elements_n = self._df.shape[0]
 
-- 
2.43.0


From 05abb39a2456ac5e42452ac57c24b09f4d2f14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 63/84] fix: ivonne-conversion handles short (last) blocks and
 rows beside the time-grid of the output

---
 shepherd_data/shepherd_data/ivonne.py | 60 +++++++++++++++++----------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index fcf4a35..5489910 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -21,6 +21,7 @@ from typing import Type
 
 import numpy as np
 import pandas as pd
+from scipy.interpolate import make_interp_spline
 from tqdm import trange
 from typing_extensions import Self
 
@@ -102,6 +103,36 @@ class Reader:
         self.file_size = self.file_path.stat().st_size
         self.data_rate = self.file_size / self.runtime_s if self.runtime_s > 0 else 0
 
+    def _get_block(self, idx: int, idx_top: int) -> slice:
+        """Select rows for a block, with enough neighbors for an interpolation."""
+        start = max(0, min(idx, idx_top - 4))
+        return slice(start, max(idx_top + 1, start + 4))
+
+    def _upsample(
+        self, df_block: pd.DataFrame, interval_us: int, idx: int, idx_top: int
+    ) -> pd.DataFrame:
+        """Interpolate between rows idx and idx_top (excluded) with constant time-steps.
+
+        The time-grid begins with the first row of the whole trace, so blocks are seamless.
+        Rows do not have to be part of the grid.
+        """
+        t_ns = np.round(self._df["time"].to_numpy(dtype=float) * 1e9).astype(np.int64)
+        step_ns = 1000 * interval_us
+        idx_top = min(idx_top, len(t_ns) - 1)
+        steps = np.arange(
+            -((t_ns[0] - t_ns[idx]) // step_ns), -((t_ns[0] - t_ns[idx_top]) // step_ns)
+        )
+        if len(steps) < 1:
+            return df_block.iloc[:0]
+        t_new = t_ns[0] + step_ns * steps
+        t_blk = np.round(df_block["time"].to_numpy(dtype=float) * 1e9).astype(np.int64)
+        spline = make_interp_spline(
+            1e-9 * (t_blk - t_blk[0]), df_block.to_numpy(dtype=float), k=min(3, len(t_blk) - 1)
+        )
+        df_new = pd.DataFrame(spline(1e-9 * (t_new - t_blk[0])), columns=df_block.columns)
+        df_new["time"] = 1e-9 * t_new
+        return df_new
+
     def convert_2_ivcurves(
         self,
         shp_output: Path,
@@ -141,15 +172,8 @@ class Reader:
 
             for idx in job_iter:
                 idx_top = min(idx + max_elements, df_elements_n)
-                df_slice = self._df.iloc[idx : idx_top + 1].copy()
-                df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
-                df_slice = df_slice.set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{curve_interval_us}us")
-                    .interpolate(method="cubic")
-                    .iloc[:-1]
-                )
+                df_slice = self._df.iloc[self._get_block(idx, idx_top)].copy()
+                df_slice = self._upsample(df_slice, curve_interval_us, idx, idx_top)
 
                 for _, coeffs in df_slice.iterrows():
                     i_proto = iv_model(v_proto, coeffs)
@@ -220,15 +244,12 @@ class Reader:
                 # select (max_elements + 1) elements, so upsampling is without gaps
                 # -> drop a sample at the end
                 idx_top = min(idx + max_elements, df_elements_n)
-                df_slice = self._df.iloc[idx : idx_top + 1].copy()
+                df_slice = self._df.iloc[self._get_block(idx, idx_top)].copy()
                 df_slice.loc[:, "voc"] = get_voc(df_slice)
                 df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
                 df_slice = tracker.process(df_slice)
-                df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
-                df_slice = df_slice[["time", "v", "i", "timestamp"]].set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
+                df_slice = self._upsample(
+                    df_slice[["time", "v", "i"]], interval_us, idx, idx_top
                 )
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
@@ -271,15 +292,12 @@ class Reader:
                 # select (max_elements + 1) elements, so upsampling is without gaps
                 # -> drop a sample at the end
                 idx_top = min(idx + max_elements, df_elements_n)
-                df_slice = self._df.iloc[idx : idx_top + 1].copy()
+                df_slice = self._df.iloc[self._get_block(idx, idx_top)].copy()
                 df_slice.loc[:, "voc"] = get_voc(df_slice)
                 df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
                 df_slice.loc[:, "isc"] = get_isc(df_slice)
-                df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
-                df_slice = df_slice[["time", "voc", "isc", "timestamp"]].set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
+                df_slice = self._upsample(
+                    df_slice[["time", "voc", "isc"]], interval_us, idx, idx_top
                 )
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
-- 
2.43.0


From 8edbce3ae7f691d14d34fb1a8db28bbfda190fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 64/84] fix: open-circuit-tracker can determine the
 open-circuit voltage on its own

---
 shepherd_data/shepherd_data/mppt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 7ce7015..38a3447 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -80,7 +80,7 @@ class OpenCircuitTracker(MPPTracker):
         """
         coeffs["icurve"] = coeffs.apply(lambda x: iv_model(self.v_proto, x), axis=1)
         if "voc" not in coeffs.columns:
-            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["ivcurve"]), axis=1)
+            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
             lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
             axis=1,
-- 
2.43.0


From 4a80816a3724697c0ee0f4d4cec3ec3b13199b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 65/84] fix: open-circuit-tracker handles darkness
 (open-circuit voltage of zero)

---
 shepherd_data/shepherd_data/mppt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 38a3447..87c343a 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -82,7 +82,7 @@ class OpenCircuitTracker(MPPTracker):
         if "voc" not in coeffs.columns:
             coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
-            lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
+            lambda x: max(0, np.count_nonzero(self.v_proto < self.ratio * x["voc"]) - 1),
             axis=1,
         )
         coeffs["i"] = coeffs.apply(lambda x: x["icurve"][x["rvoc_pos"]], axis=1)
-- 
2.43.0


From 38a334d1759ae5b5a742ac06fb272cee839f4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 66/84] fix: open-circuit voltage beyond the curve is not
 reported as zero

---
 shepherd_data/shepherd_data/mppt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 87c343a..8c34eb9 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -36,7 +36,8 @@ def find_oc(v_arr: np.ndarray, i_arr: np.ndarray, ratio: float = 0.05) -> np.nda
     Searches last current value that is above a certain ratio of the short-circuit
     current.
     """
-    return v_arr[np.argmax(i_arr < i_arr[0] * ratio)]
+    below = i_arr < i_arr[0] * ratio
+    return v_arr[np.argmax(below)] if below.any() else v_arr[-1]
 
 
 class MPPTracker(ABC):
-- 
2.43.0


From e425da2d48c8f6ecd2700fcf04ee7b6ed59577ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 67/84] fix: interpolation of ivonne-traces does not exceed the
 voltage-limit

---
 shepherd_data/shepherd_data/ivonne.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 5489910..b6dca50 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -251,6 +251,7 @@ class Reader:
                 df_slice = self._upsample(
                     df_slice[["time", "v", "i"]], interval_us, idx, idx_top
                 )
+                df_slice.loc[df_slice["v"] >= v_max, "v"] = v_max  # overshoot
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
                     df_slice["v"].to_numpy(),
@@ -299,6 +300,7 @@ class Reader:
                 df_slice = self._upsample(
                     df_slice[["time", "voc", "isc"]], interval_us, idx, idx_top
                 )
+                df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max  # overshoot
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
                     df_slice["voc"].to_numpy(),
-- 
2.43.0


From 64a7d913a1917f3d556774ef11b161391f06035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 68/84] fix: web-client uses the provided token instead of
 ignoring it

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index a86d391..b4c2857 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -92,7 +92,7 @@ class WebClient(AbcClient):
             with token.resolve().open() as file:
                 self._token = file.read()
         elif isinstance(token, str):
-            self._token = self._token
+            self._token = token
 
         if isinstance(server, str):
             self._server = server.lower()
-- 
2.43.0


From 692601063cfc4fc0ceaed40858d2051b7c351325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 69/84] fix: web-client can insert models with
 network-addresses

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index b4c2857..5b524b3 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -51,7 +51,7 @@ class WebClient(AbcClient):
     def insert(self, data: ShpModel) -> bool:
         wrap = Wrapper(
             datatype=type(data).__name__,
-            parameters=data.model_dump(),
+            parameters=data.model_dump(mode="json"),
         )
         r = self._req.post(self._server + "/add", data=wrap.model_dump_json(), timeout=2)
         r.raise_for_status()
-- 
2.43.0


From 8cb16d26a0ee5eea15010d30a59f819667445c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 70/84] fix: local timezone is the one in effect, not the one
 with daylight saving

---
 shepherd_core/shepherd_core/data_models/base/timezone.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/timezone.py b/shepherd_core/shepherd_core/data_models/base/timezone.py
index 69ff3b5..f25fe4a 100644
--- a/shepherd_core/shepherd_core/data_models/base/timezone.py
+++ b/shepherd_core/shepherd_core/data_models/base/timezone.py
@@ -8,9 +8,9 @@ from datetime import timezone
 
 def local_tz() -> timezone:
     """Query the local timezone of the user."""
-    if time.daylight:
-        return timezone(timedelta(seconds=-time.altzone), time.tzname[1])
-    return timezone(timedelta(seconds=-time.timezone), time.tzname[0])
+    now = time.localtime()
+    # ⤷ note: time.daylight only tells if there is a DST, not if it is in effect
+    return timezone(timedelta(seconds=now.tm_gmtoff), now.tm_zone)
 
 
 def local_now() -> datetime:
-- 
2.43.0


From 940d8f05811d332e860e85bad0b82af6a50a5ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 71/84] fix: compression-level can be given as number (as
 documented)

---
 shepherd_core/shepherd_core/data_models/task/emulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/task/emulation.py b/shepherd_core/shepherd_core/data_models/task/emulation.py
index 579bd44..cd1d510 100644
--- a/shepherd_core/shepherd_core/data_models/task/emulation.py
+++ b/shepherd_core/shepherd_core/data_models/task/emulation.py
@@ -36,6 +36,11 @@ class Compression(str, Enum):
     # NOTE: lzf & external file-compression (xz or zstd) work better than gzip
     #       -> even with additional compression
 
+    @classmethod
+    def _missing_(cls, value: object) -> Optional["Compression"]:
+        """Accept the level of gzip as number."""
+        return cls.gzip1 if type(value) is int and value == 1 else None
+
 
 compressions_allowed: list = [None, "lzf", 1]
 c_translate = {"lzf": "lzf", "1": 1, "None": None, None: None}
-- 
2.43.0


From cc0a89c868c1b8c16ee747c5d80b51edb44e3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 72/84] fix: plots include the end of recordings that are no
 multiple of 100 ms

---
 shepherd_data/shepherd_data/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index bb46d8f..cf53206 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -473,12 +473,14 @@ class Reader(CoreReader):
         """
         if self.get_datatype() == "ivcurve":
             self._logger.warning("Plot-Function was not written for IVCurves.")
+        duration_s = self.ds_voltage.shape[0] / self.samplerate_sps
+        # ⤷ .runtime_s is rounded
         if not isinstance(start_s, (float, int)):
             start_s = 0
         if not isinstance(end_s, (float, int)):
-            end_s = self.runtime_s
+            end_s = duration_s
         start_s = max(0, start_s)
-        end_s = min(self.runtime_s, end_s)
+        end_s = min(duration_s, end_s)
         start_sample = round(start_s * self.samplerate_sps)
         end_sample = round(end_s * self.samplerate_sps)
         if end_sample - start_sample < 5:
-- 
2.43.0


From de076d21509b3506f42e85342f17d1d74642583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 73/84] fix: multiplot without plottable recordings does not
 crash

---
 shepherd_data/shepherd_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index cf53206..1394616 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -616,6 +616,9 @@ class Reader(CoreReader):
         :param height: plot-height
         :param only_pwr: plot power-trace instead of voltage, current & power
         """
+        if len(data) < 1:
+            logger.warning("No data for plot, will skip!")
+            return None
         start_str = f"{data[0]['start_s']:.3f}".replace(".", "s")
         end_str = f"{data[0]['end_s']:.3f}".replace(".", "s")
         plot_path = (
-- 
2.43.0


From 7689c3f1fa0f6657ec873695e518e523fb5dc3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 74/84] fix: interrupted or failing append leaves no partial
 samples in recording

---
 shepherd_core/shepherd_core/writer.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 6789822..5e25a96 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -341,15 +341,22 @@ class Writer(Reader):
 
         len_old = self.ds_voltage.shape[0]
 
-        # resize dataset
-        self.ds_time.resize((len_old + len_new,))
-        self.ds_voltage.resize((len_old + len_new,))
-        self.ds_current.resize((len_old + len_new,))
-
-        # append new data
-        self.ds_time[len_old : len_old + len_new] = timestamp[:len_new]
-        self.ds_voltage[len_old : len_old + len_new] = voltage[:len_new]
-        self.ds_current[len_old : len_old + len_new] = current[:len_new]
+        try:
+            # resize dataset
+            self.ds_time.resize((len_old + len_new,))
+            self.ds_voltage.resize((len_old + len_new,))
+            self.ds_current.resize((len_old + len_new,))
+
+            # append new data
+            self.ds_time[len_old : len_old + len_new] = timestamp[:len_new]
+            self.ds_voltage[len_old : len_old + len_new] = voltage[:len_new]
+            self.ds_current[len_old : len_old + len_new] = current[:len_new]
+        except BaseException:
+            # remove partial data, i.e. when interrupted or if data was not usable
+            self.ds_time.resize((len_old,))
+            self.ds_voltage.resize((len_old,))
+            self.ds_current.resize((len_old,))
+            raise
 
     def append_iv_data_si(
         self,
-- 
2.43.0


From de7feea158ddff7020b0e5f242bdbb3fbc44a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:33 +0000
Subject: [PATCH 75/84] fix: dots in firmware-name are no suffix, names and
 files stay distinct

---
 .../shepherd_core/data_models/content/firmware.py      | 10 +++++++++-
 .../shepherd_core/data_models/task/firmware_mod.py     |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 597bf37..8708c43 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -170,6 +170,14 @@ class Firmware(ContentModel, title="Firmware of Target"):
             # TODO: it might be more appropriate to raise here
         return match
 
+    def get_file_name(self) -> str:
+        """Name of firmware with a suffix (that can be adapted safely).
+
+        Note: dots in names (i.e. of version-numbers) are no suffix
+        """
+        has_suffix = Path(self.name).suffix.lower() in suffix_to_DType
+        return self.name if has_suffix else f"{self.name}.hex"
+
     @validate_call
     def extract_firmware(self, file: Path) -> Path:
         """Store embedded fw-data in file.
@@ -178,7 +186,7 @@ class Firmware(ContentModel, title="Firmware of Target"):
         - if provided path is a directory, the firmware-name is used
         """
         if file.is_dir():
-            file = file / self.name
+            file = file / self.get_file_name()
         file_new = fw_tools.extract_firmware(self.data, self.data_type, file)
         self.compare_hash(file_new)
         return file_new
diff --git a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
index f8888be..f8ef10c 100644
--- a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
+++ b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
@@ -94,6 +94,6 @@ class FirmwareModTask(ShpModel):
         fw.compare_hash()
         path = kwargs.get("firmware_file")
         if path is not None and path.is_dir():
-            path_new: Path = path / fw.name
+            path_new: Path = path / fw.get_file_name()
             kwargs["firmware_file"] = path_new.with_suffix(".hex")
         return cls(**kwargs)
-- 
2.43.0


From c96acc91c3e99a2374e9fd78a2db3d84823aaa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 76/84] fix: programming-task accepts every voltage a
 controller may have (up to 5 V)

---
 shepherd_core/shepherd_core/data_models/task/programming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/task/programming.py b/shepherd_core/shepherd_core/data_models/task/programming.py
index e54470e..98395c6 100644
--- a/shepherd_core/shepherd_core/data_models/task/programming.py
+++ b/shepherd_core/shepherd_core/data_models/task/programming.py
@@ -30,7 +30,7 @@ class ProgrammingTask(ShpModel):
     mcu_port: MCUPort = 1
     mcu_type: SafeStr
     # ⤷ must be either "nrf52" or "msp430" ATM, TODO: clean xp to tasks
-    voltage: Annotated[float, Field(ge=1, lt=5)] = 3
+    voltage: Annotated[float, Field(ge=1, le=5)] = 3
     datarate: Annotated[int, Field(gt=0, le=1_000_000)] = 200_000
     protocol: ProgrammerProtocol
 
-- 
2.43.0


From 5fa374ef900fdea3e8d4996f85b60eca4c9bff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 77/84] fix: metadata of recordings keeps texts that look like
 impossible dates or numbers

---
 shepherd_core/shepherd_core/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 255b23b..fbd4b9f 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -623,7 +623,8 @@ class Reader:
         for attr in node.attrs:
             attr_value = node.attrs[attr]
             if isinstance(attr_value, str):
-                with contextlib.suppress(yaml.YAMLError):
+                with contextlib.suppress(yaml.YAMLError, ValueError):
+                    # ⤷ impossible dates & numbers raise ValueError
                     attr_value = yaml.safe_load(attr_value)
             elif "int" in str(type(attr_value)):
                 # TODO: why not isinstance? can it be List[int] other complex type?
-- 
2.43.0


From 15be509ba62d9fa708eda740c8f54e0f87455409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 78/84] fix: metadata of recordings can contain arrays as
 attributes

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index fbd4b9f..cf6a298 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -626,6 +626,8 @@ class Reader:
                 with contextlib.suppress(yaml.YAMLError, ValueError):
                     # ⤷ impossible dates & numbers raise ValueError
                     attr_value = yaml.safe_load(attr_value)
+            elif isinstance(attr_value, np.ndarray):
+                attr_value = attr_value.tolist()
             elif "int" in str(type(attr_value)):
                 # TODO: why not isinstance? can it be List[int] other complex type?
                 attr_value = int(attr_value)
-- 
2.43.0


From 9a2845abf2a8d27a7e4882b4ddc54030b467bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 79/84] fix: firmware generator failed for every firmware, as
 paths have no .endswith()

---
 extra/gen_firmwares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/gen_firmwares.py b/extra/gen_firmwares.py
index 9c87b49..697b1d4 100644
--- a/extra/gen_firmwares.py
+++ b/extra/gen_firmwares.py
@@ -45,7 +45,7 @@ if __name__ == "__main__":
 
         for _fw, _descr in metadata.items():
             path_sub = path_fw / _fw
-            files_elf = [each for each in path_sub.iterdir() if each.endswith(".elf")]
+            files_elf = sorted(path_sub.glob("*.elf"))
 
             if len(files_elf) > 1:
                 logger.warning("More than one .ELF in directory -> will use first of %s", files_elf)
@@ -69,7 +69,7 @@ if __name__ == "__main__":
             # debug-part below
             sizeof: Dict[str, int] = {}
             sizeof["elf"] = path_elf.stat().st_size
-            files_hex = [each for each in path_sub.iterdir() if each.endswith(".hex")]
+            files_hex = sorted(path_sub.glob("*.hex"))
             if files_hex:
                 sizeof["hex"] = (path_sub / files_hex[0]).stat().st_size
             file_temp = path_here / "temp" / "demo_fw.yaml"
-- 
2.43.0


From 2a37dc29ec2093e9ce47f25c928fa7cde8189cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 80/84] fix: firmware generator stopped at the first entry
 without a firmware-file instead of skipping it

---
 extra/gen_firmwares.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/gen_firmwares.py b/extra/gen_firmwares.py
index 697b1d4..9ef8625 100644
--- a/extra/gen_firmwares.py
+++ b/extra/gen_firmwares.py
@@ -47,6 +47,9 @@ if __name__ == "__main__":
             path_sub = path_fw / _fw
             files_elf = sorted(path_sub.glob("*.elf"))
 
+            if len(files_elf) < 1:
+                logger.error("FW not found, will skip: %s", path_sub.as_posix())
+                continue
             if len(files_elf) > 1:
                 logger.warning("More than one .ELF in directory -> will use first of %s", files_elf)
             path_elf = path_sub / files_elf[0]
-- 
2.43.0


From 4802e036412d9a64982d2b4a08975981dbcbb308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 81/84] fix: links with very weak signal got a negative
 line-width

---
 extra/link-visualizer/create_link_svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/link-visualizer/create_link_svg.py b/extra/link-visualizer/create_link_svg.py
index 3c586d5..134f2c4 100644
--- a/extra/link-visualizer/create_link_svg.py
+++ b/extra/link-visualizer/create_link_svg.py
@@ -116,7 +116,7 @@ def update_svg(group, path_inp: Path, path_out: Path) -> None:
 
 def line_width(x_val: float) -> int:
     y_val = (100 + x_val + 4) // 5
-    if x_val and not y_val:
+    if y_val < 1:
         logging.warning("rssi of %s converted to line_width 1", x_val)
         return 1
     if y_val > 10:
-- 
2.43.0


From c7dc013412b9326bf51dfb5047e42845e743405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:19 +0000
Subject: [PATCH 82/84] fix: firmware generator put a newer release into a
 sub-directory of the previous one

---
 extra/gen_firmwares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/gen_firmwares.py b/extra/gen_firmwares.py
index 9ef8625..03db91a 100644
--- a/extra/gen_firmwares.py
+++ b/extra/gen_firmwares.py
@@ -35,7 +35,8 @@ if __name__ == "__main__":
     with ZipFile(BytesIO(data), "r") as zip_ref:
         zip_ref.extractall(path_here / "temp")
 
-    shutil.move(path_here / "temp/content", path_fw)
+    shutil.copytree(path_here / "temp/content", path_fw, dirs_exist_ok=True)
+    shutil.rmtree(path_here / "temp/content")
 
     if not path_meta.exists():
         logger.error("Metadata-file not found, will stop (%s)", path_meta.as_posix())
-- 
2.43.0


From 0013598db3083fd203d74cff7a3905945ae91a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 83/84] fix: batch commands stopped at the first file that can
 not be read or is malformed

---
 shepherd_data/shepherd_data/cli.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 6ea8cd5..b2cdb48 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -85,7 +85,7 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
             with Reader(file, verbose=verbose_level > 2) as shpr:
                 valid_file &= shpr.is_valid()
                 valid_file &= shpr.check_timediffs()
-        except (TypeError, ValueError, KeyError):
+        except Exception:
             valid_file = False
             logger.exception("ERROR: Will skip file. It caused an exception.")
         valid_dir &= valid_file
@@ -158,7 +158,7 @@ def extract(
                 out_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_factor)
                 with Reader(out_file, verbose=verbose_level > 2) as shpd:
                     shpd.save_csv(shpd["data"], separator, raw=raw)
-        except (TypeError, ValueError, KeyError):
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -203,7 +203,7 @@ def extract_meta(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                         # TODO: allow omitting timestamp,
                         #       also test if segmented uart is correctly written
                         shpr.warn_logs(element, show=True)
-        except (TypeError, ValueError, KeyError):
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -244,7 +244,7 @@ def extract_uart(in_data: Path, *, recurse: bool = False) -> None:
                             log_file.write(f"\t{str.encode(line[1])}")
                             # TODO: does this produce "\tb'abc'"?
                             log_file.write("\n")
-        except (TypeError, ValueError, KeyError):
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -274,7 +274,7 @@ def extract_gpio(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                 wfs = shpr.gpio_to_waveforms()
                 for name, wf in wfs.items():
                     shpr.waveform_to_csv(name, wf, separator)
-        except (TypeError, ValueError, KeyError):
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -343,7 +343,7 @@ def downsample(
                 for _factor in ds_list:
                     path_file = shpr.cut_and_downsample_to_file(start, end, _factor)
                     logger.info("Created %s", path_file.name)
-        except (TypeError, ValueError, KeyError):  # noqa: PERF203
+        except Exception:  # noqa: PERF203
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -422,7 +422,7 @@ def plot(
                     data.append(date)
                 else:
                     shpr.plot_to_file(start, end, width, height, only_pwr=only_power)
-        except (TypeError, ValueError, KeyError):
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
-- 
2.43.0


From 3ecd49fe7357da0460cc55200340747591bc92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 84/84] fix: validation failed with an error if a group is in
 place of a dataset or vice versa

---
 shepherd_core/shepherd_core/reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index cf6a298..2caf189 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -318,7 +318,7 @@ class Reader:
         :return: state of validity
         """
         # hard criteria
-        if "data" not in self.h5file:
+        if not isinstance(self.h5file.get("data"), h5py.Group):
             self._logger.error(
                 "[FileValidation] root data-group not found in '%s'",
                 self.file_path.name,
@@ -348,7 +348,7 @@ class Reader:
                 )
                 return False
         for dset in ["time", "current", "voltage"]:
-            if dset not in self.h5file["data"]:
+            if not isinstance(self.h5file["data"].get(dset), h5py.Dataset):
                 self._logger.error(
                     "[FileValidation] dataset '%s' not found in '%s'",
                     dset,
@@ -583,7 +583,7 @@ class Reader:
         if "level" not in self.h5file[group_name]:
             return 0
         _lvl = self.h5file[group_name]["level"]
-        if _lvl.shape[0] < 1:
+        if not isinstance(_lvl, h5py.Dataset) or len(_lvl.shape) != 1:
             return 0
         _items = [1 for _x in _lvl[:] if _x >= min_level]
         return len(_items)
-- 
2.43.0


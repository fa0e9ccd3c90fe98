From 1a64c0b003a65cd195cafb5643326c30f026ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 01/30] fix: decode a0 words as unsigned integers so that
 54-bit timestamps keep their low bit

---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 24200ab..44916b0 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -105,7 +105,7 @@ def read_a0(
         the function signature to maintain parity with 'read_a1'.
     """
     data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
-    data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+    data = np.array([int(v,16) for v in data], dtype=np.uint32).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, 0] & 0xF
@@ -217,7 +217,7 @@ def sread_a0(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+                data = np.array([int(v,16) for v in data], dtype=np.uint32).reshape(-1, 2)
                 t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
                 t = _format_timestamps(t, resolution, fractional)
                 p = data[:, 0] & 0xF
-- 
2.43.0


From 287319b5516bf82bcfa4bbd6b3ab44509fbc516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 02/30] fix: decode a2 words as unsigned integers so that files
 mixing words below and above 2**63 can be read

---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 44916b0..cb14b85 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -135,7 +135,7 @@ def read_a2(
     ):
     """See documentation for 'read_a0'."""
     data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
-    data = np.array([int(v,16) for v in data])
+    data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
     p = data & 0xF
@@ -243,7 +243,7 @@ def sread_a2(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data])
+                data = np.array([int(v,16) for v in data], dtype=np.uint64)
                 t = np.uint64(data >> 10)
                 t = _format_timestamps(t, resolution, fractional)
                 p = data & 0xF
-- 
2.43.0


From 415f848d670f76bdb99a370387ac0a5d1df0a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 03/30] fix: read a2 files holding a single event

---
 src/fpfind/lib/parse_timestamps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index cb14b85..75b22ca 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -134,7 +134,7 @@ def read_a2(
         fractional: bool = True,
     ):
     """See documentation for 'read_a0'."""
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
+    data = np.atleast_1d(np.genfromtxt(filename, delimiter="\n", dtype="U16"))
     data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
-- 
2.43.0


From 29e93648be477f7378e8fdce72e8973a9822e23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 04/30] fix: report statistics of an in-memory selection
 without events

---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 75b22ca..1f3ca30 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -423,8 +423,8 @@ def print_statistics(filename: str, t: list, p: list):
         ch4_counts=count(p & 0b1000 != 0),
         multi_counts=count(np.isin(p, (0, 1, 2, 4, 8), invert=True)),
         non_counts=count(p == 0),
-        start_timestamp=t[0],
-        end_timestamp=t[-1],
+        start_timestamp=t[0] if len(t) != 0 else None,
+        end_timestamp=t[-1] if len(t) != 0 else None,
         patterns=sorted(np.unique(p)),
     )
 
-- 
2.43.0


From d4e2bf2b0e36fa1f69c8d826f8e49b5044d69205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 05/30] fix: report statistics of events that span no time

---
 src/fpfind/lib/parse_timestamps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 1f3ca30..c16b6ad 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -514,7 +514,8 @@ def print_statistics_report(
         print(f"Duration (s) : {duration:15.9f}")
         print(f"  ~ start    : {start_timestamp*1e-9:>15.9f}")
         print(f"  ~ end      : {end_timestamp*1e-9:>15.9f}")
-        print(f"Event rate (/s) : {int(num_events//duration)}")
+        rate = int(num_events//duration) if duration != 0 else "n/a"
+        print(f"Event rate (/s) : {rate}")
         print(f"Detection patterns: {patterns}")
 
 
-- 
2.43.0


From bd806a80aad5647a7d1457ba43938f6c6f26294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 06/30] fix: accumulate T2 timestamps as integers so that 4 ps
 integer output works

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 6f472a9..575743d 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -309,7 +309,7 @@ def read_T2(
     # Add 17-bit epoch LSB as per regular timestamp spec,
     # i.e. (17-bit epoch LSB)(32-bit timestamp) => 49-bits
     epoch_lsb = header.epoch & ((1 << 17) - 1)
-    timestamp = np.uint64(epoch_lsb << 32)  # current timestamp, deltas stored in T2
+    timestamp = epoch_lsb << 32  # current timestamp, deltas stored in T2
     buffer = 0
     size = 0  # number of bits in buffer
     with open(filename, "rb") as f:
-- 
2.43.0


From 97b0a86f0fb455a63c438728143c2dc5426561be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 07/30] fix: write T1 files from numpy integer timestamps

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 575743d..44d8907 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -406,7 +406,7 @@ def write_T1(directory, full_epoch, timestamps, detectors):
         # 17-bit LSB epoch fits into a timestamp event
         timestamp_epoch = ((full_epoch & ((1<<17)-1)) << (32 + 5))
         for timestamp, detector in zip(timestamps, detectors):
-            full_timestamp = timestamp_epoch + timestamp
+            full_timestamp = timestamp_epoch + int(timestamp)
             event = (full_timestamp << 10) + int(detector)
 
             # Write high word, then low word
-- 
2.43.0


From 4ad69918fcf82458b5f1a2facfaf232ec04e31a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 08/30] fix: reject T2 and T4 files that end before their
 terminator instead of looping forever

---
 src/fpfind/lib/parse_epochs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 44d8907..6f94f4b 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -265,7 +265,10 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     # Append word from fileobject if insufficient bits
     if size < msb_size and fileobject:
         buffer <<= 32
-        buffer += int.from_bytes(fileobject.read(4), byteorder="little")
+        word = fileobject.read(4)
+        if len(word) != 4:
+            raise ValueError("File ended before termination")
+        buffer += int.from_bytes(word, byteorder="little")
         size += 32
 
     # Extract MSB from buffer
-- 
2.43.0


From 516f206ef868aadba879b463d0480da86f5bb6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 09/30] fix: reject T1 files that end before their terminator
 instead of returning a corrupt event

---
 src/fpfind/lib/parse_epochs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 6f94f4b..1b5c5eb 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -186,6 +186,8 @@ def read_T1(
         while True:
             event_high = f.read(4)
             event_low = f.read(4)
+            if len(event_high) != 4 or len(event_low) != 4:
+                raise ValueError("File ended before termination")
 
             value = \
                 (int.from_bytes(event_high, byteorder="little") << 32) \
-- 
2.43.0


From d91fb7513cb64e5f42969abb5adf4bcd2a95a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 10/30] fix: return the peak found when all precompensations
 are scanned

The full scan always ended in the 'No peak found!' branch, since the loop
never breaks, and overwrote the values of a found peak.
---
 src/fpfind/fpfind.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index e06acf2..8628edc 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -347,6 +347,7 @@ def fpfind(
         precompensation_fullscan: Specify whether to continue even after peak found.
     """
     df0s = precompensations
+    found = None
 
     # Go through all precompensations
     for df0 in df0s:
@@ -375,14 +376,17 @@ def fpfind(
         logger.info(f"Peak found,          {df0*1e6:7.3f} ppm: {str(e)}")
         # TODO: Justify the good enough frequency value
         # TODO(2024-01-31): Add looping code to customize refinement steps.
+        if found is None:
+            found = dt, f
         if precompensation_fullscan:
             continue
         break
 
     # No appropriate frequency compensation found
-    else:
+    if found is None:
         raise ValueError("No peak found!")  # TODO
 
+    dt, f = found
     df = f - 1
     return dt, df
 
-- 
2.43.0


From 2978f0f0b3040eefc9d8d02bfdd2877e4ce41368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 11/30] fix: return an empty slice when no timestamp lies in
 the window

An IndexError escaped instead, which also aborted the precompensation scan.
---
 src/fpfind/lib/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index d11d69d..b83d4b1 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -268,13 +268,14 @@ def slice_timestamps(
     if start is not None:
         ts = ts - start  # note: 'ts -= start' is in-place
         ts = ts[ts >= 0]
-    else:
+    elif len(ts) > 0:
         ts = ts - ts[0]
     if duration is not None:
-        if duration >= ts[-1]:
+        available = ts[-1] if len(ts) > 0 else 0
+        if duration >= available:
             warnings.warn(
                 f"Desired duration ({duration*1e-9:.3f} s) is longer "
-                f"than available data ({ts[-1]*1e-9:.3f} s)")
+                f"than available data ({available*1e-9:.3f} s)")
         ts = ts[ts < duration]
     return ts
 
-- 
2.43.0


From d130768917d42a01df264208b9b44bbb1344fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 12/30] fix: pass the arrays to np.hstack as one sequence in
 significance_raw

---
 src/fpfind/lib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index b83d4b1..9b490e4 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -92,7 +92,7 @@ class PeakStatistics:
     def significance_raw(self):
         if self.stdev == 0:
             return None
-        full = np.hstack(self.signal, self.background)
+        full = np.hstack((self.signal, self.background))
         return (np.max(full) - np.mean(full)) / np.std(full)
 
     @property
-- 
2.43.0


From e21a55f5d59cdb0dc71d5857296118189e253a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 13/30] fix: use an integer bin for the peak center in
 get_statistics

A float bin cannot index the histogram.
---
 src/fpfind/lib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index 9b490e4..9773dc8 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -142,7 +142,7 @@ def get_statistics(
     if center is None:
         bin_center = np.argmax(hist)
     else:
-        bin_center = np.abs(center) // resolution
+        bin_center = int(np.abs(center) // resolution)
         if center < 0:
             bin_center = len(hist) - bin_center
 
-- 
2.43.0


From f51801f004bc091b689351204b4ffe23193e388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 14/30] fix: report the height of a single top delay as for
 several

get_top_k_delays_fft returned pairs for k = 1 but triples otherwise.
---
 src/fpfind/lib/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index 9773dc8..93e74e7 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -251,7 +251,8 @@ def get_delay_at_index_fft(time_bins: list, pos: int):
 def get_top_k_delays_fft(hist: list, time_bins: list, k: int):
     assert k >= 1
     if k == 1:
-        return [get_delay_at_index_fft(time_bins, np.argmax(hist))]
+        pos = np.argmax(hist)
+        return [(hist[pos], *get_delay_at_index_fft(time_bins, pos))]
 
     xs_raw = np.argpartition(hist, -k)[-k:]
     ys_raw = hist[xs_raw]
-- 
2.43.0


From 14bfe8ac3d76383ba58b065c50ea20629092a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 15/30] fix: no significance without background instead of a
 TypeError

'stdev' is None if the background is empty.
---
 src/fpfind/lib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index 93e74e7..e5bf7f2 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -84,7 +84,7 @@ class PeakStatistics:
 
     @property
     def significance(self):
-        if self.stdev == 0:
+        if not self.stdev:
             return 0
         return round((self.max - self.mean) / self.stdev, 3)
 
-- 
2.43.0


From e4b230632df2229b46ce711d5c53066a5a0544d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 16/30] fix: call generate_fft with its actual signature in
 histogram_fft

The function failed for all inputs, after shifting the arrays of its caller
in place.
---
 src/fpfind/lib/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index e5bf7f2..b914f55 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -317,13 +317,16 @@ def histogram_fft(
 
     # Normalize timestamps
     acq_start = 0 if acq_start is None else acq_start
-    alice -= first_timestamp + acq_start
-    bob -= first_timestamp + acq_start
+    alice = alice - (first_timestamp + acq_start)
+    bob = bob - (first_timestamp + acq_start)
     bob = bob * (1 + freq_corr)
+    alice = slice_timestamps(alice, 0, duration)
+    bob = slice_timestamps(bob, 0, duration)
+    alen, blen = len(alice), len(bob)
 
     # Generate FFT
-    afft, alen = generate_fft(alice, num_bins, resolution, 0, duration)
-    bfft, blen = generate_fft(bob, num_bins, resolution, 0, duration)
+    afft = generate_fft(alice, num_bins, resolution)
+    bfft = generate_fft(bob, num_bins, resolution)
     result = get_xcorr(afft, bfft, filter)
     bins = np.arange(num_bins) * resolution
     if statistics:
-- 
2.43.0


From a2cd0cfdfffed724b07d008134eda2a6de99d21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 17/30] fix: do not print to the standard output while
 formatting usage

---
 src/fpfind/lib/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index b914f55..18c9cb5 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -342,7 +342,6 @@ class ArgparseCustomFormatter(argparse.RawDescriptionHelpFormatter):
     def _format_action_invocation(self, action):
         if not action.option_strings:
             _ = self._metavar_formatter(action, action.dest)(1)
-            print(action, _)
             metavar, = _
             return metavar
         else:
-- 
2.43.0


From 7418b39a1799bfcacf2e6b389d3d5f5925688de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 18/30] fix: apply the legacy option to the generated events

A local variable was assigned instead of the module-wide one.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 2be66eb..8e59f89 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -83,6 +83,7 @@ def main():
         sys.exit(1)
 
     args = parser.parse_args()
+    global LEGACY
     if args.x:
         LEGACY = True
 
-- 
2.43.0


From f67618a469520aed50e14058085046c5990c8b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 19/30] fix: do not overwrite the event file to be read

Only the temporary file holds data from standard input.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 8e59f89..0eb267b 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -115,8 +115,9 @@ def main():
 
         # Read binary timestamps from file
         try:
-            with open(inputfile, "wb") as f:
-                f.write(sys.stdin.buffer.read())
+            if HAS_TEMP_FILE:
+                with open(inputfile, "wb") as f:
+                    f.write(sys.stdin.buffer.read())
 
             # Parsing binary timestamps
             ts, _ = ts_parser.read_a1(inputfile, args.x)
-- 
2.43.0


From e2a4739331ee3d32c698ea72ad643df6ea630b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 20/30] fix: prompt on the error stream, since events may go to
 the standard output

---
 src/fpfind/lib/generate_freqcd_testcase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 0eb267b..671e0ec 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -134,8 +134,8 @@ def main():
     #    This is only for testing purposes.
     else:
         # Read from stdin
-        print("Enter timestamps in decimal separated by newlines.")
-        print("Press Ctrl-C to stop input.")
+        print("Enter timestamps in decimal separated by newlines.", file=sys.stderr)
+        print("Press Ctrl-C to stop input.", file=sys.stderr)
         try:
             while True:
                 try:
-- 
2.43.0


From 2b4a5203b45d08121420716f632f84d5c568a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 21/30] fix: leave room for the terminator when scanning
 filenames

A name of 200 characters wrote one byte past the buffer.
---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 146f0c4..c847999 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -80,7 +80,7 @@
 
 /* default definitions */
 #define FNAMELENGTH 200            /* length of file name buffers */
-#define FNAMEFORMAT "%200s"        /* for sscanf of filenames */
+#define FNAMEFORMAT "%199s"        /* for sscanf of filenames */
 #define FILE_PERMISSONS 0644       /* for all output files */
 #define INBUFENTRIES 1024          /* max. elements in input buffer */
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
-- 
2.43.0


From d9dbf6949d0ff578fb05d3681f9c344851369a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 22/30] fix: reject frequency corrections that do not fit in an
 int

abs() truncated the value first, so that e.g. 2^32+5 was taken as 5.
---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index c847999..bb1569d 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -129,7 +129,7 @@ int readint(char *buff) {
     long value;
     value = strtol(buff, &end, 10);
     // string is a decimal, zero-terminated, and fits in an int
-    if ((end != buff) && (*end == 0) && (abs(value) < INT_MAX))
+    if ((end != buff) && (*end == 0) && (value < INT_MAX) && (value > -INT_MAX))
         return (int)value;
     return INT_MAX;
 }
-- 
2.43.0


From 2d1fa4cae2a2339d05fd3d5c1f0c9b23bfddd4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 23/30] fix: reject malformed frequency corrections on the
 command line

scanf accepted trailing garbage and has undefined behaviour on overflow.
---
 src/fpfind/freqcd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index bb1569d..6513511 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -193,7 +193,8 @@ int main(int argc, char *argv[]) {
             freqfilename[FNAMELENGTH-1] = 0;  // security termination
             break;
         case 'f':
-            if (sscanf(optarg, "%d", &fcorr) != 1) return -emsg(4);
+            fcorr = readint(optarg);
+            if (fcorr == INT_MAX) return -emsg(4);
             break;
         case 'x':
             islegacy = 1;
-- 
2.43.0


From 1ee7f65bc0917655fe43442ef7919ba4021d38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 24/30] fix: check the range of decimal frequency corrections
 before converting to int

The conversion of large values overflowed to INT_MIN, which passed the check.
---
 src/fpfind/freqcd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 6513511..85fe86b 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -210,7 +210,9 @@ int main(int argc, char *argv[]) {
 
     /* check specified frequency correction is within-bounds */
     // needs to be done after argument reading for position-agnostic '-f'
-    if (isdecimal) fcorr = (int) fcorr * FCORR_DTOB;
+    double fcorr_dec = isdecimal ? fcorr * FCORR_DTOB : fcorr;
+    if ((fcorr_dec >= FCORR_MAX) || (fcorr_dec <= -FCORR_MAX)) return -emsg(5);
+    fcorr = (int) fcorr_dec;
     if (abs(fcorr) >= FCORR_MAX) return -emsg(5);
 
     /* set input and output handler */
-- 
2.43.0


From 6529b1509ded63a5f29b1f0c8b6fb3ae2c6c69a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 25/30] fix: do not accumulate the correction again on reads
 without a complete event

The correction of the previous read was counted twice, or an uninitialised
value was used if the very first read held less than one event.
---
 src/fpfind/freqcd.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 85fe86b..813f6f7 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -383,8 +383,10 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
-            tsref = tsmeas;
-            tsoverflowcorr += tscorr;
+            if (eventnum > 0) {
+                tsref = tsmeas;
+                tsoverflowcorr += tscorr;
+            }
         }
 
         // Read frequency correction values
-- 
2.43.0


From 2bffe887512ea8bf2d7a578d4efe8b63d00dfde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 26/30] fix: take elapsed time modulo 2^54 so that the
 correction survives the timestamp rollover

After the rollover (every 20 hours) the multiplication overflowed and
shifted all later timestamps.
---
 src/fpfind/freqcd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 813f6f7..51590ef 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -89,6 +89,7 @@
 #define FCORR_ARESBITS -34         /* absolute resolution of correction, in power of 2 */
 #define FCORR_AMAXBITS -13         /* absolute maximum allowed correction, in power of 2 */
 #define FCORR_DEFAULT 0            /* frequency correction in units of 2^FCORR_ARESBITS */
+#define TS_MASK (((ull)1 << 54) - 1) /* timestamps roll over at 54 bits */
 #define FCORR_ARESDECIMAL -10      /* absolute resolution of correction, in power of 10, specifically for '-d' mode */
 //#define __DEBUG__                /* global debug flag, uncomment to disable */
 
@@ -361,7 +362,7 @@ int main(int argc, char *argv[]) {
                 tsmeas = ((ull)high << 22) | (low >> 10);
 
                 /* calculate timestamp correction */
-                tscorr = ((ll)((tsmeas - tsref) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
-- 
2.43.0


From 043bf3e69c6d75293ff351232e874d340b640983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 27/30] fix: keep partial frequency correction lines until
 their newline arrives

A partial line was overwritten by the next read unless a newline preceded it
in the same read. Lines longer than the buffer are discarded, instead of
requesting zero bytes, which was taken as the end of the stream.
---
 src/fpfind/freqcd.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 51590ef..fc6642b 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -253,6 +253,7 @@ int main(int argc, char *argv[]) {
     int freqbytesread = 0;
     int freqbytesread_next = 0;
     int freqbytespartial = 0;  // size of partial freqcorr value remaining
+    int freqlinetoolong = 0;  // mark if line being read exceeds freqbuffer
     char *freqbuffer_next;
     if (freqhandle) {  // allocate memory only if needed
         freqbuffer = (char *)malloc(FREQBUFSIZE);
@@ -420,7 +421,8 @@ int main(int argc, char *argv[]) {
             for (i = 0; i < freqbytesread; i++) {
                 if (freqbuffer[i] == '\n') {
                     freqbuffer[i] = 0;  // zero-terminate for readint
-                    fcorr_tmp = readint(&freqbuffer[next_num_idx]);
+                    fcorr_tmp = freqlinetoolong ? INT_MAX : readint(&freqbuffer[next_num_idx]);
+                    freqlinetoolong = 0;
                     if (abs(fcorr_tmp) < FCORR_MAX) fcorr = fcorr_tmp;
 #ifdef __DEBUG__
                     fprintf(stderr, "[debug] 'fcorr' updated to '%d'.\n", fcorr);
@@ -430,13 +432,15 @@ int main(int argc, char *argv[]) {
             }
 
             /* clear parsed numbers from freqbuffer */
-            if (next_num_idx > 0) {
-                freqbytespartial = freqbytesread - next_num_idx;
-                for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
-                    freqbuffer[j] = freqbuffer[i];
-                }
-                freqbuffer_next = &freqbuffer[freqbytespartial];
+            freqbytespartial = freqbytesread - next_num_idx;
+            for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
+                freqbuffer[j] = freqbuffer[i];
+            }
+            if (freqbytespartial == FREQBUFSIZE - 1) {
+                freqlinetoolong = 1;  // discard, including the remainder
+                freqbytespartial = 0;
             }
+            freqbuffer_next = &freqbuffer[freqbytespartial];
         }
 
         // TODO: Shift this back to select call to write only when pipe available,
-- 
2.43.0


From 8eabbc845e46f52e65ffbb2bc599f950108bf1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 28/30] fix: do not free an uninitialised pointer when the
 correction file has descriptor 0

---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index fc6642b..8a0a48a 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -249,7 +249,7 @@ int main(int argc, char *argv[]) {
     if (!outbuffer) return -emsg(7);
     int outevents = 0;
 
-    char *freqbuffer;
+    char *freqbuffer = NULL;
     int freqbytesread = 0;
     int freqbytesread_next = 0;
     int freqbytespartial = 0;  // size of partial freqcorr value remaining
-- 
2.43.0


From 1956a740e4bee986953b08b463c5bbe3cac8916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 29/30] fix: stop on unknown options and missing option
 arguments

---
 src/fpfind/freqcd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 8a0a48a..f9e52bf 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -206,6 +206,8 @@ int main(int argc, char *argv[]) {
         case 'h':
             usage(); exit(1);
             break;
+        default:
+            return -emsg(1);
         }
     }
 
-- 
2.43.0


From f362ebf3bc0e8cc3ca402d243d7c0183d20b433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:53 +0000
Subject: [PATCH 30/30] fix: compute the epoch of a time exactly instead of in
 floating point

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 1b5c5eb..39ce34d 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -114,7 +114,7 @@ def date2epoch(datetime=None):
         datetime = dt.datetime.now()
 
     total_seconds = int(datetime.timestamp())
-    epoch_val = int(total_seconds/125e-12) >> 32
+    epoch_val = total_seconds * 8_000_000_000 >> 32  # units of 125ps, exact
     return f"{epoch_val:08x}"
 
 
-- 
2.43.0


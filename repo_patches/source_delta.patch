From aa478a848a26ac529ec8790ca6de8505a3d017f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 01/25] fix: to_uint64_array must not modify its input data

For unsigned formats, the in-place shift operated on the caller's own array.
---
 bittrue/models/python/en_cl_fix_pkg/matlab_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/matlab_interface.py b/bittrue/models/python/en_cl_fix_pkg/matlab_interface.py
index b175b91..50d6a24 100644
--- a/bittrue/models/python/en_cl_fix_pkg/matlab_interface.py
+++ b/bittrue/models/python/en_cl_fix_pkg/matlab_interface.py
@@ -33,7 +33,7 @@ def to_uint64_array(data, fmt : FixFormat):
     result = np.empty(data.shape + (n_ints,), dtype=np.uint64)
     for i in range(n_ints):
         result[..., i] = data % 2**64
-        data >>= 64
+        data = data >> 64
     
     return result
 
-- 
2.43.0


From 155a814ef53508bcdaa48c12aea143332c6609c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 02/25] fix: NarrowFix.__len__ raised NameError

---
 bittrue/models/python/en_cl_fix_pkg/narrow_fix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
index 2530fcc..2cda353 100644
--- a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
@@ -391,7 +391,6 @@ class NarrowFix:
     
     # len()
     def __len__(self):
-        assert isinstance(other, NarrowFix), "NarrowFix can only be compared with NarrowFix. Try _data."
         return len(self._data)
     
     def __repr__(self):
-- 
2.43.0


From 83bcc58d4c8a826ac70daf4ffdfe93f894463597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 03/25] fix: WideFix.shift with an array of shift amounts

It raised IndexError (1-D) or ValueError (n-D).
---
 bittrue/models/python/en_cl_fix_pkg/wide_fix.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
index 1daca9f..aa890f2 100644
--- a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
@@ -420,15 +420,10 @@ class WideFix:
             # Change format without changing data values => shift
             mid = WideFix(self._data, mid_fmt)
         else:
-            # Variable shift (each value individually)
-            assert shift.size == self._data.size, "WideFix.__lshift__: shift must be 0d or the same length as data"
-            mid = WideFix(np.zeros(self._data.size, dtype=object), mid_fmt)
-            for i, s in enumerate(shift):
-                # Change format without changing data values => shift
-                temp_fmt = FixFormat.for_shift(self._fmt, s)
-                temp = WideFix(self._data[i], temp_fmt, copy=False)
-                # Resize to the shared intermediate format
-                mid._data[i] = temp.resize(mid_fmt)._data[0]
+            # Variable shift (each value individually): The LSB weight of the shared intermediate
+            # format is that of the smallest shift, so scale up by the difference (as Python ints).
+            extra_shift = (np.asarray(shift) - np.min(shift)).astype(object)
+            mid = WideFix(self._data * 2**extra_shift, mid_fmt, copy=False)
         
         return mid.resize(r_fmt, rnd, sat)
     
-- 
2.43.0


From fb81261c70270f0ce8cfecdf0d046930777dfcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 04/25] fix: WideFix.from_real misrounded, missed warnings and
 rejected scalars

- Negative Python floats were truncated towards zero instead of rounded.
- np.float64 scalars (and 0-dimensional arrays) were rejected.
- Odd integers in (2**52, 2**53) LSBs were rounded up.
- The saturation warning was missed when the excess was less than one LSB.
---
 .../models/python/en_cl_fix_pkg/wide_fix.py   | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
index aa890f2..7d43348 100644
--- a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
@@ -73,22 +73,21 @@ class WideFix:
         if (saturate == FixSaturate.SatWarn_s) or (saturate == FixSaturate.Warn_s):
             amax_float = np.max(a)
             amin_float = np.min(a)
-            amax = int(amax_float*2.0**r_fmt.F)
-            amin = int(amin_float*2.0**r_fmt.F)
-            if amax > WideFix.max_value(r_fmt)._data:
+            # Compare Python int or float with Python int: This is always exact.
+            amax = float(amax_float)*2.0**r_fmt.F
+            amin = float(amin_float)*2.0**r_fmt.F
+            if amax > int(WideFix.max_value(r_fmt)._data):
                 warnings.warn(f"from_real: Number {amax_float} exceeds maximum for format {r_fmt}", Warning)
-            if amin < WideFix.min_value(r_fmt)._data:
+            if amin < int(WideFix.min_value(r_fmt)._data):
                 warnings.warn(f"from_real: Number {amin_float} exceeds minimum for format {r_fmt}", Warning)
         
         # Quantize. Always use half-up rounding.
-        x = a*(2.0**r_fmt.F) + 0.5
+        # Note: floor(x + 0.5) would be inexact, for example for odd x in (2**52, 2**53).
+        x = np.asarray(a, dtype=np.float64)*2.0**r_fmt.F
+        x = np.floor(x) + (x - np.floor(x) >= 0.5)
         
-        # Try to force arbitrary-precision int representation
-        if hasattr(x, 'astype'):
-            x = x.astype('object')
-            x = np.floor(x)
-        else:
-            x = int(x)
+        # Force arbitrary-precision int representation
+        x = np.array(np.floor(np.array(x, dtype=object)), dtype=object)
         
         # Saturate
         if (saturate == FixSaturate.Sat_s) or (saturate == FixSaturate.SatWarn_s):
-- 
2.43.0


From f350bc2280fbba000aed93c6e53d1fc756ff286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 05/25] fix: NarrowFix.from_real misrounded values just below a
 half

Adding 0.5 before taking the floor is inexact in double precision, e.g.
0.49999999999999994 was rounded to 1, and odd numbers of LSBs in
(2**52, 2**53) were rounded up.
---
 bittrue/models/python/en_cl_fix_pkg/narrow_fix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
index 2cda353..dbfc29e 100644
--- a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
@@ -83,7 +83,9 @@ class NarrowFix:
         
         # Quantize.
         # Always use half-up rounding (to avoid implementing all rounding modes in floating point).
-        x = np.floor(a*(2.0**r_fmt.F)+0.5)/2.0**r_fmt.F
+        # Note: floor(x + 0.5) would be inexact, for example for x = 0.5 - 2**-54.
+        x = a*(2.0**r_fmt.F)
+        x = (np.floor(x) + (x - np.floor(x) >= 0.5))/2.0**r_fmt.F
         
         # Saturate
         if (saturate == FixSaturate.Sat_s) or (saturate == FixSaturate.SatWarn_s):
-- 
2.43.0


From 0bcf98006e74b7044ddcf3f16c36fb2222942824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 06/25] fix: cl_fix_in_range between wide and narrow formats

The unnormalized integers of a wide format were compared with the real
bounds of a narrow one (and vice versa).
---
 .../models/python/en_cl_fix_pkg/en_cl_fix.py   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py b/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
index 74e6b0d..23067df 100644
--- a/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
@@ -119,8 +119,22 @@ def cl_fix_in_range(a, a_fmt : FixFormat,
     """
     rounded_fmt = FixFormat.for_round(a_fmt, r_fmt.F, rnd)
     rounded = cl_fix_round(a, a_fmt, rounded_fmt, rnd)
-    lo = np.where(rounded < cl_fix_min_value(r_fmt), False, True)
-    hi = np.where(rounded > cl_fix_max_value(r_fmt), False, True)
+    
+    rounded_wide = cl_fix_is_wide(rounded_fmt)
+    r_wide = cl_fix_is_wide(r_fmt)
+    if rounded_wide or r_wide:
+        # WideFix (rounded_fmt and r_fmt may have different internal representations)
+        rounded = WideFix(rounded, rounded_fmt) if rounded_wide else WideFix.from_narrowfix(NarrowFix(rounded, rounded_fmt, copy=False))
+        min_value = WideFix.min_value(r_fmt)
+        max_value = WideFix.max_value(r_fmt)
+    else:
+        # NarrowFix
+        rounded = NarrowFix(rounded, rounded_fmt, copy=False)
+        min_value = NarrowFix.min_value(r_fmt)
+        max_value = NarrowFix.max_value(r_fmt)
+    
+    lo = np.where(rounded < min_value, False, True)
+    hi = np.where(rounded > max_value, False, True)
     return np.where(np.logical_and(lo,hi), True, False)
 
 ###################################################################################################
-- 
2.43.0


From fc1fea86cdc15afd11e561ae28d72ca555289ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 07/25] fix: addsub mixed formats and warned about discarded
 results

- Without r_fmt, elements were returned in the format of the addition or of
  the subtraction, which may even have different representations.
- A saturation warning was raised for the sum (difference) of elements that
  are only subtracted (added).
---
 bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py  | 11 ++++++++---
 bittrue/models/python/en_cl_fix_pkg/narrow_fix.py |  6 +++---
 bittrue/models/python/en_cl_fix_pkg/wide_fix.py   |  6 +++---
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py b/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
index 23067df..562d02c 100644
--- a/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
@@ -398,9 +398,14 @@ def cl_fix_addsub(a, a_fmt : FixFormat,
         a + b, where add == True.
         a - b, where add == False.
     """
-    radd = cl_fix_add(a, a_fmt, b, b_fmt, r_fmt, rnd, sat)
-    rsub = cl_fix_sub(a, a_fmt, b, b_fmt, r_fmt, rnd, sat)
-    return np.where(add, radd, rsub)
+    # Full-precision result format
+    mid_fmt = cl_fix_addsub_fmt(a_fmt, b_fmt)
+    if r_fmt is None:
+        r_fmt = mid_fmt
+    
+    radd = cl_fix_add(a, a_fmt, b, b_fmt, mid_fmt)
+    rsub = cl_fix_sub(a, a_fmt, b, b_fmt, mid_fmt)
+    return cl_fix_resize(np.where(add, radd, rsub), mid_fmt, r_fmt, rnd, sat)
 
 
 def cl_fix_mult(a, a_fmt : FixFormat,
diff --git a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
index dbfc29e..d81d174 100644
--- a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
@@ -311,10 +311,10 @@ class NarrowFix:
         mid_fmt = FixFormat.for_addsub(self._fmt, b._fmt)
         if r_fmt is None:
             r_fmt = mid_fmt
-        radd = self.add(b, r_fmt, rnd, sat)
-        rsub = self.sub(b, r_fmt, rnd, sat)
+        radd = self.add(b, mid_fmt)
+        rsub = self.sub(b, mid_fmt)
         r_data = np.where(add, radd._data, rsub._data)
-        return NarrowFix(r_data, r_fmt, copy=False)
+        return NarrowFix(r_data, mid_fmt, copy=False).resize(r_fmt, rnd, sat)
 
     def mult(self, b : "NarrowFix",
              r_fmt : FixFormat = None,
diff --git a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
index 7d43348..759eb10 100644
--- a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
@@ -386,10 +386,10 @@ class WideFix:
         mid_fmt = FixFormat.for_addsub(self._fmt, b._fmt)
         if r_fmt is None:
             r_fmt = mid_fmt
-        radd = self.add(b, r_fmt, rnd, sat)
-        rsub = self.sub(b, r_fmt, rnd, sat)
+        radd = self.add(b, mid_fmt)
+        rsub = self.sub(b, mid_fmt)
         r_data = np.where(add, radd._data, rsub._data)
-        return WideFix(r_data, r_fmt, copy=False)
+        return WideFix(r_data, mid_fmt, copy=False).resize(r_fmt, rnd, sat)
 
     def mult(self, b : "WideFix",
              r_fmt : FixFormat = None,
-- 
2.43.0


From 1292d2f022f9650b333dd578e7edf84b6dc4d7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 08/25] fix: NarrowFix.saturate lost precision when wrapping
 0-dimensional data

The intermediate calculation was done in float64 instead of int, e.g.
2**53-1 in (0,53,0) wrapped to 0 instead of -1 in (1,52,0).
---
 bittrue/models/python/en_cl_fix_pkg/narrow_fix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
index d81d174..d4c961a 100644
--- a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
@@ -224,14 +224,15 @@ class NarrowFix:
             
             if convert_to_wide:
                 # Do intermediate calculation in WideFix (int) to avoid loss of precision
-                data = np.floor(data.astype(object) * 2**r_fmt.F)
+                # (np.array also for 0-dimensional data, which would become a scalar otherwise)
+                data = np.array(data * 2.0**r_fmt.F, dtype=np.int64).astype(object)
                 span = 2**(r_fmt.I + r_fmt.F)
                 if r_fmt.S == 1:
                     sat_data = ((data + span) % (2*span)) - span
                 else:
                     sat_data = data % span
                 # Convert back to narrow fixed-point
-                sat_data = (sat_data / 2**r_fmt.F).astype(float)
+                sat_data = np.array(sat_data / 2**r_fmt.F, dtype=np.float64)
             else:
                 # Calculate in float64 without loss of precision
                 if r_fmt.S == 1:
-- 
2.43.0


From 3aa6fd83107ee79ffb11aa7891352615ac3d90fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 09/25] fix: VHDL cl_fix_from_real wrapped positive saturation
 in wide formats

For more than 53 bits, the "saturated" value was rounded to 2**I, which
wrapped to zero (unsigned) or to the minimum (signed).
---
 hdl/en_cl_fix_pkg.vhd | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hdl/en_cl_fix_pkg.vhd b/hdl/en_cl_fix_pkg.vhd
index ba8eb51..2ab0d57 100644
--- a/hdl/en_cl_fix_pkg.vhd
+++ b/hdl/en_cl_fix_pkg.vhd
@@ -817,9 +817,11 @@ package body en_cl_fix_pkg is
             severity Failure;
             
         -- Saturate
-        if a > max_real(result_fmt) then
+        -- (Note: For more than 53 bits, max_real is rounded up to 2.0**result_fmt.I, so it needs to
+        -- be checked explicitly and must not be used as the saturated value).
+        if a > max_real(result_fmt) or a >= 2.0**result_fmt.I then
             assert saturate = Sat_s report "cl_fix_from_real : Saturation warning!" severity Warning;
-            ASat_v := max_real(result_fmt);
+            return cl_fix_max_value(result_fmt);
         elsif a < min_real(result_fmt) then
             assert saturate = Sat_s report "cl_fix_from_real : Saturation warning!" severity Warning;
             ASat_v := min_real(result_fmt);
-- 
2.43.0


From 75d83c7df1eca4657415bf43a3a4332978246dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 10/25] fix: VHDL cl_fix_from_real misrounded values just below
 a half

Adding 0.5 before taking the floor is inexact, e.g. 0.49999999999999994
was rounded to 1, and odd numbers of LSBs in (2**52, 2**53) were rounded
up.
---
 hdl/en_cl_fix_pkg.vhd | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hdl/en_cl_fix_pkg.vhd b/hdl/en_cl_fix_pkg.vhd
index 2ab0d57..0eda6b0 100644
--- a/hdl/en_cl_fix_pkg.vhd
+++ b/hdl/en_cl_fix_pkg.vhd
@@ -830,7 +830,13 @@ package body en_cl_fix_pkg is
         end if;
         
         -- Rescale to appropriate fractional bits, with half-up rounding
-        ASat_v := floor(ASat_v * 2.0**result_fmt.F + 0.5);
+        -- (Note: floor(x + 0.5) would be inexact, for example for x = 0.5 - 2.0**(-54)).
+        ASat_v := ASat_v * 2.0**result_fmt.F;
+        if ASat_v - floor(ASat_v) >= 0.5 then
+            ASat_v := floor(ASat_v) + 1.0;
+        else
+            ASat_v := floor(ASat_v);
+        end if;
         
         -- Convert to fixed-point in chunks (required for formats that don't fit into integer)
         for i in 0 to ChunkCount_c-1 loop
-- 
2.43.0


From 5f86d287bbc5aa3f41b57e72c2549d439aa51243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 11/25] fix: VHDL cl_fix_to_real lost small negative values of
 wide formats

The sign bit weight cancelled the (rounded) remaining bits, e.g. -1 in
(1,63,0) was converted to 0.0.
---
 hdl/en_cl_fix_pkg.vhd | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hdl/en_cl_fix_pkg.vhd b/hdl/en_cl_fix_pkg.vhd
index 0eda6b0..f1875c9 100644
--- a/hdl/en_cl_fix_pkg.vhd
+++ b/hdl/en_cl_fix_pkg.vhd
@@ -853,7 +853,7 @@ package body en_cl_fix_pkg is
         constant ChunkSize_c    : positive := 30;
         constant ChunkCount_c   : natural := (ABits_c + ChunkSize_c - 1)/ChunkSize_c;
         variable a_v            : std_logic_vector(a'length-1 downto 0);
-        variable Correction_v   : real := 0.0;
+        variable Sign_v         : real := 1.0;
         variable apad_v         : unsigned(ChunkSize_c*ChunkCount_c-1 downto 0);
         variable Chunk_v        : unsigned(ChunkSize_c-1 downto 0);
         variable result_v       : real := 0.0;
@@ -863,8 +863,8 @@ package body en_cl_fix_pkg is
         
         -- Handle sign bit
         if a_fmt.S = 1 and a_v(ABits_c-1) = '1' then
-            a_v(ABits_c-1) := '0'; -- Clear sign bit.
-            Correction_v := -2.0**(ABits_c-1 - a_fmt.F); -- Remember its weight.
+            a_v := std_logic_vector(-signed(a_v)); -- Magnitude (unsigned, also for the minimum).
+            Sign_v := -1.0; -- Remember its sign.
         end if;
         
         -- Resize to an integer number of chunks
@@ -877,8 +877,8 @@ package body en_cl_fix_pkg is
             result_v := result_v + real(to_integer(Chunk_v)) * 2.0**(-a_fmt.F);
         end loop;
         
-        -- Add sign bit contribution
-        result_v := result_v + Correction_v;
+        -- Add sign
+        result_v := result_v * Sign_v;
         
         return result_v;
     end;
-- 
2.43.0


From 6e1e06f149e1a65bb8b659e349c91480170632b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 12/25] fix: VHDL cl_fix_addsub without result_fmt ignored
 cl_fix_addsub_fmt

The result was in the format of the addition or of the subtraction,
depending on the value of add.
---
 hdl/en_cl_fix_pkg.vhd | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hdl/en_cl_fix_pkg.vhd b/hdl/en_cl_fix_pkg.vhd
index f1875c9..70224b6 100644
--- a/hdl/en_cl_fix_pkg.vhd
+++ b/hdl/en_cl_fix_pkg.vhd
@@ -1214,11 +1214,13 @@ package body en_cl_fix_pkg is
         round       : FixRound_t := Trunc_s;
         saturate    : FixSaturate_t := Warn_s
     ) return std_logic_vector is
+        constant mid_fmt_c  : FixFormat_t := cl_fix_addsub_fmt(a_fmt, b_fmt);
+        constant r_fmt_c    : FixFormat_t := choose(result_fmt = NullFixFormat_c, mid_fmt_c, result_fmt);
     begin
         if to01(add) = '1' then
-            return cl_fix_add(a, a_fmt, b, b_fmt, result_fmt, round, saturate);
+            return cl_fix_add(a, a_fmt, b, b_fmt, r_fmt_c, round, saturate);
         end if;
-        return cl_fix_sub(a, a_fmt, b, b_fmt, result_fmt, round, saturate);
+        return cl_fix_sub(a, a_fmt, b, b_fmt, r_fmt_c, round, saturate);
     end;
     
     function cl_fix_mult(
-- 
2.43.0


From 1caf475701569e60285eb5284144197081a7c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 13/25] fix: dwrite of a negative number discarded the line
 written so far

---
 lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd b/lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd
index 9092b92..4a866f1 100644
--- a/lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd
+++ b/lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd
@@ -223,7 +223,10 @@ package body en_tb_fileio_text_private_pkg is
         if x >= 0 then
             dwrite(L, unsigned(x));
         else
-            L := new string'("-");            -- Insert "-" sign.
+            if L = null then
+                L := new string'("");
+            end if;
+            L := new string'(L.all & "-");    -- Append "-" sign.
             dwrite(L, unsigned(-('1' & x)));  -- Sign extend before negating.
         end if;
     end procedure;
-- 
2.43.0


From 81ccb427a91985802a6d6fe5cda60e81f404908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 14/25] fix: cl_fix_from_integer for wide formats did not
 convert or check

Native integer arrays were returned as they are (and then rejected by all
other functions), and out-of-range values were accepted.
---
 bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py b/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
index 562d02c..1e2ff6f 100644
--- a/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
@@ -165,7 +165,11 @@ def cl_fix_from_integer(a, r_fmt : FixFormat):
     a = _clean_input(a)
     
     if cl_fix_is_wide(r_fmt):
-        return a
+        # Force arbitrary-precision int representation (a may be np.int64, for example)
+        a = np.array(a, dtype=object)
+        if np.any(a < cl_fix_min_value(r_fmt)) or np.any(a > cl_fix_max_value(r_fmt)):
+            raise ValueError("cl_fix_from_integer: Value not in number format range")
+        return WideFix(a, r_fmt)._data
     else:
         return NarrowFix.from_integer(a, r_fmt)._data
 
-- 
2.43.0


From c9975c08059fa8c53b06843a064e192d35ebf5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 15/25] fix: NarrowFix.round misrounded large data of 53-bit
 formats

The sum of data and rounding offset may need more than 53 bits, so e.g.
2**53-1 in (0,53,0) was rounded to 2**53+2 with one fraction bit less by
NonSymNeg_s, SymZero_s and both convergent modes.
---
 .../models/python/en_cl_fix_pkg/narrow_fix.py | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
index d4c961a..48867ea 100644
--- a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
@@ -165,27 +165,33 @@ class NarrowFix:
         data = self.data
         fmt = self._fmt
         
-        # Add offset before truncating to implement rounding
+        # Truncate
+        data = data * 2.0 ** r_fmt.F
+        trunc = np.floor(data)
+        
+        # Decide whether to round up instead. An offset is not added before truncating because the
+        # sum might not fit in float64 without loss of precision (e.g. for 53-bit unsigned data).
         if r_fmt.F < fmt.F:
+            frac = data - trunc
             if rnd is FixRound.Trunc_s:
-                None
+                up = False
             elif rnd is FixRound.NonSymPos_s:
-                data = data + 2.0 ** (-r_fmt.F - 1)
+                up = frac >= 0.5
             elif rnd is FixRound.NonSymNeg_s:
-                data = data + 2.0 ** (-r_fmt.F - 1) - 2.0 ** -fmt.F
+                up = frac > 0.5
             elif rnd is FixRound.SymInf_s:
-                data = data + 2.0 ** (-r_fmt.F - 1) - 2.0 ** -fmt.F * (data < 0).astype(int)
+                up = np.where(data < 0, frac > 0.5, frac >= 0.5)
             elif rnd is FixRound.SymZero_s:
-                data = data + 2.0 ** (-r_fmt.F - 1) - 2.0 ** -fmt.F * (data >= 0).astype(int)
+                up = np.where(data < 0, frac >= 0.5, frac > 0.5)
             elif rnd is FixRound.ConvEven_s:
-                data = data + 2.0 ** (-r_fmt.F - 1) - 2.0 ** -fmt.F * ((np.floor(data * 2 ** r_fmt.F) + 1) % 2)
+                up = np.where(trunc % 2 == 0, frac > 0.5, frac >= 0.5)
             elif rnd is FixRound.ConvOdd_s:
-                data = data + 2.0 ** (-r_fmt.F - 1) - 2.0 ** -fmt.F * ((np.floor(data * 2 ** r_fmt.F)) % 2)
+                up = np.where(trunc % 2 == 0, frac >= 0.5, frac > 0.5)
             else:
                 raise ValueError(f"NarrowFix.round: Unsupported rounding mode: {rnd}")
+            trunc = trunc + up
         
-        # Truncate
-        data = np.floor(data * 2.0 ** r_fmt.F).astype(np.float64) * 2.0 ** -r_fmt.F
+        data = np.array(trunc * 2.0 ** -r_fmt.F, dtype=np.float64)
             
         return NarrowFix(data, r_fmt, copy=False)
     
-- 
2.43.0


From da7e04f8cbbf45a008cb907e2b8aebb521ba8911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 16/25] fix: from_uint64_array raised OverflowError for a
 single value

---
 bittrue/models/python/en_cl_fix_pkg/matlab_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/matlab_interface.py b/bittrue/models/python/en_cl_fix_pkg/matlab_interface.py
index 50d6a24..0ff4118 100644
--- a/bittrue/models/python/en_cl_fix_pkg/matlab_interface.py
+++ b/bittrue/models/python/en_cl_fix_pkg/matlab_interface.py
@@ -49,7 +49,8 @@ def from_uint64_array(data, fmt : FixFormat):
     
     # Weighted sum to recombine uint64s into wide *unsigned* integers
     weights = 2**(64*np.arange(data.shape[-1]).astype(object))
-    result = np.matmul(data, weights.T)
+    # (np.array also for a single value, which would become a Python int otherwise)
+    result = np.array(np.matmul(data, weights.T), dtype=object)
     
     # Handle the sign bit
     if fmt.S == 1:
-- 
2.43.0


From e3b18aa21414fd748c8e46005546c3d0c9655171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 17/25] fix: WideFix uint64 packing of scalars and of 3 or more
 dimensions

- from_uint64_array raised OverflowError for a single value and summed over
  the wrong dimension of arrays with 3 or more dimensions.
- to_uint64_array raised IndexError for a single value.
---
 bittrue/models/python/en_cl_fix_pkg/wide_fix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
index 759eb10..42ec2df 100644
--- a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
@@ -120,7 +120,7 @@ class WideFix:
         assert data.dtype == 'uint64', "from_uint64_array : requires input dtype == uint64."
         # Weighted sum to recombine uint64s into wide *unsigned* integers
         weights = 2**(64*np.arange(data.shape[0]).astype(object))
-        val = np.matmul(weights, data)
+        val = np.array(np.tensordot(weights, data.astype(object), axes=1), dtype=object)
         # Handle the sign bit
         val = np.where(val >= 2**(fmt.I+fmt.F), val - 2**(fmt.I+fmt.F+1), val)
         return WideFix(val, fmt)
@@ -203,8 +203,8 @@ class WideFix:
         # Populate 2D uint64 array
         u64_array = np.empty((n_ints,) + val.shape, dtype='uint64')
         for i in range(n_ints):
-            u64_array[i,:] = val % 2**64
-            val >>= 64
+            u64_array[i,...] = val % 2**64
+            val = val >> 64
         
         return u64_array
 
-- 
2.43.0


From 24a11a6ce200335fb1e232e3374f52ec902c1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 18/25] fix: cl_fix_random raised TypeError for shape () and
 wide formats

---
 bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py b/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
index 1e2ff6f..4e74a73 100644
--- a/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/en_cl_fix.py
@@ -515,7 +515,7 @@ def cl_fix_random(shape, fmt : FixFormat):
     fmt_min = cl_fix_min_value(fmt)
     fmt_max = cl_fix_max_value(fmt)
     if cl_fix_is_wide(fmt):
-        n = np.prod(shape)
+        n = int(np.prod(shape))
         xint = np.empty((n,), dtype=object)
         for i in range(n):
             xint[i] = random.randrange(int(fmt_min), int(fmt_max)+1)
-- 
2.43.0


From 7cedc56e4fb93337ef7909fbecae691a81b4de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 19/25] fix: WideFix.saturate accepted a change of the number
 of frac bits

The data was reinterpreted without scaling. NarrowFix.saturate and
cl_fix_saturate reject this.
---
 bittrue/models/python/en_cl_fix_pkg/wide_fix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
index 42ec2df..0a996ac 100644
--- a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
@@ -275,6 +275,8 @@ class WideFix:
         """
         Returns a saturated copy (when the number of MSBs is reduced).
         """
+        assert r_fmt.F == self._fmt.F, "WideFix.saturate: Number of frac bits cannot change."
+        
         # Copy object data so self is not modified and take floor to enforce int object type
         val = np.floor(self._data)
         
-- 
2.43.0


From 7c3605472f185e9caa333042eb0422daf22902d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 20/25] fix: VHDL cl_fix_from_real lost bits of scaled values
 above 2**30

---
 hdl/en_cl_fix_pkg.vhd | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/hdl/en_cl_fix_pkg.vhd b/hdl/en_cl_fix_pkg.vhd
index 70224b6..5a03e1a 100644
--- a/hdl/en_cl_fix_pkg.vhd
+++ b/hdl/en_cl_fix_pkg.vhd
@@ -798,11 +798,26 @@ package body en_cl_fix_pkg is
     end;
     
     function cl_fix_from_real(a : real; result_fmt : FixFormat_t; saturate : FixSaturate_t := SatWarn_s) return std_logic_vector is
+        -- ieee.math_real.floor (as implemented in the IEEE package body) returns its argument unchanged
+        -- above integer'high. Therefore, this local function is used instead.
+        function real_floor(a : real) return real is
+            constant Split_c    : real := 2.0**30;
+            variable High_v     : real;
+        begin
+            if abs(a) < Split_c then
+                return floor(a);
+            elsif abs(a) >= 2.0**52 then
+                return a; -- Has no fractional part.
+            end if;
+            High_v := floor(a/Split_c) * Split_c;
+            return High_v + floor(a - High_v);
+        end function;
+        
         -- Several toolchains have bugs in ieee.math_real."mod" (Vivado, Efinity, Gowin EDA).
         -- Therefore, this local function is used as a workaround.
         function real_mod(a, b : real) return real is
         begin
-            return a - b * floor(a/b);
+            return a - b * real_floor(a/b);
         end function;
         
         constant ChunkSize_c    : positive := 30;
@@ -832,17 +847,17 @@ package body en_cl_fix_pkg is
         -- Rescale to appropriate fractional bits, with half-up rounding
         -- (Note: floor(x + 0.5) would be inexact, for example for x = 0.5 - 2.0**(-54)).
         ASat_v := ASat_v * 2.0**result_fmt.F;
-        if ASat_v - floor(ASat_v) >= 0.5 then
-            ASat_v := floor(ASat_v) + 1.0;
+        if ASat_v - real_floor(ASat_v) >= 0.5 then
+            ASat_v := real_floor(ASat_v) + 1.0;
         else
-            ASat_v := floor(ASat_v);
+            ASat_v := real_floor(ASat_v);
         end if;
         
         -- Convert to fixed-point in chunks (required for formats that don't fit into integer)
         for i in 0 to ChunkCount_c-1 loop
             Chunk_v := std_logic_vector(to_unsigned(integer(real_mod(ASat_v, 2.0**ChunkSize_c)), ChunkSize_c));
             Result_v((i+1)*ChunkSize_c-1 downto i*ChunkSize_c) := Chunk_v;
-            ASat_v := floor(ASat_v/2.0**ChunkSize_c);
+            ASat_v := real_floor(ASat_v/2.0**ChunkSize_c);
         end loop;
         
         return Result_v(cl_fix_width(result_fmt)-1 downto 0);
-- 
2.43.0


From 9926a25cad7c60b09f8a7e21e2f95e41881cba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 21/25] fix: WideFix.from_real overflowed or missed a warning
 for extreme values

---
 bittrue/models/python/en_cl_fix_pkg/wide_fix.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
index 0a996ac..1437ed4 100644
--- a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
@@ -36,6 +36,7 @@
 
 import warnings
 import numpy as np
+from fractions import Fraction
 from copy import copy as shallow_copy
 from copy import deepcopy as deep_copy
 
@@ -73,9 +74,9 @@ class WideFix:
         if (saturate == FixSaturate.SatWarn_s) or (saturate == FixSaturate.Warn_s):
             amax_float = np.max(a)
             amin_float = np.min(a)
-            # Compare Python int or float with Python int: This is always exact.
-            amax = float(amax_float)*2.0**r_fmt.F
-            amin = float(amin_float)*2.0**r_fmt.F
+            # Compare exact numbers (scaled floats could overflow or underflow).
+            amax = Fraction(float(amax_float))*Fraction(2)**r_fmt.F
+            amin = Fraction(float(amin_float))*Fraction(2)**r_fmt.F
             if amax > int(WideFix.max_value(r_fmt)._data):
                 warnings.warn(f"from_real: Number {amax_float} exceeds maximum for format {r_fmt}", Warning)
             if amin < int(WideFix.min_value(r_fmt)._data):
@@ -83,7 +84,8 @@ class WideFix:
         
         # Quantize. Always use half-up rounding.
         # Note: floor(x + 0.5) would be inexact, for example for odd x in (2**52, 2**53).
-        x = np.asarray(a, dtype=np.float64)*2.0**r_fmt.F
+        # Note: Values far outside the format are limited first, to avoid overflow when scaling.
+        x = np.clip(np.asarray(a, dtype=np.float64), -2.0**r_fmt.I, 2.0**r_fmt.I)*2.0**r_fmt.F
         x = np.floor(x) + (x - np.floor(x) >= 0.5)
         
         # Force arbitrary-precision int representation
-- 
2.43.0


From 1ea1649ea4f997e26ab97d3c1f01c807be5d1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 22/25] fix: read_file returning SulvArray_t failed for files
 without data

---
 lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd b/lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd
index c6fdff6..d4c9caa 100644
--- a/lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd
+++ b/lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd
@@ -1333,8 +1333,8 @@ package body en_tb_fileio_text_pkg is
         constant mode       : in  text_data_mode_t := ascii_dec;
         constant skip       : in  natural := 1
     ) return SulvArray_t is
-        constant n_rows_c   : positive := get_file_size_lines(filename) - skip;
-        constant n_cols_c   : positive := get_file_size_columns(filename, skip, mode);
+        constant n_rows_c   : natural  := get_file_size_lines(filename) - skip;
+        constant n_cols_c   : natural  := get_file_size_columns(filename, skip, mode);
         
         file f              : text;
         variable line_v     : line;
-- 
2.43.0


From da621409852194f76ca763532714a149cf6f15ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 23/25] fix: shift amounts in narrow numpy integer types
 overflowed in the result format

---
 bittrue/models/python/en_cl_fix_pkg/en_cl_fix_types.py | 3 ++-
 bittrue/models/python/en_cl_fix_pkg/wide_fix.py        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/en_cl_fix_types.py b/bittrue/models/python/en_cl_fix_pkg/en_cl_fix_types.py
index f035a31..ad366a0 100644
--- a/bittrue/models/python/en_cl_fix_pkg/en_cl_fix_types.py
+++ b/bittrue/models/python/en_cl_fix_pkg/en_cl_fix_types.py
@@ -312,7 +312,8 @@ class FixFormat:
         if maxShift is None:
             maxShift = minShift
         assert minShift <= maxShift, f"minShift ({minShift}) must be <= maxShift ({maxShift})"
-        return FixFormat(a_fmt.S, a_fmt.I + maxShift, a_fmt.F - minShift)
+        # Note: Shifts may be narrow numpy integers (e.g. np.uint8), which could overflow here.
+        return FixFormat(a_fmt.S, a_fmt.I + int(maxShift), a_fmt.F - int(minShift))
     
     # Format for result of rounding
     @staticmethod
diff --git a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
index 1437ed4..354f456 100644
--- a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
@@ -425,7 +425,7 @@ class WideFix:
         else:
             # Variable shift (each value individually): The LSB weight of the shared intermediate
             # format is that of the smallest shift, so scale up by the difference (as Python ints).
-            extra_shift = (np.asarray(shift) - np.min(shift)).astype(object)
+            extra_shift = np.asarray(shift).astype(np.int64).astype(object) - int(np.min(shift))
             mid = WideFix(self._data * 2**extra_shift, mid_fmt, copy=False)
         
         return mid.resize(r_fmt, rnd, sat)
-- 
2.43.0


From 10e973c10b43c6f16fe4439f5722128c327477f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 24/25] fix: NarrowFix.from_real overflowed for half-precision
 input

---
 bittrue/models/python/en_cl_fix_pkg/narrow_fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
index 48867ea..fd3eb08 100644
--- a/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/narrow_fix.py
@@ -84,7 +84,7 @@ class NarrowFix:
         # Quantize.
         # Always use half-up rounding (to avoid implementing all rounding modes in floating point).
         # Note: floor(x + 0.5) would be inexact, for example for x = 0.5 - 2**-54.
-        x = a*(2.0**r_fmt.F)
+        x = np.asarray(a, dtype=np.float64)*(2.0**r_fmt.F)
         x = (np.floor(x) + (x - np.floor(x) >= 0.5))/2.0**r_fmt.F
         
         # Saturate
-- 
2.43.0


From 3be2f9ef84877fd471c4c5a3289c202f5c9db1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 25/25] fix: WideFix real conversions overflowed for formats of
 more than about 1000 bits

---
 .../models/python/en_cl_fix_pkg/wide_fix.py   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
index 354f456..21ca53b 100644
--- a/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
+++ b/bittrue/models/python/en_cl_fix_pkg/wide_fix.py
@@ -83,13 +83,14 @@ class WideFix:
                 warnings.warn(f"from_real: Number {amin_float} exceeds minimum for format {r_fmt}", Warning)
         
         # Quantize. Always use half-up rounding.
-        # Note: floor(x + 0.5) would be inexact, for example for odd x in (2**52, 2**53).
-        # Note: Values far outside the format are limited first, to avoid overflow when scaling.
-        x = np.clip(np.asarray(a, dtype=np.float64), -2.0**r_fmt.I, 2.0**r_fmt.I)*2.0**r_fmt.F
-        x = np.floor(x) + (x - np.floor(x) >= 0.5)
-        
-        # Force arbitrary-precision int representation
-        x = np.array(np.floor(np.array(x, dtype=object)), dtype=object)
+        # Note: Calculate with arbitrary-precision ints. Floats would be inexact (for example floor(x + 0.5)
+        # for odd x in (2**52, 2**53)) and could overflow or underflow when scaling.
+        # (At least 1D because numpy operations on 0D object arrays do not return arrays).
+        mantissa, exponent = np.frexp(np.atleast_1d(np.asarray(a, dtype=np.float64)))
+        x = np.frompyfunc(int, 1, 1)(mantissa*2.0**53)
+        shift = exponent.astype(object) - 53 + r_fmt.F
+        x = (2*x << np.maximum(shift, 0)) >> np.maximum(-shift, 0)  # Includes 1 extra frac bit.
+        x = ((x + 1) >> 1).reshape(np.shape(a))
         
         # Saturate
         if (saturate == FixSaturate.Sat_s) or (saturate == FixSaturate.SatWarn_s):
@@ -186,7 +187,9 @@ class WideFix:
             if (self.fmt.S == 1 and (np.any(self.data < -2**52) or np.any(self.data >= 2**52))) \
                 or (self.fmt.S == 0 and np.any(self.data >= 2**53)):
                 warnings.warn("WideFix.to_real: Possible loss of precision when converting WideFix data to float!", Warning)
-        return np.array(self._data/2.0**self._fmt.F, dtype=np.float64)
+        # Note: Divide ints (a float could overflow, although the result does not).
+        F = self._fmt.F
+        return np.array(self._data*2**max(-F, 0)/2**max(F, 0), dtype=np.float64)
     
     def to_uint64_array(self):
         """
-- 
2.43.0


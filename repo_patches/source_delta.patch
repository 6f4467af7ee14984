From ad467912daac8eb2947531f3b92a5a466e9717a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:14 +0000
Subject: [PATCH 01/17] fix: do not truncate column-major baseline offset to
 int in ComputeBaseline

For arrays with more than 65536 antennas the offset of the first baseline of
an antenna exceeds INT_MAX, so the antenna pair returned for a valid baseline
index was wrong.
---
 common/baseline_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/baseline_indices.h b/common/baseline_indices.h
index dd94a85..3f251ce 100644
--- a/common/baseline_indices.h
+++ b/common/baseline_indices.h
@@ -106,7 +106,7 @@ inline std::pair<size_t, size_t> ComputeBaseline(size_t baseline_index,
   } else {
     const size_t antenna2 = (1 + std::sqrt(1 + 8 * baseline_index)) / 2;
     // n is the number of baselines (a,b) with b < antenna2
-    const size_t n = int((antenna2 * (antenna2 - 1)) / 2);
+    const size_t n = (antenna2 * (antenna2 - 1)) / 2;
     const size_t antenna1 = baseline_index - n;
     return {antenna1, antenna2 - 1};
   }
-- 
2.43.0


From 7ac0007eb2138dacde1cf8d0a8204fa7a0b37023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:19 +0000
Subject: [PATCH 02/17] fix: print the Faraday rotation mode under the name
 that is accepted

ToString(CalType::kFaradayRotation) gave "faraday", which StringToCalType
rejects; every other mode name round-trips.
---
 base/CalType.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/CalType.cc b/base/CalType.cc
index 46694f9..0cc5a24 100644
--- a/base/CalType.cc
+++ b/base/CalType.cc
@@ -78,7 +78,7 @@ std::string ToString(CalType caltype) {
     case CalType::kRotationAndDiagonal:
       return "rotation+diagonal";
     case CalType::kFaradayRotation:
-      return "faraday";
+      return "faradayrotation";
     case CalType::kLeakage:
       return "leakage";
     case CalType::kLeakageAmplitude:
-- 
2.43.0


From 9cbc3da35df26049cf3ae7fba92c6f5deec373d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:40 +0000
Subject: [PATCH 03/17] fix: reject empty and blank strings in the strict
 numeric conversions

---
 common/StringTools.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/StringTools.cc b/common/StringTools.cc
index 6628312..580c733 100644
--- a/common/StringTools.cc
+++ b/common/StringTools.cc
@@ -102,7 +102,7 @@ long strToLong(const std::string& aString) {
   } else {
     val = strtol(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (st == end || endPtr != str + end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString + " is invalid or outside long int range");
@@ -158,7 +158,7 @@ unsigned long strToUlong(const std::string& aString) {
   } else {
     val = strtoul(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (st == end || endPtr != str + end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString +
@@ -203,7 +203,7 @@ float strToFloat(const std::string& aString) {
   // Clear errno since strtof does not do it.
   errno = 0;
   double val = strtof(str, &endPtr);
-  if (endPtr != str + end)
+  if (end == 0 || endPtr != str + end)
     throw std::runtime_error(aString + " is not a floating point value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString + " is invalid or outside float range");
@@ -217,7 +217,7 @@ double strToDouble(const std::string& aString) {
   // Clear errno since strtod does not do it.
   errno = 0;
   double val = strtod(str, &endPtr);
-  if (endPtr != str + end)
+  if (end == 0 || endPtr != str + end)
     throw std::runtime_error(aString + " is not a floating point value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString + " is invalid or outside double range");
@@ -243,7 +243,7 @@ int64_t strToInt64(const std::string& aString) {
   } else {
     val = strtoll(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (st == end || endPtr != str + end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString +
@@ -275,7 +275,7 @@ uint64_t strToUint64(const std::string& aString) {
   } else {
     val = strtoull(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (st == end || endPtr != str + end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(
-- 
2.43.0


From 40ff60ce2930ec3fc3769ea7d23dcab6e0910e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:23 +0000
Subject: [PATCH 04/17] fix: return unsigned 32-bit parameter values as
 unsigned

---
 common/ParameterValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterValue.h b/common/ParameterValue.h
index 6c37057..97e9f47 100644
--- a/common/ParameterValue.h
+++ b/common/ParameterValue.h
@@ -56,7 +56,7 @@ class ParameterValue {
   int16_t getInt16() const { return strToInt16(itsValue); }
   uint16_t getUint16() const { return strToUint16(itsValue); }
   int32_t getInt32() const { return strToInt32(itsValue); }
-  int32_t getUint32() const { return strToUint32(itsValue); }
+  uint32_t getUint32() const { return strToUint32(itsValue); }
   int64_t getInt64() const { return strToInt64(itsValue); }
   uint64_t getUint64() const { return strToUint64(itsValue); }
   float getFloat() const { return strToFloat(itsValue); }
-- 
2.43.0


From aa55a5cd2b7dea58ece26473721aa422fc1decaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:23 +0000
Subject: [PATCH 05/17] fix: do not overflow the unit buffer when parsing a
 time value

---
 common/ParameterValue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterValue.cc b/common/ParameterValue.cc
index 4839575..8d0cfa7 100644
--- a/common/ParameterValue.cc
+++ b/common/ParameterValue.cc
@@ -303,7 +303,7 @@ time_t ParameterValue::StringToTime_t(const std::string& aString) {
   time_t theTime;
   char unit[1024];
   unit[0] = '\0';
-  if (sscanf(aString.c_str(), "%ld%s", &theTime, unit) < 1) {
+  if (sscanf(aString.c_str(), "%ld%1023s", &theTime, unit) < 1) {
     throw ParException(aString + " is not a time value");
   }
   switch (unit[0]) {
-- 
2.43.0


From b716548e7140da1c5685918adfe649f4dd329d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:25 +0000
Subject: [PATCH 06/17] fix: do not overflow when a range ends at the largest
 integer

---
 common/StringTools.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/common/StringTools.cc b/common/StringTools.cc
index 580c733..9d9582a 100644
--- a/common/StringTools.cc
+++ b/common/StringTools.cc
@@ -371,11 +371,13 @@ std::string expandRangeString(const std::string& strng) {
           // Fill it in in ascending or descending order.
           std::ostringstream ostr;
           if (num < endnum) {
-            for (; num <= endnum; ++num) {
+            // Do not increment beyond endnum, which can be the largest int.
+            for (; num < endnum; ++num) {
               ostr << prefix << std::setfill('0') << std::setw(lennum) << num
-                   << suffix;
-              if (num != endnum) ostr << ',';
+                   << suffix << ',';
             }
+            ostr << prefix << std::setfill('0') << std::setw(lennum) << num
+                 << suffix;
           } else {
             for (; num >= endnum; --num) {
               ostr << prefix << std::setfill('0') << std::setw(lennum) << num
-- 
2.43.0


From 1ff81af0e0760f4abe28d4ff207d7c29505bb212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:24 +0000
Subject: [PATCH 07/17] fix: compare asked keys like the keys of a
 case-insensitive parset

---
 common/ParameterSetImpl.cc | 4 ++--
 common/ParameterSetImpl.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 44ddfd9..0b1827e 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -33,14 +33,14 @@ namespace common {
 // Default constructor
 //
 ParameterSetImpl::ParameterSetImpl(KeyCompare::Mode mode)
-    : KVMap(mode), itsMode(mode) {}
+    : KVMap(mode), itsMode(mode), itsAskedParms(mode) {}
 
 //
 // Construction by reading a parameter file.
 //
 ParameterSetImpl::ParameterSetImpl(const std::string& theFilename,
                                    KeyCompare::Mode mode)
-    : KVMap(mode), itsMode(mode) {
+    : KVMap(mode), itsMode(mode), itsAskedParms(mode) {
   readFile(theFilename, "", false);
 }
 
diff --git a/common/ParameterSetImpl.h b/common/ParameterSetImpl.h
index 741b35d..e7634dc 100644
--- a/common/ParameterSetImpl.h
+++ b/common/ParameterSetImpl.h
@@ -331,7 +331,7 @@ class ParameterSetImpl : public KVMap {
   /// Key comparison mode.
   const KeyCompare::Mode itsMode;
   /// The set of keys that have been asked.
-  mutable std::set<std::string> itsAskedParms;
+  mutable std::set<std::string, KeyCompare> itsAskedParms;
   /// Mutex to make access to parset thread-safe.
   mutable std::mutex itsMutex;
 };
-- 
2.43.0


From 6078173db9b5ee93a638348ac0b192acaa6e8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:28 +0000
Subject: [PATCH 08/17] fix: reject parset lines with an empty key

---
 common/ParameterSetImpl.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 0b1827e..c74c6af 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -244,12 +244,10 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
     if (line[st] != '#') {  // skip if only comment
       unsigned int end = rskipws(line, st, line.size());
       if (st < end) {             // skip empty line
-        unsigned int nonbl = st;  // Position of last non-blank character
-        unsigned int stval = st;  // Start of value
+        unsigned int stval = st;  // Start of key or value
         while (st < end) {
           if (line[st] == '"' || line[st] == '\'') {
             st = skipQuoted(line, st);
-            nonbl = st - 1;  // last char of quoted string
           } else if (line[st] == '#') {
             end = rskipws(line, stval, st);  // A comment ends the line
           } else {
@@ -260,15 +258,13 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
                 value.erase();
               }
               // Use ParameterValue to get the key without possible quotes.
-              ParameterValue pvkey(line.substr(stval, nonbl - stval + 1),
-                                   false);
+              const unsigned int endkey = rskipws(line, stval, st);
+              ParameterValue pvkey(line.substr(stval, endkey - stval), false);
               key = pvkey.getString();
               if (key.empty())
                 throw APSException("Empty key given in line " + line);
               key = prefix + key;
               stval = st + 1;
-            } else if (line[st] != ' ' && line[st] != '\t') {
-              nonbl = st;  // Position of last non-blank
             }
             st++;
           }
-- 
2.43.0


From 186651a2ee2cffc1f037e400309394f4e85b2d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:07 +0000
Subject: [PATCH 09/17] fix: Median of an even number of values could use a
 value that is not one of the two middle ones

---
 common/Median.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/Median.h b/common/Median.h
index 56ad3e6..ca42821 100644
--- a/common/Median.h
+++ b/common/Median.h
@@ -23,8 +23,8 @@ T Median(std::vector<T>& v) {
   if ((v.size() % 2) == 1) {
     return *target;
   } else {
-    auto before = target - 1;
-    std::nth_element(v.begin(), before, v.end());
+    // A second nth_element() could move the value at 'target'.
+    auto before = std::max_element(v.begin(), target);
     return (*target + *before) / static_cast<T>(2);
   }
 }
-- 
2.43.0


From 201c401aedbb9f1268f6fd12d2381ebdb4e484f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 10/17] fix: Grid::toDomains wrote outside its buffers for
 grids with more rows than columns

---
 parmdb/Grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parmdb/Grid.cc b/parmdb/Grid.cc
index b79a7ed..2b7e43d 100644
--- a/parmdb/Grid.cc
+++ b/parmdb/Grid.cc
@@ -240,7 +240,7 @@ void Grid::toDomains(std::vector<Box>& domains) const {
   unsigned int nry = ny();
   // Prefetch the lower and upper values for both axes.
   std::vector<double> sx(nrx), ex(nrx);
-  std::vector<double> sy(nrx), ey(nrx);
+  std::vector<double> sy(nry), ey(nry);
   for (unsigned int i = 0; i < nrx; ++i) {
     sx[i] = xaxis.lower(i);
     ex[i] = xaxis.upper(i);
-- 
2.43.0


From 5c0091a8fa7c383e0ff1d79fabbb55ff758a2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:05 +0000
Subject: [PATCH 11/17] fix: Axis::combine read past the axes when cells of the
 overlapping parts differ

---
 parmdb/Axis.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index 24c81ae..9f78ecc 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -226,6 +226,9 @@ Axis::ShPtr Axis::combine(const Axis& that, int& s1, int& e1, int& s2,
   }
   ++nr;
   // Check if the overlapping parts match.
+  if (s1 + nr > nr2 || s2 + nr > nr1)
+    throw std::runtime_error(
+        "Axis::combine: the intervals in the overlapping part mismatch");
   for (int i = 0; i < nr; ++i) {
     double low1 = lower(s2 + i);
     double upp1 = upper(s2 + i);
-- 
2.43.0


From 75f2b2175e5867606a4c28c9494bb18acc9729ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 12/17] fix: Epanechnikov kernel of the KernelSmoother was not
 symmetric

---
 ddecal/constraints/KernelSmoother.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ddecal/constraints/KernelSmoother.h b/ddecal/constraints/KernelSmoother.h
index a76376e..4646431 100644
--- a/ddecal/constraints/KernelSmoother.h
+++ b/ddecal/constraints/KernelSmoother.h
@@ -93,13 +93,11 @@ class KernelSmoother {
         else
           return std::exp(-x * x * NumType(9.0));
       case EpanechnikovKernel:
-        /// 3/4 * (1-x)^2;
-        if (_truncate && (x < NumType(-1.0) || x > NumType(1.0))) {
-          return 0.0;
-        } else {
-          x = NumType(1.0) - x;
-          return (NumType(3.0) / NumType(4.0)) * x * x;
-        }
+        /// 3/4 * (1-x^2);
+        if (x < NumType(-1.0) || x > NumType(1.0))
+          return NumType(0.0);
+        else
+          return (NumType(3.0) / NumType(4.0)) * (NumType(1.0) - x * x);
     }
   }
 
-- 
2.43.0


From 207fa2866c1126853868190c08d603100a8cb1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 13/17] fix: GetRange used the wrong largest x value when x
 values are not all positive

---
 common/PhaseLineFitter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/PhaseLineFitter.h b/common/PhaseLineFitter.h
index 33d51ef..e24fa01 100644
--- a/common/PhaseLineFitter.h
+++ b/common/PhaseLineFitter.h
@@ -100,7 +100,7 @@ inline SlopeFitRange GetRange(
   }
   const double min_x = data.front().x;
   const double max_x = data.back().x;
-  const double max_abs_x = max_x < 0.0 ? -min_x : max_x;
+  const double max_abs_x = std::max(std::abs(min_x), std::abs(max_x));
 
   // The search must go from 0 wraps to the maximum number of wraps that can
   // still lead to finding the right wrapping.
-- 
2.43.0


From 299c4da6c4ca9c96d624c1e71d6a15de118b1151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 14/17] fix: weighted phase fits rounded the weights down when
 choosing the wrapping

---
 ddecal/constraints/PieceWisePhaseFitter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/constraints/PieceWisePhaseFitter.h b/ddecal/constraints/PieceWisePhaseFitter.h
index 3a5a451..4992b00 100644
--- a/ddecal/constraints/PieceWisePhaseFitter.h
+++ b/ddecal/constraints/PieceWisePhaseFitter.h
@@ -299,7 +299,7 @@ class PieceWisePhaseFitter {
    */
   void fitSlope(const double* data, const double* frequencies,
                 const double* weights, size_t n, double& a, double& b) {
-    size_t qCounts[4] = {0, 0, 0, 0};
+    double qCounts[4] = {0.0, 0.0, 0.0, 0.0};
     for (size_t i = 0; i != n; ++i) {
       if (data[i] > M_PI * 1.5)
         qCounts[3] += weights[i];
-- 
2.43.0


From 537030f3c19e7d95b0af47b344798d2cec5731f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:03 +0000
Subject: [PATCH 15/17] fix: BdaBuffer rows had offset zero when no field was
 enabled yet

Fields added to the buffer afterwards were then read at the wrong place.
---
 base/BdaBuffer.cc | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/base/BdaBuffer.cc b/base/BdaBuffer.cc
index 26c2ecf..8e041b6 100644
--- a/base/BdaBuffer.cc
+++ b/base/BdaBuffer.cc
@@ -114,10 +114,11 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
   if (remaining_capacity_ < n_elements) {
     return false;
   }
+  // The offset also holds for fields that are added to the buffer later.
+  const std::size_t offset = GetNumberOfElements();
   remaining_capacity_ -= n_elements;
-  std::size_t offset = 0;
   for (auto data_it = data_.begin(); data_it != data_.end(); ++data_it) {
-    offset = data_it->second.size();
+    assert(offset == data_it->second.size());
     aocommon::UVector<std::complex<float>>& data_vector = data_it->second;
     if (data_it->first == "" && data) {
       data_vector.insert(data_vector.end(), data, data + n_elements);
@@ -126,11 +127,7 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
     }
   }
   if (flags_.capacity() > 0) {
-    if (offset == 0) {
-      offset = flags_.size();
-    } else {
-      assert(offset == flags_.size());
-    }
+    assert(offset == flags_.size());
     if (flags) {
       flags_.insert(flags_.end(), flags, flags + n_elements);
     } else {
@@ -138,11 +135,7 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
     }
   }
   if (weights_.capacity() > 0) {
-    if (offset == 0) {
-      offset = weights_.size();
-    } else {
-      assert(offset == weights_.size());
-    }
+    assert(offset == weights_.size());
     if (weights) {
       weights_.insert(weights_.end(), weights, weights + n_elements);
     } else {
-- 
2.43.0


From 9ec2dc3492482b7e7cfedfa2b631b7bbacd339d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:06 +0000
Subject: [PATCH 16/17] fix: GaussianSource without Stokes parameters left its
 position angle type uninitialised

---
 base/GaussianSource.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/GaussianSource.cc b/base/GaussianSource.cc
index ec76e49..7a0b736 100644
--- a/base/GaussianSource.cc
+++ b/base/GaussianSource.cc
@@ -14,6 +14,7 @@ namespace base {
 GaussianSource::GaussianSource(const Direction &direction)
     : PointSource(direction),
       itsPositionAngle(0.0),
+      itsPositionAngleIsAbsolute(true),
       itsMajorAxis(0.0),
       itsMinorAxis(0.0) {}
 
-- 
2.43.0


From 4cf1e7cbcef6447646f6d6ce511b53c6581fc148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:21 +0000
Subject: [PATCH 17/17] fix: time smearing was not applied to point sources
 when predicting all Stokes parameters

---
 base/Simulator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/Simulator.cc b/base/Simulator.cc
index 52f2ae6..0342e4d 100644
--- a/base/Simulator.cc
+++ b/base/Simulator.cc
@@ -255,7 +255,7 @@ void Simulator::visit(const PointSource& component) {
           ++y_q;
         }  // Channels.
 
-        if (itsCorrectFreqSmearing) {
+        if (itsCorrectTimeSmearing || itsCorrectFreqSmearing) {
 #pragma GCC ivdep
           for (size_t ch = 0; ch < itsNChannel; ++ch) {
             *buffer++ += dcomplex(smear_terms[ch] * temp_prod_real_I[ch],
-- 
2.43.0


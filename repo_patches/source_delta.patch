From ba6031b166649fc659010b7bab558f337b2f8ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 01/69] fix: interpret the second line of an observation RINEX
 header

The line after RINEX VERSION / TYPE was read before the loop and dropped by
the read at the top of the loop, so a header field recorded there (e.g.
SYS / # / OBS TYPES or APPROX POSITION XYZ) was lost.
---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ef2740a..ae9c936 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -193,7 +193,6 @@ int ObservationRnx::read_header() noexcept {
   __istream.getline(line, MAX_HEADER_CHARS);
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
       __marker_name = ngpt::rtrim(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
@@ -253,6 +252,7 @@ int ObservationRnx::read_header() noexcept {
         return 61;
       }
     }
+    __istream.getline(line, MAX_HEADER_CHARS);
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
-- 
2.43.0


From 929294de7f33ff50837763dba26ea62fa720c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 02/69] fix: do not accept a truncated or unreadable
 observation RINEX header

A failed getline, or a line shorter than 60 characters, left the label field
of the line buffer uninitialised or holding a previous line, so that a header
whose end was never read could be taken as complete.
---
 src/obsrnx.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ae9c936..c985c5c 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -173,7 +173,9 @@ int ObservationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  std::memset(line, 0, sizeof line);
+  if (!__istream.getline(line, MAX_HEADER_CHARS))
+    return 9;
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -190,7 +192,9 @@ int ObservationRnx::read_header() noexcept {
   int dummy_it = 0;
   std::size_t szt;
   char *end;
-  __istream.getline(line, MAX_HEADER_CHARS);
+  std::memset(line, 0, sizeof line);
+  if (!__istream.getline(line, MAX_HEADER_CHARS))
+    return 13;
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
@@ -252,7 +256,9 @@ int ObservationRnx::read_header() noexcept {
         return 61;
       }
     }
-    __istream.getline(line, MAX_HEADER_CHARS);
+    std::memset(line, 0, sizeof line);
+    if (!__istream.getline(line, MAX_HEADER_CHARS))
+      return 13;
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
@@ -320,7 +326,9 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     ++resolved;
     ++vecsz;
     if (resolved == 13) {
-      __istream.getline(line, MAX_HEADER_CHARS);
+      std::memset(line, 0, sizeof line);
+      if (!__istream.getline(line, MAX_HEADER_CHARS))
+        return 5;
       if (std::strncmp(line + 60, "SYS / # / OBS TYPES",
                        std::strlen("SYS / # / OBS TYPES"))) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
-- 
2.43.0


From 3009814c1adcdb0b51bf320d03846070bc664b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 03/69] fix: read no continuation line for exactly 13, 26, ...
 observation types

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index c985c5c..ed524ca 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -325,7 +325,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     }
     ++resolved;
     ++vecsz;
-    if (resolved == 13) {
+    if (resolved == 13 && vecsz < obsnum) {
       std::memset(line, 0, sizeof line);
       if (!__istream.getline(line, MAX_HEADER_CHARS))
         return 5;
-- 
2.43.0


From 251c004b72b2e28341d35fea2ea882658e3ca67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 04/69] fix: report an unknown satellite system in SYS / # /
 OBS TYPES

char_to_satsys throws inside a noexcept function, which terminated the program.
---
 src/obsrnx.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ed524ca..e602915 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -295,7 +295,12 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
 
   char *end;
   std::vector<ngpt::ObservationCode> obsvec;
-  auto satsys = ngpt::char_to_satsys(line[0]);
+  SATELLITE_SYSTEM satsys;
+  try {
+    satsys = ngpt::char_to_satsys(line[0]);
+  } catch (std::runtime_error &e) {
+    return 6;
+  }
   if (__obstmap.find(satsys) != __obstmap.end()) {
     std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to resolve "
                  "field: \"SYS / # / OBS TYPES\"";
-- 
2.43.0


From 02b337761948c8d94584d1fa5068abdf9132e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 05/69] fix: read exactly 14 characters of an observation value

The LLI and SSI digits that follow the F14.3 field were taken as further
decimals of the value, and an errno left by unrelated code made a valid value
fail.
---
 src/obsrnx.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index e602915..d80e932 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -58,8 +58,12 @@ int RawRnxObs__::resolve(char *str) noexcept {
     __val = RNXOBS_MISSING_VAL;
     return 0;
   }
-  __val = std::strtod(str, &end);
-  if (errno || str == end) {
+  char val[15];
+  std::memcpy(val, str, 14);
+  val[14] = '\0';
+  errno = 0;
+  __val = std::strtod(val, &end);
+  if (errno || val == end) {
     errno = 0;
     return 1;
   }
-- 
2.43.0


From 1e720780400ae93a37517236dc43932db25239a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 06/69] fix: do not take a stale errno for a conversion error
 in observation RINEX

strtol/strtod never reset errno, so a value left there by unrelated calls (or
by an interrupted read inside getline) made valid fields fail.
---
 src/obsrnx.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index d80e932..059b1b0 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -218,6 +218,7 @@ int ObservationRnx::read_header() noexcept {
       __antenna = ant;
     } else if (!std::strncmp(line + 60, "APPROX POSITION XYZ",
                              std::strlen("APPROX POSITION XYZ"))) {
+      errno = 0;
       if (!ngpt::__char2double__<3, 14>(line, __approx)) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"APPROX POSITION XYZ\"";
@@ -225,6 +226,7 @@ int ObservationRnx::read_header() noexcept {
       }
     } else if (!std::strncmp(line + 60, "ANTENNA: DELTA H/E/N",
                              std::strlen("ANTENNA: DELTA H/E/N"))) {
+      errno = 0;
       if (!ngpt::__char2double__<3, 14>(line, __eccentricity)) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"ANTENNA: DELTA H/E/N\"";
@@ -236,8 +238,9 @@ int ObservationRnx::read_header() noexcept {
         return szt;
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              std::strlen("RCV CLOCK OFFS APPL"))) {
+      errno = 0;
       int i = std::strtol(line, &end, 10);
-      if ((errno || (line + 3) == end) || (i != 0 && i != 1)) {
+      if ((errno || line == end) || (i != 0 && i != 1)) {
         errno = 0;
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"RCV CLOCK OFFS APPL\"";
@@ -311,6 +314,7 @@ int ObservationRnx::__resolve_obstypes_304__(const char *cline) noexcept {
     std::cerr << "\n        Fatal Already resolved this satellite system!";
     return 1;
   }
+  errno = 0;
   int obsnum = std::strtol(line + 3, &end, 10);
   if (errno || (line + 3) == end) {
     errno = 0;
@@ -396,6 +400,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
   char *end;
   const char *start = cline + 2;
   int dints[5];
+  errno = 0;
   for (int i = 0; i < 5; i++) {
     dints[i] = static_cast<int>(std::strtol(start, &end, 10));
     if (errno || start == end) {
@@ -779,6 +784,7 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 
   std::memset(tbuf, '\0', 17);
   std::memcpy(tbuf, __buf + 1, 2);
+  errno = 0;
   prn = std::strtol(tbuf, &end, 10);
   if ((errno || tbuf == end) || (prn < 1 || prn > 99))
     return 1;
-- 
2.43.0


From f594b45667a0d5fee7f454c3075b5193994a923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 07/69] fix: accept an observation value at the end of a line
 without LLI and SSI

Writers drop trailing blanks, so the last value of a satellite line may be 14
characters long; it was reported as missing.
---
 src/obsrnx.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 059b1b0..32fbc99 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -796,8 +796,9 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
     double obsval = 0e0;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
-      if (len >= idx + 16) { // line ends before column of observable
-        std::memcpy(tbuf, __buf + idx, 16);
+      if (len >= idx + 14) { // (else) line ends before column of observable
+        std::memset(tbuf, ' ', 16);
+        std::memcpy(tbuf, __buf + idx, std::min(len - idx, std::size_t(16)));
         if (raw_obs.resolve(tbuf))
           return 2;
         if (raw_obs.__val != RNXOBS_MISSING_VAL) {
-- 
2.43.0


From a203936a7affbfe6a89dd5785b25ce7ff69e2bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 08/69] fix: a combination with a missing part is missing

A part after the missing one was still added to RNXOBS_MISSING_VAL.
---
 src/obsrnx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 32fbc99..c5675f1 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -806,9 +806,11 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
         } else {
           --status;
           obsval = RNXOBS_MISSING_VAL;
+          break;
         }
       } else {
         raw_obs.__val = obsval = RNXOBS_MISSING_VAL;
+        break;
       }
     }
     vals[k] = obsval;
-- 
2.43.0


From 554365a9e2a66ee87240481f7cfcdbbd95ed6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 09/69] fix: report failed reads and impossible satellite
 counts of an epoch

read_next_epoch ignored failing reads: on a bad or failed stream it returned 0
with no satellites for ever, could deliver a cut-off line as data, reported an
I/O error as end of file, and wrote past the caller's vector when an epoch
header announced more satellites than fit.
---
 src/obsrnx.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index c5675f1..8ac16e2 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -410,6 +410,8 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
       errno = 0;
       return 2;
     }
+    if (!*end)
+      return 2;
     start = ++end;
   }
 #ifdef DEBUG
@@ -874,6 +876,9 @@ int ObservationRnx::collect_epoch(
       std::vector<std::pair<ngpt::Satellite, std::vector<double>>>::iterator;
 
   satscollected = 0;
+  // never write past the end of the output vector
+  if (numsats < 0 || satobs.size() < (std::size_t)numsats)
+    return 2;
 #ifdef DEBUG
   assert(satobs.size() >= (std::size_t)numsats);
 #endif
@@ -884,7 +889,8 @@ int ObservationRnx::collect_epoch(
   // loop through every satellite in epoch
   while (sat_it < numsats) {
     // resolve satellite system
-    __istream.getline(__buf, __buf_sz);
+    if (!__istream.getline(__buf, __buf_sz))
+      return 3;
     try {
       s = char_to_satsys(*__buf);
     } catch (std::exception &e) {
@@ -963,7 +969,8 @@ int ObservationRnx::read_next_epoch(
   sats = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
-    __istream.getline(__buf, __buf_sz);
+    if (!__istream.getline(__buf, __buf_sz))
+      return 10;
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
@@ -974,11 +981,14 @@ int ObservationRnx::read_next_epoch(
     if ((j = collect_epoch(num_sats, sats, mmap, satobs)))
       return 30 + j;
   }
+  // an I/O error is not the end of the file
+  if (__istream.bad())
+    return 10;
   if (__istream.eof()) {
     __istream.clear();
     return -1;
   }
-  return 0;
+  return __istream.good() ? 0 : 10;
 }
 
 /// This function will return a vector with a big enough size to read all epochs
-- 
2.43.0


From 8bab3a3cabf69fff4e98e5f8184a552126fc05a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 10/69] fix: make the line buffer large enough for epoch header
 lines

With one or two observables per system the buffer is shorter than an epoch
header line, and the first epoch could not be read.
---
 src/obsrnx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 8ac16e2..ed1ec23 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -93,7 +93,8 @@ ObservationRnx::ObservationRnx(const char *filename)
         std::to_string(j));
   }
   std::size_t maxobs = this->max_obs();
-  __buf_sz = maxobs * 16 + 4;
+  // an epoch header line may be longer than a line of observations
+  __buf_sz = std::max(maxobs * 16 + 4, (std::size_t)MAX_HEADER_CHARS);
   __buf = new char[__buf_sz];
 }
 
-- 
2.43.0


From 6ea8688f5b9d0f7715eb20eb6843fc6ce99c9505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 11/69] fix: let rewind() of an observation reader recover from
 a failed read

seekg does nothing while badbit or failbit is set.
---
 src/obsrnx.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 996437b..6a5f3d1 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -57,7 +57,10 @@ public:
       std::is_nothrow_move_assignable<std::ifstream>::value) = default;
 
   /// @brief Set the stream to end of header
-  void rewind() noexcept { __istream.seekg(__end_of_head); }
+  void rewind() noexcept {
+    __istream.clear();
+    __istream.seekg(__end_of_head);
+  }
 
   /// @brief Max observables of any satellite system
   int max_obs() const noexcept;
-- 
2.43.0


From 543cabdb7a15c4f24ff0e3cadb4286872530f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 12/69] fix: do not free the line buffer of a moved observation
 reader twice

The defaulted move operations copied the owning raw pointer.
---
 src/obsrnx.cpp | 22 +++++++++-------------
 src/obsrnx.hpp |  3 ++-
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ed1ec23..eac9680 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -95,17 +95,13 @@ ObservationRnx::ObservationRnx(const char *filename)
   std::size_t maxobs = this->max_obs();
   // an epoch header line may be longer than a line of observations
   __buf_sz = std::max(maxobs * 16 + 4, (std::size_t)MAX_HEADER_CHARS);
-  __buf = new char[__buf_sz];
+  __buf.reset(new char[__buf_sz]);
 }
 
 /// Destructor; close the stream and delete the allocated buffer
 ObservationRnx::~ObservationRnx() noexcept {
   if (__istream.is_open())
     __istream.close();
-  if (__buf) {
-    __buf_sz = 0;
-    delete[] __buf;
-  }
 }
 
 /// Loop through the observables of every satellite system, and return the
@@ -786,7 +782,7 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 #endif
 
   std::memset(tbuf, '\0', 17);
-  std::memcpy(tbuf, __buf + 1, 2);
+  std::memcpy(tbuf, __buf.get() + 1, 2);
   errno = 0;
   prn = std::strtol(tbuf, &end, 10);
   if ((errno || tbuf == end) || (prn < 1 || prn > 99))
@@ -794,14 +790,14 @@ int ObservationRnx::sat_epoch_collect(const std::vector<vecof_idpair> &sysobs,
 
   RawRnxObs__ raw_obs;
   int k = 0;
-  std::size_t len = std::strlen(__buf);
+  std::size_t len = std::strlen(__buf.get());
   for (const auto &obsrv : sysobs) { // For every observable in vector
     double obsval = 0e0;
     for (const auto &pr : obsrv) { // for every raw obs. in observable
       std::size_t idx = pr.first * 16 + 3;
       if (len >= idx + 14) { // (else) line ends before column of observable
         std::memset(tbuf, ' ', 16);
-        std::memcpy(tbuf, __buf + idx, std::min(len - idx, std::size_t(16)));
+        std::memcpy(tbuf, __buf.get() + idx, std::min(len - idx, std::size_t(16)));
         if (raw_obs.resolve(tbuf))
           return 2;
         if (raw_obs.__val != RNXOBS_MISSING_VAL) {
@@ -890,14 +886,14 @@ int ObservationRnx::collect_epoch(
   // loop through every satellite in epoch
   while (sat_it < numsats) {
     // resolve satellite system
-    if (!__istream.getline(__buf, __buf_sz))
+    if (!__istream.getline(__buf.get(), __buf_sz))
       return 3;
     try {
-      s = char_to_satsys(*__buf);
+      s = char_to_satsys(__buf[0]);
     } catch (std::exception &e) {
       std::cerr << "\n[ERROR] ObservationRnx::collect_epoch() Failed to "
                    "resolve Satellite System";
-      std::cerr << "\n        Line was: \"" << __buf << "\"";
+      std::cerr << "\n        Line was: \"" << __buf.get() << "\"";
       return 1;
     }
 
@@ -970,12 +966,12 @@ int ObservationRnx::read_next_epoch(
   sats = 0;
   if ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
-    if (!__istream.getline(__buf, __buf_sz))
+    if (!__istream.getline(__buf.get(), __buf_sz))
       return 10;
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
-    if ((j = __resolve_epoch_304__(__buf, mjd, secofday, flag, num_sats,
+    if ((j = __resolve_epoch_304__(__buf.get(), mjd, secofday, flag, num_sats,
                                    rcvr_coff)))
       return 20 + j;
     // resolve observation block
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index 6a5f3d1..d4db430 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -7,6 +7,7 @@
 #include "satellite.hpp"
 #include "satsys.hpp"
 #include <fstream>
+#include <memory>
 #include <map>
 #include <vector>
 #ifdef DEBUG
@@ -171,7 +172,7 @@ private:
   std::map<SATELLITE_SYSTEM, std::vector<ObservationCode>> __obstmap;
   ///< A char buffer which can hold an observation line
   ///< with maximum number of observables
-  char *__buf{nullptr};
+  std::unique_ptr<char[]> __buf;
   ///< Length of __buf, aka length of maximum observation
   ///< line in file (this->max_obs()*16+4)
   std::size_t __buf_sz{0};
-- 
2.43.0


From 8fa2979ea8848a2d6ab42a5759700b0e0c994b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 13/69] fix: report a damaged satellite or epoch of a
 navigation record

set_from_rnx3() is noexcept, but char_to_satsys() and strptime_ymd_hms()
throw on such input, which ended the process.
---
 src/navrnx.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index f8b6c8b..c7b0d9f 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -71,8 +71,6 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
 /// @param[in] inp Input file (nav RINEX v3) stream, placed before (aka first
 ///                line to be read is:) "SV/ EPOCH / SV CLK"
 /// @return    Anything other than 0 denotes an error.
-/// @todo the line toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line+3); may
-/// throw! what can i do about this?
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
@@ -87,8 +85,12 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   if (!inp.getline(line, MAX_RECORD_CHARS)) {
     return 1;
   }
-  sys__ = ngpt::char_to_satsys(*line);
-  toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  try { // both of these may throw
+    sys__ = ngpt::char_to_satsys(*line);
+    toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
+  } catch (std::exception &) {
+    return 2;
+  }
   prn__ = std::strtol(line + 1, &str_end, 10);
   if (!prn__ || errno == ERANGE) {
     errno = 0;
-- 
2.43.0


From 059657d9f3a8822f0eeaba954e10ebcb4a00e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 14/69] fix: do not take a stale errno for a conversion error
 in navigation records

---
 src/navrnx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index c7b0d9f..d4eb0a6 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -74,6 +74,7 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
+  errno = 0; // strtol and strtod only ever set it
 
 #ifdef DEBUG
   if (!inp.good())
-- 
2.43.0


From 4ad185ce1ef3b45df9a09e238b5d20ce17657c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 15/69] fix: read the values of a navigation record by their
 columns

A blank field took the value of the next one, a short line the values of
the line before it, and a number cut off at the end of the file was
delivered as if it were complete.
---
 src/navrnx.cpp | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index d4eb0a6..1509a6c 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -63,6 +63,35 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
   return lines_to_read;
 }
 
+/// @brief Read the next line of a data block; whatever the line does not hold
+///        is null
+/// @param[in] num_chars Characters the line must have if it is the last thing
+///                      in the file and not terminated, i.e. maybe cut off
+bool __read_line__(std::ifstream &inp, char *line,
+                   std::size_t num_chars) noexcept {
+  std::memset(line, 0, MAX_RECORD_CHARS);
+  if (!inp.getline(line, MAX_RECORD_CHARS))
+    return false;
+  return !inp.eof() || std::strlen(line) >= num_chars;
+}
+
+/// @brief Resolve N fields of 19 characters each; a blank (or missing) field
+///        is zero, see RINEX v3.x
+/// @return True if all fields were resolved; false otherwise
+bool __resolve_fields__(const char *line, double *data, int N) noexcept {
+  constexpr int M = 19;
+  char field[M + 1] = {'\0'};
+  for (int i = 0; i < N; i++) {
+    std::strncpy(field, line, M);
+    if (ngpt::string_is_empty(field))
+      data[i] = 0e0;
+    else if (!ngpt::__char2double__<1, M>(field, data + i))
+      return false;
+    line += M;
+  }
+  return true;
+}
+
 /// @details: Resolve a Nav. RINEX v3.x data block to a NavDataFrame. The
 ///           function expect that the first line to be read is:
 ///           "SV/ EPOCH / SV CLK". Depending on the satellite system (to be
@@ -83,7 +112,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
 
   // Read the first line.
   // ------------------------------------------------------------
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!__read_line__(inp, line, 23 + 3 * 19)) {
     return 1;
   }
   try { // both of these may throw
@@ -99,7 +128,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
   // replace 'D' or 'd' with 'e' in remaining floats
   __for2cpp__(line + 23);
-  if (!__char2double__<3, 19>(line + 23, data__)) {
+  if (!__resolve_fields__(line + 23, data__, 3)) {
     errno = 0;
     return 3;
   }
@@ -113,32 +142,32 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // read all but the last line (** all but galileo or beidou **)
   if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou) {
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!__read_line__(inp, line, 4)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
       __for2cpp__(line);
       // read 4 doubles into data__
-      if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
+      if (!__resolve_fields__(line + 4, data__ + 3 + ln * 4, 4)) {
         errno = 0;
         return 6;
       }
     }
   } else { // galileo and beidou have an empty record in line #5
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!inp.getline(line, MAX_RECORD_CHARS)) {
+      if (!__read_line__(inp, line, 4)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
       __for2cpp__(line);
       // read 4 doubles into data__
       if (ln != 4) {
-        if (!__char2double__<4, 19>(line + 4, data__ + 3 + ln * 4)) {
+        if (!__resolve_fields__(line + 4, data__ + 3 + ln * 4, 4)) {
           errno = 0;
           return 6;
         }
       } else {
-        if (!__char2double__<3, 19>(line + 4, data__ + 3 + ln * 4)) {
+        if (!__resolve_fields__(line + 4, data__ + 3 + ln * 4, 3)) {
           errno = 0;
           return 6;
         }
@@ -147,13 +176,13 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
 
   // read last line
-  if (!inp.getline(line, MAX_RECORD_CHARS)) {
+  if (!__read_line__(inp, line, 4 + 19 * last_line_recs)) {
     return 7;
   }
   // replace 'D' or 'd' with 'e'
   __for2cpp__(line);
   // read remaining last_line_recs doubles into data__
-  if (!__char2double__<19>(line + 4, data__ + 3 + ln * 4, last_line_recs)) {
+  if (!__resolve_fields__(line + 4, data__ + 3 + ln * 4, last_line_recs)) {
     errno = 0;
     return 8;
   }
-- 
2.43.0


From b0ce72ba3aaeb3d67706bd4b540947eafbc0c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 16/69] fix: do not search for ever at a navigation record of
 unknown length

For a record that starts with M ignore_next_block() skipped nothing and
reported success, hence find_next() and find_next_valid() never returned.
---
 src/navrnx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 1509a6c..3bae696 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -327,6 +327,8 @@ int NavigationRnx::ignore_next_block() noexcept {
   char line[MAX_RECORD_CHARS];
   int last_line_recs = 0;
   int lines_in_block = __lines_per_satsys_v3__(sys, last_line_recs);
+  if (lines_in_block < 0)
+    return 3;
   // read and skip lines
   for (int ln = 0; ln < lines_in_block; ln++) {
     if (!__istream.getline(line, MAX_RECORD_CHARS)) {
-- 
2.43.0


From 43eb886e7af2c2a6283161dc446db545c4d1d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 17/69] fix: let rewind() of a navigation reader recover from a
 failed read

---
 src/navrnx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 3bae696..2380f0b 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -370,6 +370,7 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
 /// @details Set the nav RINEX stream to end of header, ready to restart
 ///          reading nav data blocks
 void NavigationRnx::rewind(pos_type pos) noexcept {
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
-- 
2.43.0


From 6f13a16781a4f3362a5fba3ac657a62b121c6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 18/69] fix: do not report a failed read of a navigation file
 as its end

---
 src/navrnx.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 2380f0b..a5edb94 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -313,9 +313,9 @@ int NavigationRnx::ignore_next_block() noexcept {
   if (!__istream.good())
     return 50;
 #endif
-  char s = __istream.peek();
+  int s = __istream.peek();
   if (s == EOF)
-    return clear_stream(-1);
+    return __istream.eof() ? clear_stream(-1) : 50;
 
   ngpt::SATELLITE_SYSTEM sys;
   try {
@@ -353,9 +353,9 @@ ngpt::SATELLITE_SYSTEM NavigationRnx::peak_satsys(int &status) noexcept {
   }
 #endif
   status = 0;
-  char s = __istream.peek();
+  int s = __istream.peek();
   if (s == EOF) {
-    status = clear_stream(-1);
+    status = __istream.eof() ? clear_stream(-1) : 50;
     return SATELLITE_SYSTEM::mixed;
   }
 
-- 
2.43.0


From 85e1fc8d0f4530ff5672e71701d9e910874fd679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 19/69] fix: let find_next_valid() accept any satellite for prn
 -1

as its documentation says.
---
 src/navrnx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 2a748e5..98c95ec 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -654,7 +654,7 @@ public:
       if (csys == sys) {
         if ((status = this->read_next_record(frame)))
           return clear_stream(status);
-        if (prn == frame.prn()) {
+        if (prn == -1 || prn == frame.prn()) {
           auto toc = frame.toc<milliseconds>();
           // std::cout<<" found msg with ToC
           // "<<ngpt::strftime_ymd_hms<ngpt::milliseconds>(toc); are we too far
-- 
2.43.0


From f7cf4eb4ee4bbadfa4e2da0ac680e7660014bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 20/69] fix: report systems find_next_valid() cannot handle

It is noexcept, but sv_health() throws for them, which ended the process.
---
 src/navrnx.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 98c95ec..858377e 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -644,6 +644,10 @@ public:
     if (!__istream.good())
       return 50;
 #endif
+    // health and validity are only known for these
+    if (sys != SATELLITE_SYSTEM::gps && sys != SATELLITE_SYSTEM::glonass &&
+        sys != SATELLITE_SYSTEM::galileo && sys != SATELLITE_SYSTEM::beidou)
+      return 60;
     curpos = __istream.tellg();
     int status = 0, dummy_it = 0;
     SATELLITE_SYSTEM csys;
-- 
2.43.0


From aa797773a19397d1ec57a1aa3725d28ee43d6eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 21/69] fix: GLONASS time of ephemeris next to a week boundary

When ToC and the message frame time lie on different sides of Saturday
midnight, ToE was wrong by a week.
---
 src/navrnx.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 858377e..d8382de 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -527,6 +527,11 @@ private:
 #endif
     // days difference (if any)
     int offset = dw_toc - dw_toe;
+    // ToC and ToE may be on different sides of the week boundary
+    if (offset > 3)
+      offset -= 7;
+    else if (offset < -3)
+      offset += 7;
     // seconds of day (for ToE)
     long sd_toe = sw_toe % 86400L;
 #ifdef DEBUG
-- 
2.43.0


From 5a25140cf5b0852058aed88fc2e68e1c6032c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 22/69] fix: do not accept a truncated or unreadable navigation
 RINEX header

A failed getline() leaves the text of the line before, and short lines
were compared with whatever the stack held.
---
 src/navrnx.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index a5edb94..95f3580 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -247,7 +247,9 @@ int NavigationRnx::read_header() noexcept {
 
   // Read the first line. Get version, data-type and sat. system.
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  std::memset(line, 0, MAX_HEADER_CHARS);
+  if (!__istream.getline(line, MAX_HEADER_CHARS))
+    return 13;
   __version = std::strtof(line, &str_end);
   if (str_end == line)
     return 10; // transformation to float has failed
@@ -262,10 +264,14 @@ int NavigationRnx::read_header() noexcept {
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
-  __istream.getline(line, MAX_HEADER_CHARS);
+  std::memset(line, 0, MAX_HEADER_CHARS);
+  if (!__istream.getline(line, MAX_HEADER_CHARS))
+    return 14;
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    std::memset(line, 0, MAX_HEADER_CHARS);
+    if (!__istream.getline(line, MAX_HEADER_CHARS))
+      return 14;
     dummy_it++;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
-- 
2.43.0


From 8714d4012d4587d455743f7556971226a1cf6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 23/69] fix: integrate GLONASS orbits to the asked instant

The last step was always a whole minute, so positions were those of up to
a minute later (or earlier).
---
 src/glonav.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glonav.cpp b/src/glonav.cpp
index 44614b0..374561a 100644
--- a/src/glonav.cpp
+++ b/src/glonav.cpp
@@ -321,6 +321,9 @@ int NavDataFrame::glo_ecef(double t_sec, double *state) const noexcept {
   // Perform Runge-Kutta 4th
   // while (std::abs(ti-t_lim)>1e-9 && ++max_it<1500) {
   while (h > 0 ? ti < t_lim : ti > t_lim && ++max_it < 1500) {
+    // do not step past t_lim
+    if (std::abs(t_lim - ti) < std::abs(h))
+      h = t_lim - ti;
     // compute k1
     glo_state_deriv(yti, acc, k1);
     // compute k2
-- 
2.43.0


From 5edd0386f68b82287caea34605bc8034df3fe142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 24/69] fix: reset errno right before the conversions of a
 navigation record

An interrupted read in between sets it, too.
---
 src/navrnx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 95f3580..3cd9040 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -83,6 +83,7 @@ bool __resolve_fields__(const char *line, double *data, int N) noexcept {
   char field[M + 1] = {'\0'};
   for (int i = 0; i < N; i++) {
     std::strncpy(field, line, M);
+    errno = 0; // reading may have set it, strtod does not reset it
     if (ngpt::string_is_empty(field))
       data[i] = 0e0;
     else if (!ngpt::__char2double__<1, M>(field, data + i))
@@ -103,7 +104,6 @@ bool __resolve_fields__(const char *line, double *data, int N) noexcept {
 int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   char line[MAX_RECORD_CHARS];
   char *str_end;
-  errno = 0; // strtol and strtod only ever set it
 
 #ifdef DEBUG
   if (!inp.good())
@@ -121,6 +121,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   } catch (std::exception &) {
     return 2;
   }
+  errno = 0; // reading may have set it, strtol does not reset it
   prn__ = std::strtol(line + 1, &str_end, 10);
   if (!prn__ || errno == ERANGE) {
     errno = 0;
-- 
2.43.0


From 39434ab8015159202f6ff358d5adeb2dcf7048b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 25/69] fix: stop reading an SP3 epoch when there is nothing
 left to read

On a file without an 'EOF' line (e.g. cut off) and on a failing read
get_next_epoch() never returned, or reported the last line once more.
---
 src/sp3c.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c239596..736abac 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -249,7 +249,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (!__istream.good())
     return 1;
-  __istream.getline(line, MAX_RECORD_CHARS);
+  if (!__istream.getline(line, MAX_RECORD_CHARS))
+    return 1;
 
   if (line[0] != '*' || line[1] != ' ')
     return 2;
@@ -295,7 +296,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   do {
     c = __istream.peek();
     if (c != '*') {
-      __istream.getline(line, MAX_RECORD_CHARS);
+      if (!__istream.getline(line, MAX_RECORD_CHARS))
+        return 12; /* read failed, or file ends without an 'EOF' line */
       if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
-- 
2.43.0


From c3b0461d164412f0f68716d42ec938e76825c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 26/69] fix: do not write past the vector of SP3 records

An epoch with more position lines than the header announces satellites
was written beyond the end of the caller's vector.
---
 src/sp3c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 736abac..f6f3922 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -301,6 +301,8 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
       if (*line == 'P') { /* position and clock line */
         if ((j = get_next_position(line, sys, prn, state, flag)))
           return j + 20;
+        if (it == vec.end()) /* more satellites than there is room for */
+          return 13;
         *it = Sp3EpochSvRecord{sys, prn, state, flag};
         ++it;
       } else if (!std::strncmp(line, "EOF", 3)) { /* EOF */
-- 
2.43.0


From d6a8e650c111ef01718eb7087cdbbadcae04b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 27/69] fix: do not take SP3 flags from an earlier line

The flag columns of a line shorter than 80 characters held whatever the
buffer did.
---
 src/sp3c.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index f6f3922..0193a34 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -249,6 +249,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (!__istream.good())
     return 1;
+  std::memset(line, 0, MAX_RECORD_CHARS);
   if (!__istream.getline(line, MAX_RECORD_CHARS))
     return 1;
 
@@ -296,6 +297,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   do {
     c = __istream.peek();
     if (c != '*') {
+      std::memset(line, 0, MAX_RECORD_CHARS);
       if (!__istream.getline(line, MAX_RECORD_CHARS))
         return 12; /* read failed, or file ends without an 'EOF' line */
       if (*line == 'P') { /* position and clock line */
-- 
2.43.0


From 952e8bd63354c3093893ecd3d5a9e5c80c2a4af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 28/69] fix: the SP3 orbit prediction flag is a P in column 80

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 0193a34..29e646b 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -378,7 +378,7 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
     flag.set(Sp3Event::clock_prediction);
   if (line[78] == 'M')
     flag.set(Sp3Event::maneuver);
-  if (line[79] == 'E')
+  if (line[79] == 'P')
     flag.set(Sp3Event::orbit_prediction);
 
   return 0;
-- 
2.43.0


From 812d77947c55c51c45d9eb4338dc3d5cc53c3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 29/69] fix: rounding of SP3 times

The fraction of day of the header is rounded to 13 digits; comparing it
exactly rejected valid files that do not start at midnight. Fractions of a
second were truncated, e.g. 0.57 sec to 569999 microseconds.
---
 src/sp3c.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 29e646b..50f0435 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -2,6 +2,7 @@
 #include "ggdatetime/datetime_read.hpp"
 #include <algorithm>
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -109,7 +110,7 @@ int Sp3c::read_header() noexcept {
   start_epoch__ = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(year), ngpt::month(month), ngpt::day_of_month(dom),
       ngpt::hours(hour), ngpt::minutes(minute),
-      ngpt::microseconds(static_cast<long>(sec * 1e6)));
+      ngpt::microseconds(std::lround(sec * 1e6)));
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
@@ -125,12 +126,12 @@ int Sp3c::read_header() noexcept {
   // validate start epoch (#1)
   ngpt::microseconds sw;
   auto gwk1 = start_epoch__.as_gps_wsow(sw);
-  if (gwk1.as_underlying_type() != gwk || sw.to_fractional_seconds() != sec) {
+  if (gwk1.as_underlying_type() != gwk || std::abs(sw.to_fractional_seconds() - sec) > 1e-6) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 22;
   }
   sec = std::strtod(line + 24, &str_end);
-  interval__ = ngpt::microseconds(static_cast<long>(sec * 1e6));
+  interval__ = ngpt::microseconds(std::lround(sec * 1e6));
   int mjd = std::strtol(line + 39, &str_end, 10);
   if (!mjd || errno == ERANGE) {
     errno = 0;
@@ -138,7 +139,7 @@ int Sp3c::read_header() noexcept {
   }
   sec = std::strtod(line + 45, &str_end);
   sec += mjd;
-  if (sec != start_epoch__.as_mjd()) {
+  if (std::abs(sec - start_epoch__.as_mjd()) > 1e-10) {
     std::cerr << "\n[ERROR] Sp3c::read_header() Failed to validate start date";
     return 24;
   }
@@ -278,7 +279,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   t = ngpt::datetime<ngpt::microseconds>(
       ngpt::year(date[0]), ngpt::month(date[1]), ngpt::day_of_month(date[2]),
       ngpt::hours(date[3]), ngpt::minutes(date[4]),
-      ngpt::microseconds(static_cast<long>(fsec * 1e6)));
+      ngpt::microseconds(std::lround(fsec * 1e6)));
 
   ngpt::SATELLITE_SYSTEM sys;
   int prn, j = 0;
-- 
2.43.0


From b727771e67e11705702da2f275ea1324faa01095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 30/69] fix: let rewind() of an SP3 reader work after the end
 or a failed read

---
 src/sp3c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 50f0435..26b04cb 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -39,6 +39,7 @@ Sp3c::Sp3c(const char *filename)
 }
 
 void Sp3c::rewind(pos_type pos) noexcept {
+  __istream.clear();
   if (pos == pos_type(-1)) {
     __istream.seekg(__end_of_head);
   } else {
-- 
2.43.0


From 78f913339b04ea3f147f672df91b0f2971aa6bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 31/69] fix: do not accept a truncated or unreadable SP3 header

A failed getline() leaves the text of the line before, and short lines
were compared with whatever the stack held.
---
 src/sp3c.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 26b04cb..6cbaa25 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -20,6 +20,12 @@ constexpr int MAX_HEADER_LINES{1000};
 /// Max record characters (for a navigation data block)
 constexpr int MAX_RECORD_CHARS{128};
 
+/// @brief Read the next header line; whatever the line does not hold is null
+static bool __read_line__(std::ifstream &inp, char *line) noexcept {
+  std::memset(line, 0, MAX_HEADER_CHARS);
+  return static_cast<bool>(inp.getline(line, MAX_HEADER_CHARS));
+}
+
 /// @details Sp3c constructor, using a filename. The constructor will
 ///          initialize (set) the _filename attribute and also (try to)
 ///          open the input stream (i.e. _istream).
@@ -65,7 +71,8 @@ int Sp3c::read_header() noexcept {
 
   // Read the first line. Error codes 10-19
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  if (!__read_line__(__istream, line))
+    return 9;
   if (*line != '#')
     return 10; // validate version
   version__ = *(line + 1);
@@ -115,7 +122,8 @@ int Sp3c::read_header() noexcept {
 
   // Read the second line. Error codes [20,30)
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  if (!__read_line__(__istream, line))
+    return 9;
   if (*line != '#' || line[1] != '#')
     return 20;
   int gwk = std::strtol(line + 3, &str_end, 10);
@@ -150,7 +158,8 @@ int Sp3c::read_header() noexcept {
   // '++'
   // Error code [10,40]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  if (!__read_line__(__istream, line))
+    return 9;
   if (*line != '+' || line[1] != ' ')
     return 30;
   num_sats__ = std::strtol(line + 3, &str_end, 10);
@@ -159,7 +168,8 @@ int Sp3c::read_header() noexcept {
     return 31;
   }
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "+ ", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    if (!__read_line__(__istream, line))
+      return 9;
   }
   if (dummy_it >= MAX_HEADER_LINES) {
     return 32;
@@ -173,7 +183,8 @@ int Sp3c::read_header() noexcept {
   if (*line != '+' || line[1] != '+')
     return 40;
   while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "++", 2)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    if (!__read_line__(__istream, line))
+      return 9;
     char c = __istream.peek();
     if (c != '+')
       break;
@@ -185,18 +196,21 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%c'; collect the system time
   // Error code [50,60]
   // ------------------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  if (!__read_line__(__istream, line))
+    return 9;
   if (*line != '%' || line[1] != 'c')
     return 50;
   time_sys__ = std::string(line + 9, 3);
-  __istream.getline(line, MAX_HEADER_CHARS);
+  if (!__read_line__(__istream, line))
+    return 9;
   if (*line != '%' || line[1] != 'c')
     return 51;
 
   // two line follow, starting with '%f'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    if (!__read_line__(__istream, line))
+      return 9;
     if (*line != '%' || line[1] != 'f')
       return 60;
   }
@@ -204,7 +218,8 @@ int Sp3c::read_header() noexcept {
   // two line follow, starting with '%i'
   // ------------------------------------------------------------
   for (int i = 0; i < 2; i++) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    if (!__read_line__(__istream, line))
+      return 9;
     if (*line != '%' || line[1] != 'i')
       return 70;
   }
@@ -213,7 +228,8 @@ int Sp3c::read_header() noexcept {
   // ------------------------------------------------------------
   char c = __istream.peek();
   while (c == '/') {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    if (!__read_line__(__istream, line))
+      return 9;
     if (line[1] != '*')
       return 80;
     c = __istream.peek();
@@ -222,6 +238,8 @@ int Sp3c::read_header() noexcept {
   }
 
   // Mark the end of header
+  if (!__istream.good())
+    return 82;
   __end_of_head = __istream.tellg();
 
   // All done !
-- 
2.43.0


From 918f6d755696fa186fc7ead7dfd971726b7942ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 32/69] fix: do not take a stale errno for a conversion error
 in SP3 files

---
 src/navrnx.cpp | 7 ++++---
 src/sp3c.cpp   | 2 ++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 3cd9040..b0ccf94 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -67,8 +67,8 @@ int __lines_per_satsys_v3__(ngpt::SATELLITE_SYSTEM s,
 ///        is null
 /// @param[in] num_chars Characters the line must have if it is the last thing
 ///                      in the file and not terminated, i.e. maybe cut off
-bool __read_line__(std::ifstream &inp, char *line,
-                   std::size_t num_chars) noexcept {
+static bool __read_line__(std::ifstream &inp, char *line,
+                          std::size_t num_chars) noexcept {
   std::memset(line, 0, MAX_RECORD_CHARS);
   if (!inp.getline(line, MAX_RECORD_CHARS))
     return false;
@@ -78,7 +78,8 @@ bool __read_line__(std::ifstream &inp, char *line,
 /// @brief Resolve N fields of 19 characters each; a blank (or missing) field
 ///        is zero, see RINEX v3.x
 /// @return True if all fields were resolved; false otherwise
-bool __resolve_fields__(const char *line, double *data, int N) noexcept {
+static bool __resolve_fields__(const char *line, double *data,
+                               int N) noexcept {
   constexpr int M = 19;
   char field[M + 1] = {'\0'};
   for (int i = 0; i < N; i++) {
diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 6cbaa25..c6085fa 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -61,6 +61,7 @@ int Sp3c::read_header() noexcept {
   char line[MAX_HEADER_CHARS];
   char *str_end;
   int dummy_it = 0;
+  errno = 0; // strtol and strtod only ever set it
 
   // The stream should be open by now!
   if (!__istream.is_open())
@@ -266,6 +267,7 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
   char line[MAX_RECORD_CHARS];
   char *end, *start, c;
   int date[5];
+  errno = 0; // strtol and strtod only ever set it
 
   if (!__istream.good())
     return 1;
-- 
2.43.0


From 59fcf370224c8482a765d8a0de156341f29ccec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 33/69] fix: do not accept a truncated or unreadable ANTEX
 header

---
 src/antex.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 74b2de7..3efdb65 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -45,6 +45,16 @@ constexpr std::size_t eoh_size{std::strlen("END OF HEADER")};
 ///          8*(std::size_t)((zen2-zen1)/dzen) < MAX_GRID_CHARS-10
 constexpr std::size_t MAX_GRID_CHARS{512};
 
+/// Read the next line into a buffer of the given size. What the line does not
+/// fill is set to zero, so that no test of a (short) line ever looks at
+/// characters of an earlier one.
+/// @return false if no (complete) line could be read
+static bool next_line(std::ifstream &fin, char *line,
+                      std::size_t size) noexcept {
+  std::memset(line, 0, size);
+  return static_cast<bool>(fin.getline(line, size));
+}
+
 // Forward declerationof non Antex:: functions;
 int collect_pco(std::ifstream &, ngpt::AntennaPcoList &) noexcept;
 int resolve_satellite_antenna_line(const char *, Satellite &) noexcept;
@@ -123,7 +133,8 @@ int Antex::read_header() noexcept {
 
   // Read the first line. Get version and system.
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
+  if (!next_line(__istream, line, MAX_HEADER_CHARS))
+    return 2;
   // strtod will keep on reading untill a non-valid
   // char is read. Fuck this, lets split the string
   // so that it only reads the valid chars (for version).
@@ -146,21 +157,21 @@ int Antex::read_header() noexcept {
   // Read the second line. Get PCV TYPE / REFANT.
   // If the atx is of type relative, then just return with error
   // ----------------------------------------------------
-  __istream.getline(line, MAX_HEADER_CHARS);
-  if (*line != 'A') {
+  if (!next_line(__istream, line, MAX_HEADER_CHARS) || *line != 'A') {
     return 12;
   }
 
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
   int dummy_it = 0;
-  __istream.getline(line, MAX_HEADER_CHARS);
-  while (dummy_it < MAX_HEADER_LINES &&
+  next_line(__istream, line, MAX_HEADER_CHARS);
+  while (__istream && dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
-    __istream.getline(line, MAX_HEADER_CHARS);
+    next_line(__istream, line, MAX_HEADER_CHARS);
     dummy_it++;
   }
-  if (dummy_it >= MAX_HEADER_LINES) {
+  // the stream must be good, or else we cannot mark the end of the header
+  if (!__istream.good() || dummy_it >= MAX_HEADER_LINES) {
     return 20;
   }
 
-- 
2.43.0


From 8658ce2c0d60922fdf2815fc21b959cddb9fafc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 34/69] fix: do not evaluate characters of earlier lines in
 ANTEX files

---
 src/antex.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 3efdb65..d89facb 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -216,7 +216,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the first line. Should be "START OF ANTENNA"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!next_line(__istream, line, MAX_HEADER_CHARS) ||
       std::strncmp(line + 60, "START OF ANTENNA", 16)) {
     if (__istream.eof()) {
       __istream.clear();
@@ -227,7 +227,7 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 
   // Read the next line. Should be "TYPE / SERIAL NO"
   // ----------------------------------------------------
-  if (!__istream.getline(line, MAX_HEADER_CHARS) ||
+  if (!next_line(__istream, line, MAX_HEADER_CHARS) ||
       std::strncmp(line + 60, "TYPE / SERIAL NO", 16)) {
     return 11;
   }
@@ -263,7 +263,7 @@ int Antex::skip_rest_of_antenna() noexcept {
 
   int dummy_it = 0;
   do {
-    __istream.getline(line, MAX_GRID_CHARS);
+    next_line(__istream, line, MAX_GRID_CHARS);
     dummy_it++;
   } while (std::strncmp(line + 60, "END OF ANTENNA", 14) &&
            dummy_it < max_antenna_lines);
@@ -424,7 +424,7 @@ int check_time_interval(std::ifstream &fin,
   int max_lines = 5000;
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(line, MAX_GRID_CHARS) ||
+  if (!next_line(fin, line, MAX_GRID_CHARS) ||
       std::strncmp(line + 60, "METH / BY / # / DATE", 20)) {
     return 10;
   }
@@ -433,7 +433,7 @@ int check_time_interval(std::ifstream &fin,
   bool from_ok = false, to_ok = false;
   ngpt::datetime<ngpt::seconds> from, to;
   do {
-    fin.getline(line, MAX_GRID_CHARS);
+    next_line(fin, line, MAX_GRID_CHARS);
     if (!std::strncmp(line + 60, "VALID FROM", 10)) {
       try {
         from = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
@@ -703,27 +703,27 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   char tmp[11];
 
   // next field is 'METH / BY / # / DATE'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "METH / BY / # / DATE", 20)) {
     return 1;
   }
 
   // next field is 'DAZI'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "DAZI", 4)) {
     // dazi = std::stof(hline+2, nullptr);
     return 2;
   }
 
   // next field is 'ZEN1 / ZEN2 / DZEN'
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "ZEN1 / ZEN2 / DZEN", 18)) {
     return 3;
   }
 
   // next field is '# OF FREQUENCIES'
   int num_of_freqs = 0;
-  if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+  if (!next_line(fin, hline, MAX_HEADER_CHARS) ||
       std::strncmp(hline + 60, "# OF FREQUENCIES", 16)) {
     return 4;
   } else {
@@ -737,7 +737,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
   // From here up untill the block 'START OF FREQUENCY' there can be a number
   // of optional fields.
   do {
-    fin.getline(hline, MAX_HEADER_CHARS);
+    next_line(fin, hline, MAX_HEADER_CHARS);
   } while (fin && std::strncmp(hline + 60, "START OF FREQUENCY", 18));
 
   ngpt::SATELLITE_SYSTEM ss;
@@ -750,9 +750,9 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
       // wait!! this might be a frequency rms from the previous frequency
       if (!std::strncmp(hline + 60, "START OF FREQ RMS", 17)) {
         do {
-          fin.getline(gline, MAX_GRID_CHARS);
+          next_line(fin, gline, MAX_GRID_CHARS);
         } while (fin && std::strncmp(gline + 60, "END OF FREQ RMS", 15));
-        if (!fin.getline(hline, MAX_HEADER_CHARS) ||
+        if (!next_line(fin, hline, MAX_HEADER_CHARS) ||
             std::strncmp(hline + 60, "START OF FREQUENCY", 18)) {
           return 11;
         }
@@ -769,7 +769,7 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     }
     obsc.band() = bn;
     // next field is 'NORTH / EAST / UP'
-    if (fin.getline(hline, MAX_HEADER_CHARS) &&
+    if (next_line(fin, hline, MAX_HEADER_CHARS) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
       tmp[10] = '\0';
       std::memcpy(tmp, hline, 10);
@@ -785,10 +785,10 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     pco_list.__vecref__().emplace_back(obsc, ss, dn, de, du);
     // skip lines until "END OF FREQUENCY"
     do {
-      fin.getline(gline, MAX_GRID_CHARS);
+      next_line(fin, gline, MAX_GRID_CHARS);
     } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));
     // read the following line into hline
-    fin.getline(hline, MAX_HEADER_CHARS);
+    next_line(fin, hline, MAX_HEADER_CHARS);
   }
 
   return 0;
-- 
2.43.0


From a7af5f49dbc445ff19fb6aebb31df304af65f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 35/69] fix: stop reading an ANTEX antenna when there is
 nothing left to read

---
 src/antex.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index d89facb..9568c3e 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -265,10 +265,10 @@ int Antex::skip_rest_of_antenna() noexcept {
   do {
     next_line(__istream, line, MAX_GRID_CHARS);
     dummy_it++;
-  } while (std::strncmp(line + 60, "END OF ANTENNA", 14) &&
+  } while (__istream && std::strncmp(line + 60, "END OF ANTENNA", 14) &&
            dummy_it < max_antenna_lines);
 
-  if (dummy_it >= max_antenna_lines) {
+  if (!__istream || dummy_it >= max_antenna_lines) {
     return 1;
   }
 
@@ -433,7 +433,9 @@ int check_time_interval(std::ifstream &fin,
   bool from_ok = false, to_ok = false;
   ngpt::datetime<ngpt::seconds> from, to;
   do {
-    next_line(fin, line, MAX_GRID_CHARS);
+    if (!next_line(fin, line, MAX_GRID_CHARS)) {
+      return 13;
+    }
     if (!std::strncmp(line + 60, "VALID FROM", 10)) {
       try {
         from = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
@@ -452,7 +454,7 @@ int check_time_interval(std::ifstream &fin,
     if (from_ok && to_ok)
       break;
   } while (std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
-           dummy_it < max_lines);
+           ++dummy_it < max_lines);
   // do not use the following check
   // } while (std::strncmp(line+60, "END OF ANTENNA", 14) && dummy_it <
   // max_lines); cause this may leave the stream just after the line "END OF
@@ -460,7 +462,7 @@ int check_time_interval(std::ifstream &fin,
   // will cause a whole antenna record block to be skipped. This was indeed a
   // bug (for the function find_satellite_antenna()
 
-  if (++dummy_it >= max_lines) {
+  if (dummy_it >= max_lines) {
     return 20;
   }
 
@@ -787,6 +789,9 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     do {
       next_line(fin, gline, MAX_GRID_CHARS);
     } while (fin && std::strncmp(gline + 60, "END OF FREQUENCY", 16));
+    if (!fin) {
+      return 8;
+    }
     // read the following line into hline
     next_line(fin, hline, MAX_HEADER_CHARS);
   }
-- 
2.43.0


From 7667f98d67c60294122274c55085b689b14d2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 36/69] fix: let ANTEX queries work after one that failed

---
 src/antex.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 9568c3e..c299aa4 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -292,7 +292,9 @@ int Antex::skip_rest_of_antenna() noexcept {
 int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
                                       ReceiverAntenna &ant_out,
                                       pos_type &ant_pos) noexcept {
-  // go to the top of the file, after the header
+  // go to the top of the file, after the header; an earlier query may have
+  // left the stream in a failed state
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant, best_match_ant;
@@ -504,7 +506,9 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
                                   pos_type &ant_pos, Satellite *sv) noexcept {
   char line[MAX_HEADER_CHARS];
 
-  // go to the top of the file, after the header
+  // go to the top of the file, after the header; an earlier query may have
+  // left the stream in a failed state
+  __istream.clear();
   __istream.seekg(__end_of_head, std::ios_base::beg);
 
   ReceiverAntenna cur_ant;
-- 
2.43.0


From 147995a99407912e0058cc38a5315af946ef2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 37/69] fix: report receiver antennas that are not in the ANTEX
 file

---
 src/antex.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index c299aa4..268957a 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -299,7 +299,8 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
 
   ReceiverAntenna cur_ant, best_match_ant;
   pos_type best_match_pos;
-  int stat1, stat2;
+  bool best_match_found = false;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant))) {
     if (cur_ant.is_same(ant_in)) {
@@ -308,14 +309,15 @@ int Antex::find_closest_antenna_match(const ReceiverAntenna &ant_in,
       return -1;
     }
     if (cur_ant.compare_model(ant_in) && !cur_ant.has_serial()) {
+      best_match_found = true;
       best_match_ant = cur_ant;
       best_match_pos = __istream.tellg();
     }
     if ((stat2 = skip_rest_of_antenna()))
       break;
   }
-  // some error status is set
-  if (stat1 > 0 || stat2) {
+  // some error status is set, or there is no such antenna
+  if (stat1 > 0 || stat2 || !best_match_found) {
     return 1;
   }
   ant_out = best_match_ant;
@@ -513,7 +515,7 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
 
   ReceiverAntenna cur_ant;
   Satellite cur_sat;
-  int stat1, stat2;
+  int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant, line))) {
     cur_sat.system() = SATELLITE_SYSTEM::mixed;
-- 
2.43.0


From 4a1bd381b09d1349e9066b3beca9042c472c5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 38/69] fix: do not report SVN or COSPAR id of another
 satellite

---
 src/antex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 268957a..a202aa7 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -506,7 +506,7 @@ int check_time_interval(std::ifstream &fin,
 int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
                                   const ngpt::datetime<ngpt::seconds> &at,
                                   pos_type &ant_pos, Satellite *sv) noexcept {
-  char line[MAX_HEADER_CHARS];
+  char line[MAX_HEADER_CHARS] = {'\0'};
 
   // go to the top of the file, after the header; an earlier query may have
   // left the stream in a failed state
@@ -518,7 +518,7 @@ int Antex::find_satellite_antenna(int prn, SATELLITE_SYSTEM ss,
   int stat1, stat2 = 0;
 
   while (!(stat1 = read_next_antenna_type(cur_ant, line))) {
-    cur_sat.system() = SATELLITE_SYSTEM::mixed;
+    cur_sat = Satellite(); // keep nothing of the last entry
     ant_pos = __istream.tellg();
     if (!resolve_satellite_antenna_line(line, cur_sat)) {
       if (cur_sat.prn() == prn && cur_sat.system() == ss) {
-- 
2.43.0


From 70e3f24b1565d3b0879ea07cf4b27cc73e2b7bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 39/69] fix: keep the whole COSPAR id of a satellite

---
 src/antex.cpp     | 3 +++
 src/satellite.cpp | 2 +-
 src/satellite.hpp | 8 ++++----
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index a202aa7..310f8d3 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -400,6 +400,9 @@ int resolve_satellite_antenna_line(const char *line, Satellite &sat) noexcept {
     char *c = sat.cospar();
     std::memcpy(c, line + 50, COSPAR_ID_CHARS);
     c[COSPAR_ID_CHARS] = '\0';
+    for (int i = COSPAR_ID_CHARS - 1; i >= 0 && c[i] == ' '; i--) {
+      c[i] = '\0';
+    }
   }
 
   return 0;
diff --git a/src/satellite.cpp b/src/satellite.cpp
index 5b3a100..9e35772 100644
--- a/src/satellite.cpp
+++ b/src/satellite.cpp
@@ -18,5 +18,5 @@ std::string Satellite::to_string(bool compact) const noexcept {
     sat += ("-" + s);
 
   return sat +
-         std::string("/" + std::string(__cospar, detail::COSPAR_ID_CHARS));
+         std::string("/" + std::string(__cospar));
 }
diff --git a/src/satellite.hpp b/src/satellite.hpp
index dd07986..dfb789d 100644
--- a/src/satellite.hpp
+++ b/src/satellite.hpp
@@ -27,7 +27,7 @@
 namespace ngpt {
 
 namespace detail {
-constexpr int COSPAR_ID_CHARS = 8;
+constexpr int COSPAR_ID_CHARS = 10;
 }
 
 /// @class Satellite
@@ -50,11 +50,11 @@ class Satellite {
 public:
   /// @brief Default constructor
   explicit Satellite(SATELLITE_SYSTEM s = SATELLITE_SYSTEM::mixed) noexcept
-      : __system(s), __prn(-1), __svn(-1), __antenna(){};
+      : __system(s), __prn(-1), __svn(-1), __antenna(), __cospar{'\0'} {};
 
   /// @brief Default constructor
   Satellite(SATELLITE_SYSTEM s, int PRN) noexcept
-      : __system(s), __prn(PRN), __svn(-1), __antenna(){};
+      : __system(s), __prn(PRN), __svn(-1), __antenna(), __cospar{'\0'} {};
 
   /// @brief   Get the antenna type (non-const)
   /// @return  The satellite's antenna model as SatelliteAntenna
@@ -113,7 +113,7 @@ private:
                               ///< (QZSS); blank (Compass, SBAS)
   SatelliteAntenna __antenna; ///< antenna type
   char
-      __cospar[detail::COSPAR_ID_CHARS + 1]; ///< The COSPAR id, aka "YYYY-XXXA"
+      __cospar[detail::COSPAR_ID_CHARS + 1]; ///< The COSPAR id, aka "YYYY-XXXA[A]"
 };                                           // Satellite
 
 } // namespace ngpt
-- 
2.43.0


From 90a8df872e871a196563714ea46761f019bd7f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 40/69] fix: report damaged phase centre offsets of an ANTEX
 file

---
 src/antex.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 310f8d3..a9cb4f1 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -783,12 +783,16 @@ int collect_pco(std::ifstream &fin, ngpt::AntennaPcoList &pco_list) noexcept {
     if (next_line(fin, hline, MAX_HEADER_CHARS) &&
         !std::strncmp(hline + 60, "NORTH / EAST / UP", 17)) {
       tmp[10] = '\0';
-      std::memcpy(tmp, hline, 10);
-      dn = std::stod(tmp);
-      std::memcpy(tmp, hline + 10, 10);
-      de = std::stod(tmp);
-      std::memcpy(tmp, hline + 20, 10);
-      du = std::stod(tmp);
+      try {
+        std::memcpy(tmp, hline, 10);
+        dn = std::stod(tmp);
+        std::memcpy(tmp, hline + 10, 10);
+        de = std::stod(tmp);
+        std::memcpy(tmp, hline + 20, 10);
+        du = std::stod(tmp);
+      } catch (std::exception &) {
+        return 9;
+      }
     } else {
       return 7;
     }
-- 
2.43.0


From 0ced37cc60a2d14c4468d6f07794b8adc2f03d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 41/69] fix: do not accept a truncated or unreadable SATELLIT
 header

---
 src/bern_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 704763e..d709bb7 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -163,6 +163,9 @@ int ngpt::BernSatellit::initialize() noexcept {
   // Cool! we leave the stream here and mark this position; next line to be
   // read is an empty line and then a record line
   __istream.getline(line, MAX_SATELLIT_CHARS);
+  // the stream must be good, or else we cannot mark the position
+  if (!__istream.good())
+    return 14;
   __part2 = __istream.tellg();
 
   // All done !
-- 
2.43.0


From 6371f00717aecf84504784a8c3d657a850d9daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 42/69] fix: let SATELLIT queries work after one that failed

---
 src/bern_utils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index d709bb7..fe76ab6 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -47,8 +47,11 @@ int ngpt::BernSatellit::get_frequency_channel(
   if (!__istream.is_open())
     return 1;
 
-  // Go to the top of the relevant field (in file)
-  __istream.seekg(__part2);
+  // Go to the top of the relevant field (in file); an earlier query may have
+  // left the stream in a failed state
+  __istream.clear();
+  if (!__istream.seekg(__part2))
+    return 1;
 
   // keep reading untill we match svn and epoch
   int line_count = 0, csvn;
-- 
2.43.0


From 822779af0f8afdc5a9c2dac06d5db7b854949f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 43/69] fix: do not report a failed read of a SATELLIT file as
 its end

---
 src/bern_utils.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index fe76ab6..b648457 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -58,8 +58,22 @@ int ngpt::BernSatellit::get_frequency_channel(
   char *end;
   bool satellite_matched = false;
   ngpt::datetime<ngpt::seconds> start, stop;
-  __istream.getline(line, MAX_SATELLIT_CHARS);
   while (!satellite_matched && line_count < max_lines) {
+    // what the line does not fill is set to zero, so that we never look at
+    // characters of an earlier one
+    std::memset(line, 0, MAX_SATELLIT_CHARS);
+    __istream.getline(line, MAX_SATELLIT_CHARS);
+    // end of file (no more records) or a failed read; note that a line the
+    // file ends in is incomplete
+    if (!__istream)
+      return (__istream.eof() && !__istream.bad()) ? -1 : 4;
+    if (__istream.eof())
+      return 4;
+    // check for end of records (the first line may be empty)
+    if ((line_count && std::strlen(line) < 10) ||
+        !std::strncmp("PART 3", line, 6))
+      return -1;
+    ++line_count;
     // we are only interested in satellites of type: 'MW' everything else
     // is desregarded and may cause a problem when resolving; e.g. SLR records
     // have no SVN field
@@ -93,11 +107,6 @@ int ngpt::BernSatellit::get_frequency_channel(
         }
       }
     }
-    __istream.getline(line, MAX_SATELLIT_CHARS);
-    ++line_count;
-    // check for end of records
-    if (std::strlen(line) < 10 || !std::strncmp("PART 3", line, 6))
-      return -1;
   }
 
   return (line_count >= max_lines) ? (-1) : 5;
-- 
2.43.0


From 2000fc276ca4a25e253b480ee82474943ea706c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 44/69] fix: report SATELLIT records without a frequency
 channel

---
 src/bern_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index b648457..a3ba2ca 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -78,6 +78,7 @@ int ngpt::BernSatellit::get_frequency_channel(
     // is desregarded and may cause a problem when resolving; e.g. SLR records
     // have no SVN field
     if (line[5] == 'M' && line[6] == 'W') {
+      errno = 0;
       csvn = static_cast<int>(std::strtol(line + 28, &end, 10));
       if (errno == ERANGE || end == line + 28) {
         errno = 0;
@@ -94,9 +95,10 @@ int ngpt::BernSatellit::get_frequency_channel(
         }
         if (eph >= start && eph < stop) {
           satellite_matched = true;
+          errno = 0;
           prn = static_cast<int>(std::strtol(line, &end, 10));
           ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));
-          if (errno == ERANGE) {
+          if (errno == ERANGE || end == line + 193) {
             errno = 0;
             // throw std::runtime_error("[ERROR] Failed to resolve svn from
             // SATELLIT file");
-- 
2.43.0


From 44bac6cdab398e68d7755d471f9be9a78b42f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 45/69] fix: report damaged dates of SATELLIT records

---
 src/bern_utils.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index a3ba2ca..ba90caf 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -85,13 +85,17 @@ int ngpt::BernSatellit::get_frequency_channel(
         return 2;
       }
       if (csvn == svn) {
-        start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
-        stop = ngpt::datetime<ngpt::seconds>::max();
-        for (int i = 62; i < 82; i++) {
-          if (line[i] != ' ') {
-            stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
-            break;
+        try {
+          start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
+          stop = ngpt::datetime<ngpt::seconds>::max();
+          for (int i = 62; i < 82; i++) {
+            if (line[i] != ' ') {
+              stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
+              break;
+            }
           }
+        } catch (std::exception &) {
+          return 5;
         }
         if (eph >= start && eph < stop) {
           satellite_matched = true;
-- 
2.43.0


From f5a0107cd536083bb72fc2b9014c5e10feaca1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 46/69] fix: SatelliteAntenna::is_same() was inverted

---
 src/antenna.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 8b11f9e..9a877a2 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -189,7 +189,7 @@ SatelliteAntenna::SatelliteAntenna(const char *c) noexcept {
 /// @return       Returns true of the passed in c-string holds the same
 ///               antenna type as this instance; false otherwise
 bool SatelliteAntenna::is_same(const char *c) const noexcept {
-  return std::strncmp(__name, c, satellite_antenna_max_chars);
+  return !std::strncmp(__name, c, satellite_antenna_max_chars);
 }
 
 /// Set the model name to nothing, that is to 20 null terminating chars
-- 
2.43.0


From 017e196a0b9c5bf281b7013c3cc6cd86011f0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 47/69] fix: relativistic clock correction when ToC and ToE
 differ

sv_clock() took the mean anomaly at ToE as the one at ToC; with a time of
clock a minute away from the time of ephemeris the correction was off by
up to half a nanosecond.
---
 src/navrnx.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index d8382de..2bd3db0 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -412,7 +412,13 @@ private:
       double n0(
           std::sqrt(MI_SYS / (A * A * A))); //  Computed mean motion (rad/sec)
       double n(n0 + data__[5]);             //  Corrected mean motion
-      double Mk(data__[6] + n * dt);        //  Mean anomaly
+      // the mean anomaly at reference time refers to ToE, not to ToC
+      const double toc_toe =
+          86400e0 * (double)(toc__.mjd().as_underlying_type() -
+                             toe__.mjd().as_underlying_type()) +
+          toc__.sec().to_fractional_seconds() -
+          toe__.sec().to_fractional_seconds();
+      double Mk(data__[6] + n * (dt + toc_toe)); //  Mean anomaly
       double E(Mk);
       double e(data__[8]);
       int i;
-- 
2.43.0


From e44f505c6cc15d21cd42f61b9a088f95a3358112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 48/69] fix: skip the special records of event epochs when
 reading observations

---
 src/obsrnx.cpp | 42 +++++++++++++++++++++++++++++++++++++++++-
 src/obsrnx.hpp |  3 +++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index eac9680..3ff2b04 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -913,6 +913,38 @@ int ObservationRnx::collect_epoch(
   return 0;
 }
 
+/// Check if an epoch header line announces a special event, i.e. has an epoch
+/// flag in the range [2,6]; such a line may have no epoch at all.
+static bool is_special_event(const char *line) noexcept {
+  return *line == '>' && std::strlen(line) > 31 && line[31] >= '2' &&
+         line[31] <= '6';
+}
+
+/// Skip the special records following an event; the (event) epoch header line
+/// should be the last line read (aka stored in the instance's buffer).
+/// @return Anything other than 0 denotes an error; note that an event that
+///         re-defines the observation types of a satellite system is an error
+///         (the columns of the records that follow would be misinterpreted)
+int ObservationRnx::skip_special_records() noexcept {
+  char *end;
+  const char *start = __buf.get() + 32;
+  errno = 0;
+  long num_records = std::strtol(start, &end, 10);
+  if (errno || start == end || num_records < 0) {
+    errno = 0;
+    return 24;
+  }
+  for (long i = 0; i < num_records; i++) {
+    if (!__istream.getline(__buf.get(), __buf_sz))
+      return 10;
+    if (std::strlen(__buf.get()) > 60 &&
+        !std::strncmp(__buf.get() + 60, "SYS / # / OBS TYPES",
+                      std::strlen("SYS / # / OBS TYPES")))
+      return 25;
+  }
+  return 0;
+}
+
 /// Read the next (following) satellite record block off from the RINEX stream.
 /// Here 'next' just means the next after the current stream's get position.
 /// So, the function will read in a block of satellite records, see what
@@ -964,10 +996,17 @@ int ObservationRnx::read_next_epoch(
     int &sats, ngpt::modified_julian_day &mjd, double &secofday) noexcept {
   int c, j;
   sats = 0;
-  if ((c = __istream.peek()) != EOF) {
+  while ((c = __istream.peek()) != EOF) {
     // if not EOF, read next line; it should be an epoche header line
     if (!__istream.getline(__buf.get(), __buf_sz))
       return 10;
+    // a special event (flag > 1) is followed by special records, not by
+    // observations; skip them and go on with the next epoch
+    if (is_special_event(__buf.get())) {
+      if ((j = skip_special_records()))
+        return j;
+      continue;
+    }
     double rcvr_coff;
     int flag, num_sats;
     // resolve epoch header
@@ -977,6 +1016,7 @@ int ObservationRnx::read_next_epoch(
     // resolve observation block
     if ((j = collect_epoch(num_sats, sats, mmap, satobs)))
       return 30 + j;
+    break;
   }
   // an I/O error is not the end of the file
   if (__istream.bad())
diff --git a/src/obsrnx.hpp b/src/obsrnx.hpp
index d4db430..e3cdc35 100644
--- a/src/obsrnx.hpp
+++ b/src/obsrnx.hpp
@@ -124,6 +124,9 @@ private:
                             double &sec, int &flag, int &num_sats,
                             double &rcvr_coff) noexcept;
 
+  /// @brief Skip the special records that follow an event (epoch flag > 1)
+  int skip_special_records() noexcept;
+
   /// @brief Collect values (actually GnssObservable values) from a satellite
   ///        record line
   int sat_epoch_collect(const std::vector<vecof_idpair> &sysobs, int &prn,
-- 
2.43.0


From 39eb35fcf79b03c9f4301cb63ff6ee0f5b1115e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 49/69] fix: report an unreadable satellite count of an
 observation epoch

---
 src/obsrnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 3ff2b04..ae07f7c 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -434,7 +434,7 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
 
   // resolve num of satellites in epoch
   num_sats = static_cast<int>(std::strtol(cline + 32, &end, 10));
-  if (errno || start == end) {
+  if (errno || end == cline + 32) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() failed to "
                  "resolve num sats";
     std::cerr << "\n        Line was: \"" << cline << "\"";
-- 
2.43.0


From d6bbb7d9cb0a5e3aff7fd20e256a65d194a898e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 50/69] fix: read the values of an SP3 position record by their
 columns

---
 src/sp3c.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index c6085fa..31bff7e 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -368,16 +368,19 @@ int Sp3c::get_next_position(char *line, ngpt::SATELLITE_SYSTEM &s, int &prn,
   } catch (std::runtime_error &e) {
     return 3;
   }
-  prn = std::strtol(line + 2, &end, 10);
-  if (errno == ERANGE || end == line + 2) {
+  char field[15] = {'\0'}; // a blank field must not be read from the next one
+  std::strncpy(field, line + 2, 2);
+  prn = std::strtol(field, &end, 10);
+  if (errno == ERANGE || end == field) {
     errno = 0;
     return 4;
   }
 
   start = line + 4;
   for (int i = 0; i < 4; i++) {
-    state[i] = std::strtod(start, &end);
-    if (errno == ERANGE || end == start) {
+    std::strncpy(field, start, 14);
+    state[i] = std::strtod(field, &end);
+    if (errno == ERANGE || end == field) {
       errno = 0;
       return 5 + i;
     }
-- 
2.43.0


From 815250b67bfa5955c8ec22453b876bda83fd2aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 51/69] fix: report SATELLIT records without a satellite number

---
 src/bern_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index ba90caf..7777784 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -100,7 +100,10 @@ int ngpt::BernSatellit::get_frequency_channel(
         if (eph >= start && eph < stop) {
           satellite_matched = true;
           errno = 0;
-          prn = static_cast<int>(std::strtol(line, &end, 10));
+          prn = static_cast<int>(
+              std::strtol(std::string(line, 3).c_str(), nullptr, 10));
+          if (!prn) // the first three characters are no number
+            return 3;
           ifrqn = static_cast<int>(std::strtol(line + 193, &end, 10));
           if (errno == ERANGE || end == line + 193) {
             errno = 0;
-- 
2.43.0


From e231d5f7aeaa193e1f89cecf7b839e826883af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 52/69] fix: read all four characters of the SP3 agency

---
 src/sp3c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index 31bff7e..bc9d862 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -113,7 +113,7 @@ int Sp3c::read_header() noexcept {
   }
   crd_sys__ = std::string(line + 46, 5);
   orb_type__ = std::string(line + 52, 3);
-  agency__ = std::string(line + 56, 3);
+  agency__ = std::string(line + 56, 4);
 
   // all done for first line, construct the reference date
   start_epoch__ = ngpt::datetime<ngpt::microseconds>(
-- 
2.43.0


From 107aec712fb376c69dd18c49ddd301bae6f6288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:17 +0000
Subject: [PATCH 53/69] fix: keep blanks inside marker, receiver and antenna
 names of an observation header

---
 src/obsrnx.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index ae07f7c..3258da9 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -193,23 +193,25 @@ int ObservationRnx::read_header() noexcept {
   int dummy_it = 0;
   std::size_t szt;
   char *end;
+  // header texts may contain blanks; only trim at the end of the field
+  using TrimEnd = ngpt::str_algorithm_details::StrSearchPolicyEnd;
   std::memset(line, 0, sizeof line);
   if (!__istream.getline(line, MAX_HEADER_CHARS))
     return 13;
   while (dummy_it < MAX_HEADER_LINES &&
          std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
-      __marker_name = ngpt::rtrim(line, szt, 60);
+      __marker_name = ngpt::rtrim<TrimEnd>(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
                              std::strlen("MARKER NUMBER"))) {
-      __marker_number = ngpt::rtrim(line, szt, 20);
+      __marker_number = ngpt::rtrim<TrimEnd>(line, szt, 20);
     } else if (!std::strncmp(line + 60, "REC # / TYPE / VERS",
                              std::strlen("REC # / TYPE / VERS"))) {
-      __receiver_number = ngpt::rtrim(line, szt, 20);
-      __receiver_type = ngpt::rtrim(line + 20, szt, 20);
+      __receiver_number = ngpt::rtrim<TrimEnd>(line, szt, 20);
+      __receiver_type = ngpt::rtrim<TrimEnd>(line + 20, szt, 20);
     } else if (!std::strncmp(line + 60, "ANT # / TYPE",
                              std::strlen("ANT # / TYPE"))) {
-      ReceiverAntenna ant(ngpt::rtrim(line + 20, szt, 20));
+      ReceiverAntenna ant(ngpt::rtrim<TrimEnd>(line + 20, szt, 20));
       if (!ngpt::string_is_empty(line, 20))
         ant.set_serial_nr(line);
       __antenna = ant;
-- 
2.43.0


From 51ed1459411e15c27839938539dc66b18b27c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:42 +0000
Subject: [PATCH 54/69] fix: gps_ura() took the accuracy in meters of a RINEX
 file for a URA index

---
 src/gpsnav.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/gpsnav.cpp b/src/gpsnav.cpp
index b204f2e..8dabf30 100644
--- a/src/gpsnav.cpp
+++ b/src/gpsnav.cpp
@@ -230,22 +230,8 @@ const noexcept
 /// @brief URA SV accuracy (meters)
 /// Compute User Range Accuracy for given SV.
 float NavDataFrame::gps_ura() const noexcept {
-  float ura_index = data__[23];
-  float ura_meters = std::numeric_limits<float>::max();
-
-  if (ura_index <= 6) {
-    ura_meters = std::pow(2, 1e0 + ura_index / 2e0);
-    ura_meters =
-        static_cast<float>((long)(std::round(ura_meters * 10e0))) / 10e0;
-  } else if (ura_index < 15) {
-    ura_meters = std::pow(2e0, ura_index - 2e0);
-    ura_meters =
-        static_cast<float>((long)(std::round(ura_meters * 10e0))) / 10e0;
-  } else {
-    std::cerr << "\n[WARNING] URA index is " << ura_index
-              << " use satellite at your own risk!";
-  }
-  return ura_meters;
+  // RINEX 3.x records the accuracy in meters, not the broadcast URA index
+  return static_cast<float>(data__[23]);
 }
 
 /// @brief see Rinex 3.04 par. 6.11
-- 
2.43.0


From d8c08923d2db2a6264829f51652c5f54a2644795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 55/69] fix: do not read blank fields of an observation file
 off from the next field

---
 src/nvarstr.cpp | 10 ++++++++++
 src/nvarstr.hpp | 11 +++++++++++
 src/obsrnx.cpp  | 20 ++++++++++++++++++--
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/nvarstr.cpp b/src/nvarstr.cpp
index add1156..3326a12 100644
--- a/src/nvarstr.cpp
+++ b/src/nvarstr.cpp
@@ -72,3 +72,13 @@ bool ngpt::string_is_empty(const char *str, std::size_t stop) noexcept {
       return false;
   return true;
 }
+
+bool ngpt::has_blank_field(const char *str,
+                           std::initializer_list<std::size_t> widths) noexcept {
+  for (std::size_t width : widths) {
+    if (string_is_empty(str, width))
+      return true;
+    str += std::min(width, std::strlen(str));
+  }
+  return false;
+}
diff --git a/src/nvarstr.hpp b/src/nvarstr.hpp
index 7c4ee64..ddcc060 100644
--- a/src/nvarstr.hpp
+++ b/src/nvarstr.hpp
@@ -1,6 +1,8 @@
 #ifndef __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 #define __NTUA_VARIOUS_STR_FUNCTIONS_HPP__
 
+#include <cstddef>
+#include <initializer_list>
 #include <string>
 
 namespace ngpt {
@@ -129,6 +131,15 @@ void __for2cpp__(char *line) noexcept;
 ///                  input string spans [0, stop)
 bool string_is_empty(const char *str, std::size_t stop = -1) noexcept;
 
+/// @brief Check a string of consecutive, fixed-width fields for blank ones.
+///        Functions like strtol skip leading whitespace and thus read a blank
+///        field off from the columns of the next one.
+/// @param[in] str    The input string
+/// @param[in] widths Number of characters of each field
+/// @return True if any of the fields is all whitespaces, or not in the string
+bool has_blank_field(const char *str,
+                     std::initializer_list<std::size_t> widths) noexcept;
+
 } // namespace ngpt
 
 #endif
diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 3258da9..3a862fa 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -218,7 +218,8 @@ int ObservationRnx::read_header() noexcept {
     } else if (!std::strncmp(line + 60, "APPROX POSITION XYZ",
                              std::strlen("APPROX POSITION XYZ"))) {
       errno = 0;
-      if (!ngpt::__char2double__<3, 14>(line, __approx)) {
+      if (ngpt::has_blank_field(line, {14, 14, 14}) ||
+          !ngpt::__char2double__<3, 14>(line, __approx)) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"APPROX POSITION XYZ\"";
         return 51;
@@ -226,7 +227,8 @@ int ObservationRnx::read_header() noexcept {
     } else if (!std::strncmp(line + 60, "ANTENNA: DELTA H/E/N",
                              std::strlen("ANTENNA: DELTA H/E/N"))) {
       errno = 0;
-      if (!ngpt::__char2double__<3, 14>(line, __eccentricity)) {
+      if (ngpt::has_blank_field(line, {14, 14, 14}) ||
+          !ngpt::__char2double__<3, 14>(line, __eccentricity)) {
         std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
                      "resolve field: \"ANTENNA: DELTA H/E/N\"";
         return 52;
@@ -255,6 +257,11 @@ int ObservationRnx::read_header() noexcept {
       }
     } else if (!std::strncmp(line + 60, "TIME OF FIRST OBS",
                              std::strlen("TIME OF FIRST OBS"))) {
+      if (ngpt::has_blank_field(line, {6, 6, 6, 6, 6, 13})) {
+        std::cerr << "\n[ERROR] ObservationRnx::read_header() Failed to "
+                     "resolve field: \"TIME OF FIRST OBS\"";
+        return 61;
+      }
       try {
         __epoch_start = ngpt::strptime_ymd_hms<ngpt::microseconds>(line);
       } catch (std::invalid_argument &e) {
@@ -395,6 +402,15 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
     return 1;
   }
 
+  // no field may be blank (or else it would be read off from the next one);
+  // i.e. year, month, day, hour, minute, seconds, flag and number of satellites
+  if (ngpt::has_blank_field(cline + 1, {5, 3, 3, 3, 3, 11, 3, 3})) {
+    std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() Blank field "
+                 "in epoch line";
+    std::cerr << "\n        Line was: \"" << cline << "\"";
+    return 2;
+  }
+
   // resolve the day as Modified Julian Day
   char *end;
   const char *start = cline + 2;
-- 
2.43.0


From ff12369cbe86bc1366c4d266b93c02be1e59e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 56/69] fix: do not read blank fields of a navigation record's
 epoch off from the next field

---
 src/navrnx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index b0ccf94..4900d8d 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -116,6 +116,11 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   if (!__read_line__(inp, line, 23 + 3 * 19)) {
     return 1;
   }
+  // no field may be blank (or else it would be read off from the next one);
+  // i.e. satellite number, year, month, day, hour, minute and seconds
+  if (ngpt::has_blank_field(line + 1, {2, 5, 3, 3, 3, 3, 3})) {
+    return 2;
+  }
   try { // both of these may throw
     sys__ = ngpt::char_to_satsys(*line);
     toc__ = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 3);
-- 
2.43.0


From fca953c47bc1536b0746b489330fcb5d05f510f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 57/69] fix: do not read blank fields of an ANTEX validity date
 off from the next field

---
 src/antex.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/antex.cpp b/src/antex.cpp
index a9cb4f1..e3bc76a 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -444,6 +444,9 @@ int check_time_interval(std::ifstream &fin,
       return 13;
     }
     if (!std::strncmp(line + 60, "VALID FROM", 10)) {
+      if (ngpt::has_blank_field(line, {6, 6, 6, 6, 6, 13})) {
+        return 11;
+      }
       try {
         from = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
         from_ok = true;
@@ -451,6 +454,9 @@ int check_time_interval(std::ifstream &fin,
         return 11;
       }
     } else if (!std::strncmp(line + 60, "VALID UNTIL", 11)) {
+      if (ngpt::has_blank_field(line, {6, 6, 6, 6, 6, 13})) {
+        return 12;
+      }
       try {
         to = ngpt::strptime_ymd_hms<ngpt::seconds>(line);
         to_ok = true;
-- 
2.43.0


From a20a9efe5705ca39988dbc4fedef7c487f1e58df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 58/69] fix: do not read blank fields of a SATELLIT record off
 from the next field

---
 src/bern_utils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index 7777784..be5214b 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -1,5 +1,6 @@
 #include "bern_utils.hpp"
 #include "ggdatetime/datetime_read.hpp"
+#include "nvarstr.hpp"
 #include <cassert>
 #include <cstring>
 #include <stdexcept>
@@ -80,16 +81,23 @@ int ngpt::BernSatellit::get_frequency_channel(
     if (line[5] == 'M' && line[6] == 'W') {
       errno = 0;
       csvn = static_cast<int>(std::strtol(line + 28, &end, 10));
-      if (errno == ERANGE || end == line + 28) {
+      if (errno == ERANGE || end == line + 28 ||
+          ngpt::string_is_empty(line + 28, 3)) {
         errno = 0;
         return 2;
       }
       if (csvn == svn) {
+        // no field of the (start) date may be blank, or else it would be read
+        // off from the next one
+        if (ngpt::has_blank_field(line + 41, {4, 3, 3, 3, 3, 3}))
+          return 5;
         try {
           start = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 41);
           stop = ngpt::datetime<ngpt::seconds>::max();
           for (int i = 62; i < 82; i++) {
             if (line[i] != ' ') {
+              if (ngpt::has_blank_field(line + 62, {4, 3, 3, 3, 3, 3}))
+                return 5;
               stop = ngpt::strptime_ymd_hms<ngpt::seconds>(line + 62);
               break;
             }
-- 
2.43.0


From bf60d156f0245fe4595bc198a99a220baf064502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 59/69] fix: do not read blank fields of an SP3 file off from
 the next field, check the interval

---
 src/sp3c.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index bc9d862..f9418dd 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -1,5 +1,6 @@
 #include "sp3c.hpp"
 #include "ggdatetime/datetime_read.hpp"
+#include "nvarstr.hpp"
 #include <algorithm>
 #include <cerrno>
 #include <cmath>
@@ -79,6 +80,10 @@ int Sp3c::read_header() noexcept {
   version__ = *(line + 1);
   if (version__ != 'c' && version__ != 'd')
     return 10;
+  // no field of the date may be blank (or else it would be read off from the
+  // next one)
+  if (ngpt::has_blank_field(line + 3, {4, 3, 3, 3, 3, 12}))
+    return 11;
   int year = std::strtol(line + 3, &str_end, 10); // read year
   if (!year || errno == ERANGE) {
     errno = 0;
@@ -141,6 +146,8 @@ int Sp3c::read_header() noexcept {
     return 22;
   }
   sec = std::strtod(line + 24, &str_end);
+  if (str_end == line + 24 || ngpt::string_is_empty(line + 24, 14))
+    return 25;
   interval__ = ngpt::microseconds(std::lround(sec * 1e6));
   int mjd = std::strtol(line + 39, &str_end, 10);
   if (!mjd || errno == ERANGE) {
@@ -277,6 +284,10 @@ int Sp3c::get_next_epoch(ngpt::datetime<ngpt::microseconds> &t,
 
   if (line[0] != '*' || line[1] != ' ')
     return 2;
+  // no field of the date may be blank (or else it would be read off from the
+  // next one)
+  if (ngpt::has_blank_field(line + 3, {4, 3, 3, 3, 3, 12}))
+    return 5;
   date[0] = std::strtol(line + 3, &end, 10);
   if (!date[0] || errno == ERANGE) {
     errno = 0;
-- 
2.43.0


From 296edef865e94c428d1bac93f23a266dea6e1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:04 +0000
Subject: [PATCH 60/69] fix: search all records of a SATELLIT file

---
 src/bern_utils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index be5214b..acf6753 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -41,7 +41,6 @@ ngpt::BernSatellit::BernSatellit(const char *fn)
 ///            >0 -> An error occured while reading the records
 int ngpt::BernSatellit::get_frequency_channel(
     int svn, const ngpt::datetime<ngpt::seconds> &eph, int &ifrqn, int &prn) {
-  const int max_lines = 1000;
   char line[MAX_SATELLIT_CHARS];
 
   // The stream should be open by now!
@@ -59,7 +58,7 @@ int ngpt::BernSatellit::get_frequency_channel(
   char *end;
   bool satellite_matched = false;
   ngpt::datetime<ngpt::seconds> start, stop;
-  while (!satellite_matched && line_count < max_lines) {
+  while (!satellite_matched) { // ends at the last record, at most
     // what the line does not fill is set to zero, so that we never look at
     // characters of an earlier one
     std::memset(line, 0, MAX_SATELLIT_CHARS);
@@ -126,7 +125,7 @@ int ngpt::BernSatellit::get_frequency_channel(
     }
   }
 
-  return (line_count >= max_lines) ? (-1) : 5;
+  return 5;
 }
 
 /// This function should only be called once, inside the object's constructor.
-- 
2.43.0


From ab9aa5aeee7af95d61aaabde8a915d05cdb766d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:22 +0000
Subject: [PATCH 61/69] fix: a blank radome of a receiver antenna is NONE, as
 documented

---
 src/antenna.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/antenna.cpp b/src/antenna.cpp
index 9a877a2..4a2885b 100644
--- a/src/antenna.cpp
+++ b/src/antenna.cpp
@@ -36,8 +36,8 @@ void ReceiverAntenna::set_none_radome() noexcept {
 /// Check if the instance's radome type is empty, aka is "	  "
 /// @return true if radome is empty; false otherwise
 bool ReceiverAntenna::radome_is_empty() const noexcept {
-  constexpr std::size_t from = antenna_model_max_chars;
-  constexpr std::size_t to = antenna_model_max_chars + antenna_radome_max_chars;
+  constexpr std::size_t from = antenna_model_max_chars + 1;
+  constexpr std::size_t to = from + antenna_radome_max_chars;
   for (std::size_t i = from; i < to; i++) {
     if (__name[i] != ' ')
       return false;
@@ -66,6 +66,8 @@ void ReceiverAntenna::copy_from_cstr(const char *c) noexcept {
   if (ant_size < max_sz) {
     std::memset(__name + ant_size, ' ', sizeof(char) * (max_sz - ant_size));
     set_none_radome();
+  } else if (radome_is_empty()) {
+    set_none_radome();
   }
 }
 
-- 
2.43.0


From bd1769075088d152f0cf2627f2db1164ed75277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:51 +0000
Subject: [PATCH 62/69] fix: positions of the geostationary BeiDou satellites

---
 src/navrnx.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/navrnx.hpp b/src/navrnx.hpp
index 2bd3db0..c2f0edc 100644
--- a/src/navrnx.hpp
+++ b/src/navrnx.hpp
@@ -346,6 +346,30 @@ private:
     state[1] = xk_dot * sinOk + yk_dot * cosOk * cosik;
     state[2] = yk_dot * std::sin(ik);
 
+    // The elements of the geostationary BeiDou satellites (C01-C05, C59-C63)
+    // refer to an inertial system inclined by 5 degrees, see BDS-SIS-ICD,
+    // "Algorithms for SV position computation": the longitude of the ascending
+    // node is OMEGA0 + OMEGA_DOT * tk - omega_e * toe and the coordinates are
+    // rotated by Rz(omega_e * tk) * Rx(-5 deg)
+    if (S == SATELLITE_SYSTEM::beidou &&
+        ((prn__ >= 1 && prn__ <= 5) || (prn__ >= 59 && prn__ <= 63))) {
+      constexpr double ANGLE(5e0 * 3.14159265358979323846e0 / 180e0);
+      const double omega_g(data__[13] + data__[18] * tk -
+                           OMEGAE_SYS * data__[11]);
+      const double xg(xk_dot * std::cos(omega_g) -
+                      yk_dot * std::sin(omega_g) * cosik);
+      const double yg(xk_dot * std::sin(omega_g) +
+                      yk_dot * std::cos(omega_g) * cosik);
+      const double zg(yk_dot * std::sin(ik));
+      const double yr(yg * std::cos(ANGLE) - zg * std::sin(ANGLE));
+      const double zr(yg * std::sin(ANGLE) + zg * std::cos(ANGLE));
+      const double sinz(std::sin(OMEGAE_SYS * tk));
+      const double cosz(std::cos(OMEGAE_SYS * tk));
+      state[0] = xg * cosz + yr * sinz;
+      state[1] = -xg * sinz + yr * cosz;
+      state[2] = zr;
+    }
+
     // all done
     return status;
   }
-- 
2.43.0


From a5d00f8f4837dbc951b695e68d5a52cc1abb5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:21 +0000
Subject: [PATCH 63/69] fix: computed measurement of a scaled observable in the
 Kalman filter

---
 src/gauss_newton.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gauss_newton.hpp b/src/gauss_newton.hpp
index 3883bbc..b9fed08 100644
--- a/src/gauss_newton.hpp
+++ b/src/gauss_newton.hpp
@@ -141,9 +141,9 @@ private:
       const double xs = (*sv_)[i][0];
       const double ys = (*sv_)[i][1];
       const double zs = (*sv_)[i][2];
-      p(i) = std::sqrt((xs - xr) * (xs - xr) + (ys - yr) * (ys - yr) +
-                       (zs - zr) * (zs - zr)) +
-             cdt;
+      p(i) = coef * (std::sqrt((xs - xr) * (xs - xr) + (ys - yr) * (ys - yr) +
+                               (zs - zr) * (zs - zr)) +
+                     cdt);
     }
     return p;
   }
-- 
2.43.0


From e2d3c41e82400fe0d31f818f90c5eb036baaea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:21 +0000
Subject: [PATCH 64/69] fix: measurement variance of a Kalman update without
 weights

---
 src/gauss_newton.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gauss_newton.hpp b/src/gauss_newton.hpp
index b9fed08..c320bf6 100644
--- a/src/gauss_newton.hpp
+++ b/src/gauss_newton.hpp
@@ -68,9 +68,8 @@ public:
       std::cout << "\nNext P=\n" << P_;
     // residual covariance: S = H(1)*P(1|0)*H^T(1) + R(1)
     Eigen::MatrixXd S(H_ * P_ * H_.transpose());
-    if (w)
-      for (int i = 0; i < nsats_; i++)
-        S(i, i) += (100e0 + (*w)[i]);
+    for (int i = 0; i < nsats_; i++)
+      S(i, i) += (100e0 + (w ? (*w)[i] : 0e0));
     if (dbg)
       std::cout << "\nResidual cov\n" << S;
     // filter gain W: W = P(1|0) * H^T(1) *S^-1(1)
-- 
2.43.0


From 35b0b6a9752249dbe2ed8adecf95fc8215b9ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:47 +0000
Subject: [PATCH 65/69] fix: ANTEX entries of more than five thousand lines

---
 src/antex.cpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index e3bc76a..35b1b12 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -259,16 +259,12 @@ int Antex::read_next_antenna_type(ReceiverAntenna &antenna, char *c) noexcept {
 /// @return Anything other than 0 denotes an error.
 int Antex::skip_rest_of_antenna() noexcept {
   char line[MAX_GRID_CHARS];
-  int max_antenna_lines = 5000;
 
-  int dummy_it = 0;
   do {
     next_line(__istream, line, MAX_GRID_CHARS);
-    dummy_it++;
-  } while (__istream && std::strncmp(line + 60, "END OF ANTENNA", 14) &&
-           dummy_it < max_antenna_lines);
+  } while (__istream && std::strncmp(line + 60, "END OF ANTENNA", 14));
 
-  if (!__istream || dummy_it >= max_antenna_lines) {
+  if (!__istream) {
     return 1;
   }
 
@@ -428,7 +424,6 @@ int resolve_satellite_antenna_line(const char *line, Satellite &sat) noexcept {
 int check_time_interval(std::ifstream &fin,
                         const ngpt::datetime<ngpt::seconds> &at) noexcept {
   char line[MAX_GRID_CHARS];
-  int max_lines = 5000;
 
   // next field is 'METH / BY / # / DATE'
   if (!next_line(fin, line, MAX_GRID_CHARS) ||
@@ -436,7 +431,6 @@ int check_time_interval(std::ifstream &fin,
     return 10;
   }
 
-  int dummy_it = 0;
   bool from_ok = false, to_ok = false;
   ngpt::datetime<ngpt::seconds> from, to;
   do {
@@ -466,8 +460,7 @@ int check_time_interval(std::ifstream &fin,
     }
     if (from_ok && to_ok)
       break;
-  } while (std::strncmp(line + 60, "START OF FREQUENCY", 18) &&
-           ++dummy_it < max_lines);
+  } while (std::strncmp(line + 60, "START OF FREQUENCY", 18));
   // do not use the following check
   // } while (std::strncmp(line+60, "END OF ANTENNA", 14) && dummy_it <
   // max_lines); cause this may leave the stream just after the line "END OF
@@ -475,10 +468,6 @@ int check_time_interval(std::ifstream &fin,
   // will cause a whole antenna record block to be skipped. This was indeed a
   // bug (for the function find_satellite_antenna()
 
-  if (dummy_it >= max_lines) {
-    return 20;
-  }
-
   // note that if we have found "VALID FROM" but not "VALID UNTIL", then
   // "VALID UNTIL" is forever ....
   if (!from_ok) {
-- 
2.43.0


From 46dedde5aa13ca104b54ddcd3a948eb3b6b7a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:47 +0000
Subject: [PATCH 66/69] fix: headers of more than a thousand lines

---
 src/antex.cpp      | 10 ++--------
 src/bern_utils.cpp |  8 ++------
 src/navrnx.cpp     | 11 +----------
 src/obsrnx.cpp     | 11 +----------
 src/sp3c.cpp       | 16 ++--------------
 5 files changed, 8 insertions(+), 48 deletions(-)

diff --git a/src/antex.cpp b/src/antex.cpp
index 35b1b12..f301c19 100644
--- a/src/antex.cpp
+++ b/src/antex.cpp
@@ -17,9 +17,6 @@ using ngpt::SatelliteAntenna;
 /// they  exceed this limit, just a bit ...
 constexpr int MAX_HEADER_CHARS{85};
 
-/// Max header lines.
-constexpr int MAX_HEADER_LINES{1000};
-
 /// Size of 'END OF HEADER' C-string.
 /// std::strlen is not 'constexr' so eoh_size can't be one either. Note however
 /// that gcc has a builtin constexpr strlen function (if we want to disable this
@@ -163,15 +160,12 @@ int Antex::read_header() noexcept {
 
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
-  int dummy_it = 0;
   next_line(__istream, line, MAX_HEADER_CHARS);
-  while (__istream && dummy_it < MAX_HEADER_LINES &&
-         std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
+  while (__istream && std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
     next_line(__istream, line, MAX_HEADER_CHARS);
-    dummy_it++;
   }
   // the stream must be good, or else we cannot mark the end of the header
-  if (!__istream.good() || dummy_it >= MAX_HEADER_LINES) {
+  if (!__istream.good()) {
     return 20;
   }
 
diff --git a/src/bern_utils.cpp b/src/bern_utils.cpp
index acf6753..db602db 100644
--- a/src/bern_utils.cpp
+++ b/src/bern_utils.cpp
@@ -135,7 +135,6 @@ int ngpt::BernSatellit::get_frequency_channel(
 /// (inside the file) it is placed (aka store it in __part2).
 /// @return  Anything other than 0, denotes an error
 int ngpt::BernSatellit::initialize() noexcept {
-  const int max_lines = 1000;
   const char *line1 =
       "SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2";
   const int line1_sz = std::strlen(line1);
@@ -160,13 +159,10 @@ int ngpt::BernSatellit::initialize() noexcept {
 
   // Read rest of lines untill we hit
   // PART 2: ON-BOARD SENSORS
-  int line_count = 0;
-  while (std::strncmp(line2, line, line2_sz) && line_count < max_lines) {
+  while (__istream && std::strncmp(line2, line, line2_sz))
     __istream.getline(line, MAX_SATELLIT_CHARS);
-    ++line_count;
-  }
   // verify that it is ineed the line we want (and the stream is ok)
-  if (!__istream.good() || line_count >= max_lines)
+  if (!__istream.good())
     return 11;
   // next line is just a series of  '-' chars
   __istream.getline(line, MAX_SATELLIT_CHARS);
diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index 4900d8d..e4e394f 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -14,9 +14,6 @@ using ngpt::NavigationRnx;
 /// they  exceed this limit, just a bit ...
 constexpr int MAX_HEADER_CHARS{85};
 
-/// Max header lines.
-constexpr int MAX_HEADER_LINES{1000};
-
 /// Max record characters (for a navigation data block)
 constexpr int MAX_RECORD_CHARS{128};
 
@@ -270,19 +267,13 @@ int NavigationRnx::read_header() noexcept {
 
   // Keep on readling lines until 'END OF HEADER'.
   // ----------------------------------------------------
-  int dummy_it = 0;
   std::memset(line, 0, MAX_HEADER_CHARS);
   if (!__istream.getline(line, MAX_HEADER_CHARS))
     return 14;
-  while (dummy_it < MAX_HEADER_LINES &&
-         std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
+  while (std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
     std::memset(line, 0, MAX_HEADER_CHARS);
     if (!__istream.getline(line, MAX_HEADER_CHARS))
       return 14;
-    dummy_it++;
-  }
-  if (dummy_it >= MAX_HEADER_LINES) {
-    return 20;
   }
 
   // Mark the end of header
diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 3a862fa..a657bad 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -15,9 +15,6 @@ using ngpt::RawRnxObs__;
 /// they  exceed this limit, just a bit ...
 constexpr int MAX_HEADER_CHARS{85};
 
-/// Max header lines.
-constexpr int MAX_HEADER_LINES{1000};
-
 /// Max satellites in eopch
 constexpr int MAX_SAT_IN_EPOCH{80};
 
@@ -190,7 +187,6 @@ int ObservationRnx::read_header() noexcept {
 
   // Keep on readling and collecting info until 'END OF HEADER'.
   // ----------------------------------------------------
-  int dummy_it = 0;
   std::size_t szt;
   char *end;
   // header texts may contain blanks; only trim at the end of the field
@@ -198,8 +194,7 @@ int ObservationRnx::read_header() noexcept {
   std::memset(line, 0, sizeof line);
   if (!__istream.getline(line, MAX_HEADER_CHARS))
     return 13;
-  while (dummy_it < MAX_HEADER_LINES &&
-         std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
+  while (std::strncmp(line + 60, "END OF HEADER", eoh_size)) {
     if (!std::strncmp(line + 60, "MARKER NAME", std::strlen("MARKER NAME"))) {
       __marker_name = ngpt::rtrim<TrimEnd>(line, szt, 60);
     } else if (!std::strncmp(line + 60, "MARKER NUMBER",
@@ -272,10 +267,6 @@ int ObservationRnx::read_header() noexcept {
     std::memset(line, 0, sizeof line);
     if (!__istream.getline(line, MAX_HEADER_CHARS))
       return 13;
-    dummy_it++;
-  }
-  if (dummy_it >= MAX_HEADER_LINES) {
-    return 20;
   }
 
   // Mark the end of header
diff --git a/src/sp3c.cpp b/src/sp3c.cpp
index f9418dd..cb24f70 100644
--- a/src/sp3c.cpp
+++ b/src/sp3c.cpp
@@ -15,9 +15,6 @@ using ngpt::Sp3c;
 /// they  exceed this limit, just a bit ...
 constexpr int MAX_HEADER_CHARS{85};
 
-/// Max header lines.
-constexpr int MAX_HEADER_LINES{1000};
-
 /// Max record characters (for a navigation data block)
 constexpr int MAX_RECORD_CHARS{128};
 
@@ -61,7 +58,6 @@ void Sp3c::rewind(pos_type pos) noexcept {
 int Sp3c::read_header() noexcept {
   char line[MAX_HEADER_CHARS];
   char *str_end;
-  int dummy_it = 0;
   errno = 0; // strtol and strtod only ever set it
 
   // The stream should be open by now!
@@ -175,13 +171,10 @@ int Sp3c::read_header() noexcept {
     errno = 0;
     return 31;
   }
-  while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "+ ", 2)) {
+  while (!std::strncmp(line, "+ ", 2)) {
     if (!__read_line__(__istream, line))
       return 9;
   }
-  if (dummy_it >= MAX_HEADER_LINES) {
-    return 32;
-  }
 
   // Read the satellite accuracy lines; they must be at least 5, but there is
   // no max limitation for the Sp3d files. Each satellite id line starts with '+
@@ -190,16 +183,13 @@ int Sp3c::read_header() noexcept {
   // __istream.getline(line, MAX_HEADER_CHARS);
   if (*line != '+' || line[1] != '+')
     return 40;
-  while (++dummy_it < MAX_HEADER_LINES && !std::strncmp(line, "++", 2)) {
+  while (!std::strncmp(line, "++", 2)) {
     if (!__read_line__(__istream, line))
       return 9;
     char c = __istream.peek();
     if (c != '+')
       break;
   }
-  if (dummy_it >= MAX_HEADER_LINES) {
-    return 41;
-  }
 
   // two line follow, starting with '%c'; collect the system time
   // Error code [50,60]
@@ -241,8 +231,6 @@ int Sp3c::read_header() noexcept {
     if (line[1] != '*')
       return 80;
     c = __istream.peek();
-    if (++dummy_it > MAX_HEADER_LINES)
-      return 81;
   }
 
   // Mark the end of header
-- 
2.43.0


From 848f1ab16fd28c8dcc4ba9d1a0c314b2ef9a2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:47 +0000
Subject: [PATCH 67/69] fix: observation epochs of more than eighty satellites

---
 src/obsrnx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index a657bad..335eb5d 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -15,8 +15,8 @@ using ngpt::RawRnxObs__;
 /// they  exceed this limit, just a bit ...
 constexpr int MAX_HEADER_CHARS{85};
 
-/// Max satellites in eopch
-constexpr int MAX_SAT_IN_EPOCH{80};
+/// Max satellites in eopch (the number of satellites is an I3 field)
+constexpr int MAX_SAT_IN_EPOCH{999};
 
 /// Size of 'END OF HEADER' C-string.
 /// std::strlen is not 'constexr' so eoh_size can't be one either. Note however
-- 
2.43.0


From e87c03b57bdc094b1c6fff82725c19cf2c62e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:57 +0000
Subject: [PATCH 68/69] fix: reject navigation records that were cut off and
 continued by another record

A receiver that crashed while it wrote a record and went on with the next one
leaves a record that lacks lines, or a line that another record continues. Such
a record was resolved and delivered with status 0, with the values of the other
record. Lines of a data block start with four blanks, hold nothing beyond
column 80, and a field holds a number and nothing else.
---
 src/navrnx.cpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/navrnx.cpp b/src/navrnx.cpp
index e4e394f..7fae1cd 100644
--- a/src/navrnx.cpp
+++ b/src/navrnx.cpp
@@ -72,9 +72,22 @@ static bool __read_line__(std::ifstream &inp, char *line,
   return !inp.eof() || std::strlen(line) >= num_chars;
 }
 
+/// @brief Check that nothing but whitespace is left in a line
+static bool __is_blank__(const char *str) noexcept {
+  return !str[std::strspn(str, " \t\r")];
+}
+
+/// @brief Check that a line of a data block is not (or not continued by) the
+///        first line of another record, i.e. that no lines are missing
+static bool __is_broadcast_orbit__(const char *line) noexcept {
+  return ngpt::string_is_empty(line, 4) && __is_blank__(line + 80);
+}
+
 /// @brief Resolve N fields of 19 characters each; a blank (or missing) field
 ///        is zero, see RINEX v3.x
-/// @return True if all fields were resolved; false otherwise
+/// @return True if all fields were resolved; false otherwise, e.g. if a field
+///         holds something behind the number (a line that was cut off and that
+///         another record continues)
 static bool __resolve_fields__(const char *line, double *data,
                                int N) noexcept {
   constexpr int M = 19;
@@ -84,8 +97,12 @@ static bool __resolve_fields__(const char *line, double *data,
     errno = 0; // reading may have set it, strtod does not reset it
     if (ngpt::string_is_empty(field))
       data[i] = 0e0;
-    else if (!ngpt::__char2double__<1, M>(field, data + i))
-      return false;
+    else {
+      char *end;
+      data[i] = std::strtod(field, &end);
+      if (end == field || errno || !__is_blank__(end))
+        return false;
+    }
     line += M;
   }
   return true;
@@ -132,7 +149,8 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
   // replace 'D' or 'd' with 'e' in remaining floats
   __for2cpp__(line + 23);
-  if (!__resolve_fields__(line + 23, data__, 3)) {
+  if (!__is_blank__(line + 80) ||
+      !__resolve_fields__(line + 23, data__, 3)) {
     errno = 0;
     return 3;
   }
@@ -146,7 +164,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   // read all but the last line (** all but galileo or beidou **)
   if (sys__ != SATELLITE_SYSTEM::galileo && sys__ != SATELLITE_SYSTEM::beidou) {
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!__read_line__(inp, line, 4)) {
+      if (!__read_line__(inp, line, 4) || !__is_broadcast_orbit__(line)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -159,7 +177,7 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
     }
   } else { // galileo and beidou have an empty record in line #5
     for (ln = 0; ln < lines_in_block - 1; ln++) {
-      if (!__read_line__(inp, line, 4)) {
+      if (!__read_line__(inp, line, 4) || !__is_broadcast_orbit__(line)) {
         return 5;
       }
       // replace 'D' or 'd' with 'e'
@@ -171,7 +189,9 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
           return 6;
         }
       } else {
-        if (!__resolve_fields__(line + 4, data__ + 3 + ln * 4, 3)) {
+        double spare;
+        if (!__resolve_fields__(line + 4, data__ + 3 + ln * 4, 3) ||
+            !__resolve_fields__(line + 4 + 3 * 19, &spare, 1)) {
           errno = 0;
           return 6;
         }
@@ -180,7 +200,8 @@ int NavDataFrame::set_from_rnx3(std::ifstream &inp) noexcept {
   }
 
   // read last line
-  if (!__read_line__(inp, line, 4 + 19 * last_line_recs)) {
+  if (!__read_line__(inp, line, 4 + 19 * last_line_recs) ||
+      !ngpt::string_is_empty(line, 4)) {
     return 7;
   }
   // replace 'D' or 'd' with 'e'
-- 
2.43.0


From e1c2b767bb3814a198361ae3dde4aa702ac1c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:57 +0000
Subject: [PATCH 69/69] fix: reject observation epochs that were cut off and
 continued by another epoch

The next epoch line was taken for a line of a satellite (or for the rest of
one), and the epoch was delivered with status 0 and observations that nobody
recorded, or an assertion failed.
---
 src/obsrnx.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/obsrnx.cpp b/src/obsrnx.cpp
index 335eb5d..0affbab 100644
--- a/src/obsrnx.cpp
+++ b/src/obsrnx.cpp
@@ -386,7 +386,8 @@ int ObservationRnx::__resolve_epoch_304__(const char *cline,
 
   std::size_t lnlen = std::strlen(cline);
 
-  if (*cline != '>' || lnlen < 35) {
+  // (another '>' means that the line was cut off and continued by an epoch)
+  if (*cline != '>' || lnlen < 35 || std::strchr(cline + 1, '>')) {
     std::cerr << "\n[ERROR] ObservationRnx::__resolve_epoch_304__() Invalid "
                  "epoch line";
     std::cerr << "\n        Line was: \"" << cline << "\" length: " << lnlen;
@@ -897,6 +898,9 @@ int ObservationRnx::collect_epoch(
     // resolve satellite system
     if (!__istream.getline(__buf.get(), __buf_sz))
       return 3;
+    // the next epoch starts before all satellites of this one were read
+    if (std::strchr(__buf.get(), '>'))
+      return 1;
     try {
       s = char_to_satsys(__buf[0]);
     } catch (std::exception &e) {
-- 
2.43.0


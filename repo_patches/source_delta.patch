From 007225bc99a2195473131c4258d602ee0170b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 01/57] fix: free the memory HarmonicCoeffs drops on resize and
 move-assignment

---
 src/gravity/harmonic_coeffs.cpp   | 8 +++++++-
 var/icgem/src/harmonic_coeffs.cpp | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 9def5a1..37f24e6 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -21,7 +21,10 @@ int dso::HarmonicCoeffs::deallocate() noexcept {
 }
 
 void dso::HarmonicCoeffs::resize(int degree) noexcept {
-    if (degree <= m_degree) {
+    if (m_data && degree <= m_degree) {
+      // free the rows that are no longer reachable
+      for (int i = degree + 1; i <= m_degree; i++)
+        delete[] m_data[i];
       m_degree = degree;
     } else {
       deallocate();
@@ -45,6 +48,9 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
   this->m_data = h.m_data;
   this->_GM = h._GM;
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 65903d2..4fcbfa2 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -30,6 +30,9 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
   this->m_data = h.m_data;
   h.m_degree = 0;
-- 
2.43.0


From bf0afb681d88ad5831b6c8ff7ab0c1d389c7eda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 02/57] fix: denormalisation factors overflow above degree 85
 and abort at degree 0

---
 src/gravity/harmonic_coeffs.cpp   | 7 +++----
 var/icgem/src/harmonic_coeffs.cpp | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 37f24e6..7a6cc30 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -1,6 +1,5 @@
 #include "harmonic_coeffs.hpp"
 #include <algorithm>
-#include <cassert>
 #include <cmath>
 #include <cstdio>
 
@@ -61,6 +60,7 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
+// square root of (n+m)!/(n-m)!; the product itself overflows for n,m > 85
 double _sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
@@ -68,13 +68,13 @@ double _sum(int n, int m) noexcept {
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sum(n, i) / std::sqrt((2e0 * n + 1) * (2 - (i == 0)));
   return 0;
 }
 
@@ -91,7 +91,6 @@ int dso::HarmonicCoeffs::denormalize(int order) noexcept {
     return 1;
   }
 
-  assert(m_degree > 0);
   double *facs = new double[m_degree + 1];
   for (int n = 1; n <= m_degree; n++) {
     int mm = std::min(order, n);
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 4fcbfa2..d7d0393 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -1,6 +1,5 @@
 #include "harmonic_coeffs.hpp"
 #include <algorithm>
-#include <cassert>
 #include <cmath>
 #include <cstdio>
 
@@ -40,6 +39,7 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
+// square root of (n+m)!/(n-m)!; the product itself overflows for n,m > 85
 double _sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
@@ -47,13 +47,13 @@ double _sum(int n, int m) noexcept {
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sum(n, i) / std::sqrt((2e0 * n + 1) * (2 - (i == 0)));
   return 0;
 }
 
@@ -68,7 +68,6 @@ int dso::HarmonicCoeffs::denormalize(int order) noexcept {
     return 1;
   }
 
-  assert(m_degree > 0);
   double *facs = new double[m_degree + 1];
   for (int n = 1; n <= m_degree; n++) {
     int mm = std::min(order, n);
-- 
2.43.0


From d991aa4cd0ac6de9ee1e3b491448165bfec1d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 03/57] fix: ICGEM header values with trailing blanks, missing,
 or too long are misread

---
 src/gravity/icgemio_rdhead.cpp   | 56 +++++++++++++++++++-----------
 var/icgem/src/icgemio_rdhead.cpp | 58 +++++++++++++++++++++-----------
 2 files changed, 74 insertions(+), 40 deletions(-)

diff --git a/src/gravity/icgemio_rdhead.cpp b/src/gravity/icgemio_rdhead.cpp
index cce597d..47ec2a7 100644
--- a/src/gravity/icgemio_rdhead.cpp
+++ b/src/gravity/icgemio_rdhead.cpp
@@ -1,5 +1,5 @@
 #include "icgemio.hpp"
-#include <cassert>
+#include <cctype>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -31,14 +31,14 @@ void dso::Icgem::print_details() {
 ///          return '\0'
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
@@ -53,16 +53,18 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   keyword_size = 0;
 
   // does the line start with the parameter_name string ?
-  if (!std::strncmp(line, parameter_name, psz)) {
+  // (the keyword must be a whole word)
+  if (!std::strncmp(line, parameter_name, psz) &&
+      (!line[psz] || std::isspace((unsigned char)line[psz]))) {
     // start of new word after the keyword in line
-    const char *start = next_non_ws_char(line + psz + 1);
+    const char *start = next_non_ws_char(line + psz);
     // start of second word after the keyword in line
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (start == stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     // parameter_name not matched in begining of line; return NULL
@@ -70,6 +72,20 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   }
 }
 
+/// Copy a header value of given size to a (null-terminated) string of capacity
+/// dst_size; anything other than zero is returned if it does not fit
+int copy_value(char *dst, int dst_size, const char *value, int size) noexcept {
+  if (size >= dst_size) {
+    fprintf(stderr,
+            "[ERROR] Value too long in icgem header: [%.*s] (traceback: %s)\n",
+            size, value, __func__);
+    return 1;
+  }
+  std::memcpy(dst, value, size);
+  dst[size] = '\0';
+  return 0;
+}
+
 /// @warning this function assumes that comment and header lines do not exceed
 ///          256 characters; this is not guaranteed by the icgem format, but
 ///          practically holds for all cases.
@@ -103,8 +119,8 @@ int dso::Icgem::parse_header() noexcept {
               "product_type", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(product_type));
-      std::strncpy(product_type, keyword, keyword_size);
+      if (copy_value(product_type, sizeof(product_type), keyword, keyword_size))
+        error = 1;
     }
 
     // check if this the 'modelname' field (mandatory keyword)
@@ -116,8 +132,8 @@ int dso::Icgem::parse_header() noexcept {
               "modelname", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(modelname));
-      std::strncpy(modelname, keyword, keyword_size);
+      if (copy_value(modelname, sizeof(modelname), keyword, keyword_size))
+        error = 1;
     }
 
     // check if this the 'earth_gravity_constant' field (mandatory keyword)
@@ -132,7 +148,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       earth_gravity_constant = std::strtod(keyword, &end);
-      if (end == keyword || earth_gravity_constant == 0e0) {
+      if (end != keyword + keyword_size || earth_gravity_constant == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -152,7 +168,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       radius = std::strtod(keyword, &end);
-      if (end == keyword || radius == 0e0) {
+      if (end != keyword + keyword_size || radius == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -172,7 +188,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       max_degree = std::strtol(keyword, &end, 10);
-      if (end == keyword || max_degree == 0e0) {
+      if (end != keyword + keyword_size || max_degree == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -190,8 +206,8 @@ int dso::Icgem::parse_header() noexcept {
               "errors", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(errors));
-      std::strncpy(errors, keyword, keyword_size);
+      if (copy_value(errors, sizeof(errors), keyword, keyword_size))
+        error = 1;
     }
 
     // check if this the 'tide_system' field (optional keyword)
@@ -203,8 +219,8 @@ int dso::Icgem::parse_header() noexcept {
               "tide_system", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(tide_system));
-      std::strncpy(tide_system, keyword, keyword_size);
+      if (copy_value(tide_system, sizeof(tide_system), keyword, keyword_size))
+        error = 1;
     }
 
     // check if this the 'norm' field (optional keyword)
@@ -216,8 +232,8 @@ int dso::Icgem::parse_header() noexcept {
               "norm", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(norm));
-      std::strncpy(norm, keyword, keyword_size);
+      if (copy_value(norm, sizeof(norm), keyword, keyword_size))
+        error = 1;
     }
 
     fin.getline(buf, bsz);
diff --git a/var/icgem/src/icgemio_rdhead.cpp b/var/icgem/src/icgemio_rdhead.cpp
index eee0992..757c20c 100644
--- a/var/icgem/src/icgemio_rdhead.cpp
+++ b/var/icgem/src/icgemio_rdhead.cpp
@@ -1,5 +1,5 @@
 #include "icgemio.hpp"
-#include <cassert>
+#include <cctype>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -24,14 +24,14 @@ void dso::Icgem::print_details() {
 
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
@@ -40,20 +40,38 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
                                    int &keyword_size) noexcept {
   auto psz = std::strlen(parameter_name);
   keyword_size = 0;
-  if (!std::strncmp(line, parameter_name, psz)) {
-    const char *start = next_non_ws_char(line + psz + 1);
+  // (the keyword must be a whole word)
+  if (!std::strncmp(line, parameter_name, psz) &&
+      (!line[psz] || std::isspace((unsigned char)line[psz]))) {
+    // start of new word after the keyword in line
+    const char *start = next_non_ws_char(line + psz);
+    // start of second word after the keyword in line
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (start == stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     return nullptr;
   }
 }
 
+/// Copy a header value of given size to a (null-terminated) string of capacity
+/// dst_size; anything other than zero is returned if it does not fit
+int copy_value(char *dst, int dst_size, const char *value, int size) noexcept {
+  if (size >= dst_size) {
+    fprintf(stderr,
+            "[ERROR] Value too long in icgem header: [%.*s] (traceback: %s)\n",
+            size, value, __func__);
+    return 1;
+  }
+  std::memcpy(dst, value, size);
+  dst[size] = '\0';
+  return 0;
+}
+
 /// @warning this function assumes that comment and header lines do not exceed
 ///          256 characters; this is not guaranteed by the icgem format, but
 ///          practically holds for all cases.
@@ -84,8 +102,8 @@ int dso::Icgem::parse_header() noexcept {
               "product_type", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(product_type));
-      std::strncpy(product_type, keyword, keyword_size);
+      if (copy_value(product_type, sizeof(product_type), keyword, keyword_size))
+        return 1;
     }
 
     keyword = resolve_header_keyword("modelname", line, keyword_size);
@@ -96,8 +114,8 @@ int dso::Icgem::parse_header() noexcept {
               "modelname", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(modelname));
-      std::strncpy(modelname, keyword, keyword_size);
+      if (copy_value(modelname, sizeof(modelname), keyword, keyword_size))
+        return 1;
     }
 
     keyword =
@@ -111,7 +129,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       earth_gravity_constant = std::strtod(keyword, &end);
-      if (end == keyword || earth_gravity_constant == 0e0) {
+      if (end != keyword + keyword_size || earth_gravity_constant == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -130,7 +148,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       radius = std::strtod(keyword, &end);
-      if (end == keyword || radius == 0e0) {
+      if (end != keyword + keyword_size || radius == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -149,7 +167,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       max_degree = std::strtol(keyword, &end, 10);
-      if (end == keyword || max_degree == 0e0) {
+      if (end != keyword + keyword_size || max_degree == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -166,8 +184,8 @@ int dso::Icgem::parse_header() noexcept {
               "errors", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(errors));
-      std::strncpy(errors, keyword, keyword_size);
+      if (copy_value(errors, sizeof(errors), keyword, keyword_size))
+        return 1;
     }
 
     keyword = resolve_header_keyword("tide_system", line, keyword_size);
@@ -178,8 +196,8 @@ int dso::Icgem::parse_header() noexcept {
               "tide_system", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(tide_system));
-      std::strncpy(tide_system, keyword, keyword_size);
+      if (copy_value(tide_system, sizeof(tide_system), keyword, keyword_size))
+        return 1;
     }
 
     keyword = resolve_header_keyword("norm", line, keyword_size);
@@ -190,8 +208,8 @@ int dso::Icgem::parse_header() noexcept {
               "norm", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(norm));
-      std::strncpy(norm, keyword, keyword_size);
+      if (copy_value(norm, sizeof(norm), keyword, keyword_size))
+        return 1;
     }
 
     fin.getline(buf, bsz);
-- 
2.43.0


From 1da64517e05e07e9bfe314c98ae33f5939310136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 04/57] fix: ICGEM data section: invalid or repeated
 degree/order, unterminated last line, degree 0

---
 src/gravity/icgemio_rddata.cpp   | 49 ++++++++++++++++++--------------
 var/icgem/src/icgemio_rddata.cpp | 49 ++++++++++++++++++--------------
 2 files changed, 56 insertions(+), 42 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index a240e93..4f695ed 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -1,8 +1,9 @@
 #include "icgemio.hpp"
-#include <cassert>
+#include <cctype>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -31,7 +32,7 @@ std::size_t coeffs_nr(int l, int m) noexcept {
 int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
   int error = 0;
-  if (l > max_degree || m > l) {
+  if (l > max_degree || m > l || m < 0) {
     fprintf(
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
@@ -66,20 +67,17 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // Note (1)
   // -------------------------------------------------------------------------
   // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  // C_10 and C_11 are missing; that is because the are nominally zero; so that
+  // if at the end of parsing we are only missing these, they are set to zero.
+  // Hence, keep track of the coefficients parsed.
+  std::vector<char> parsed((std::size_t)(l + 1) * (m + 1), 0);
 
   char line[max_data_line], *end, *start;
   int ll, mm;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
-  fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (coeffs_read < coeffs_to_read && fin.getline(line, max_data_line)) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
@@ -105,6 +103,14 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      if (ll < 0 || mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
@@ -121,7 +127,8 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         start = end;
         Slm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || (*end && !std::isspace((unsigned char)*end)) ||
+            (mm == 0 && Slm != 0e0)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Slm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
@@ -131,29 +138,29 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         // assign to harmonic coefficients matrix
         coeffs->C(ll, mm) = Clm;
-        ++coeffs_read;
-        if (mm == 0) {
-          assert(Slm == 0e0);
-        } else {
+        if (mm > 0)
           coeffs->S(ll, mm) = Slm;
-        }
+        char &seen = parsed[(std::size_t)ll * (m + 1) + mm];
+        coeffs_read += !seen;
+        seen = 1;
       }
     }
-
-    fin.getline(line, max_data_line);
   }
 
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
+    const bool no10 = l >= 1 && !parsed[m + 1];
+    const bool no11 = l >= 1 && m >= 1 && !parsed[m + 2];
+    if (no10 && no11 == (m >= 1) &&
+        coeffs_to_read - coeffs_read == (std::size_t)no10 + no11) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
              filename.c_str());
       printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
       coeffs->C(1, 0) = 0e0;
-      coeffs->C(1, 1) = 0e0;
+      if (no11)
+        coeffs->C(1, 1) = coeffs->S(1, 1) = 0e0;
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index 8f3c87d..00ada61 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -1,8 +1,9 @@
 #include "icgemio.hpp"
-#include <cassert>
+#include <cctype>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -30,7 +31,7 @@ std::size_t coeffs_nr(int l, int m) noexcept {
 ///          enough memmory to hold the (to-be-) parsed coefficients.
 int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
-  if (l > max_degree || m > l) {
+  if (l > max_degree || m > l || m < 0) {
     fprintf(
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
@@ -58,20 +59,17 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // Note (1)
   // -------------------------------------------------------------------------
   // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  // C_10 and C_11 are missing; that is because the are nominally zero; so that
+  // if at the end of parsing we are only missing these, they are set to zero.
+  // Hence, keep track of the coefficients parsed.
+  std::vector<char> parsed((std::size_t)(l + 1) * (m + 1), 0);
 
   char line[max_data_line], *end, *start;
   int ll, mm;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
-  fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (coeffs_read < coeffs_to_read && fin.getline(line, max_data_line)) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
@@ -97,6 +95,14 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      if (ll < 0 || mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
@@ -113,7 +119,8 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         start = end;
         Slm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || (*end && !std::isspace((unsigned char)*end)) ||
+            (mm == 0 && Slm != 0e0)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Slm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
@@ -123,29 +130,29 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         // assign to harmonic coefficients matrix
         coeffs->C(ll, mm) = Clm;
-        ++coeffs_read;
-        if (mm == 0) {
-          assert(Slm == 0e0);
-        } else {
+        if (mm > 0)
           coeffs->S(ll, mm) = Slm;
-        }
+        char &seen = parsed[(std::size_t)ll * (m + 1) + mm];
+        coeffs_read += !seen;
+        seen = 1;
       }
     }
-
-    fin.getline(line, max_data_line);
   }
 
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
+    const bool no10 = l >= 1 && !parsed[m + 1];
+    const bool no11 = l >= 1 && m >= 1 && !parsed[m + 2];
+    if (no10 && no11 == (m >= 1) &&
+        coeffs_to_read - coeffs_read == (std::size_t)no10 + no11) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
              filename.c_str());
       printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
       coeffs->C(1, 0) = 0e0;
-      coeffs->C(1, 1) = 0e0;
+      if (no11)
+        coeffs->C(1, 1) = coeffs->S(1, 1) = 0e0;
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
-- 
2.43.0


From 3223262283ef71bff9cb232ea045e7b56758608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 05/57] fix: Mat2D copies did not compile and move-assignment
 leaked and returned nothing

---
 src/cmat2d.hpp                 | 18 +++++++++++-------
 var/icgem/src/compact2dmat.hpp | 22 +++++++++++++---------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index 3b5d232..cb1dae2 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -234,7 +234,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -243,11 +243,11 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data || m_storage.num_elements() != (std::size_t)mat.num_elements()) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -255,10 +255,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
diff --git a/var/icgem/src/compact2dmat.hpp b/var/icgem/src/compact2dmat.hpp
index 408ea00..25bdbd6 100644
--- a/var/icgem/src/compact2dmat.hpp
+++ b/var/icgem/src/compact2dmat.hpp
@@ -197,14 +197,14 @@ public:
   /// offset of the ith row; if data is stored in a column-wise manner, it will
   /// return the index of the first elelement of the ith column
   const double *slice(int i) const noexcept {
-    return m_data[m_storage(slice(i))];
+    return m_data + m_storage.slice(i);
   }
 
   /// @brief Row/Column indexing (rows and columns start from 0 --not 1--)
   /// If the data is tored in a Row-Wise manner, this function will return the
   /// offset of the ith row; if data is stored in a column-wise manner, it will
   /// return the index of the first elelement of the ith column
-  double *slice(int i) noexcept { return m_data[m_storage(slice(i))]; }
+  double *slice(int i) noexcept { return m_data + m_storage.slice(i); }
 
   void fill_with(double val) noexcept {
     std::fill(m_data, m_data + m_storage.num_elements(), val);
@@ -226,7 +226,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -235,11 +235,11 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data || m_storage.num_elements() != (std::size_t)mat.num_elements()) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -247,10 +247,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From ba4548d9d759a132daf6d03195ef135512b16b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 06/57] fix: gravity partials were incomplete: order-1 xz/yz
 terms, upper triangle, order-0 reads

---
 src/gravity/gravity_acceleration.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index dc6a4b3..ccecdc2 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -103,16 +103,21 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // printf("\tGravitational potential (m=0)\n");
   // printf("\t%+15.6f %+15.6f %15.6f\n", xacc, yacc, zacc);
 
-  double daxdx_m1(0e0), daxdy_m1(0e0), dazdz_m1(0e0);
+  double daxdx_m1(0e0), daxdy_m1(0e0), daxdz_m1(0e0), daydz_m1(0e0),
+      dazdz_m1(0e0);
   // m = 1 part (only considered for partials)
   fac = 2e0; /* recursion of (n+1)! / (n-1)! */
-  for (int i = 1; i <= degree; i++) {
+  for (int i = 1; order > 0 && i <= degree; i++) {
     const double Cn1 = hc.C(i, 1);
     const double Sn1 = hc.S(i, 1);
     daxdx_m1 += 0.25e0 * (Cn1 * V(i + 2, 3) + Sn1 * W(i + 2, 3) +
                           fac * (-3e0 * Cn1 * V(i + 2, 1) - Sn1 * W(i + 2, 1)));
     daxdy_m1 += 0.25e0 * (Cn1 * W(i + 2, 3) - Sn1 * V(i + 2, 3) +
                           fac * (-Cn1 * W(i + 2, 1) - Sn1 * V(i + 2, 1)));
+    daxdz_m1 += 0.5e0 * i * (Cn1 * V(i + 2, 2) + Sn1 * W(i + 2, 2)) -
+                0.5e0 * fac * (i + 2) * (Cn1 * V(i + 2, 0));
+    daydz_m1 += 0.5e0 * i * (Cn1 * W(i + 2, 2) - Sn1 * V(i + 2, 2)) -
+                0.5e0 * fac * (i + 2) * (Sn1 * V(i + 2, 0));
     dazdz_m1 += (double)(i * (i + 1)) * (Cn1 * V(i + 2, 1) + Sn1 * W(i + 2, 1));
 
     fac *= ((double)(i + 2) / (double)i);
@@ -203,14 +208,14 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // Sum-up partial derivatives, column-wise
   partials(0, 0) = daxdx_m0 + daxdx_m1 + daxdx_m2; // dax/dx
   partials(1, 0) = daxdy_m0 + daxdy_m1 + daxdy_m2; // dax/dy
-  partials(2, 0) = daxdz_m0 + daxdz_m2;            // dax/dz
+  partials(2, 0) = daxdz_m0 + daxdz_m1 + daxdz_m2; // dax/dz
 
-  partials(0, 1) = partials(0, 1);      // day/dx
+  partials(0, 1) = partials(1, 0);      // day/dx
   partials(1, 1) = 1e0;                 // day/dy
-  partials(2, 1) = daydz_m0 + daydz_m2; // day/dz
+  partials(2, 1) = daydz_m0 + daydz_m1 + daydz_m2; // day/dz
 
-  partials(0, 2) = partials(0, 2);                 // daz/dx
-  partials(1, 2) = partials(1, 2);                 // daz/dy
+  partials(0, 2) = partials(2, 0);                 // daz/dx
+  partials(1, 2) = partials(2, 1);                 // daz/dy
   partials(2, 2) = dazdz_m0 + dazdz_m1 + dazdz_m2; // daz/dz
 
   // computation of day / dy from the fact that:
-- 
2.43.0


From 2481f288f741b2d5e34ae7da598f611229cae54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 07/57] fix: ICGEM data: a line too long to be read is no end
 of file

---
 src/gravity/icgemio_rddata.cpp   | 3 ++-
 var/icgem/src/icgemio_rddata.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index 4f695ed..b19447a 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -152,7 +152,8 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
     // note (1)
     const bool no10 = l >= 1 && !parsed[m + 1];
     const bool no11 = l >= 1 && m >= 1 && !parsed[m + 2];
-    if (no10 && no11 == (m >= 1) &&
+    // (a line too long to read stops the reading before EOF)
+    if (fin.eof() && no10 && no11 == (m >= 1) &&
         coeffs_to_read - coeffs_read == (std::size_t)no10 + no11) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index 00ada61..1045644 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -144,7 +144,8 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
     // note (1)
     const bool no10 = l >= 1 && !parsed[m + 1];
     const bool no11 = l >= 1 && m >= 1 && !parsed[m + 2];
-    if (no10 && no11 == (m >= 1) &&
+    // (a line too long to read stops the reading before EOF)
+    if (fin.eof() && no10 && no11 == (m >= 1) &&
         coeffs_to_read - coeffs_read == (std::size_t)no10 + no11) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
-- 
2.43.0


From 4fddb1b86c5ef2995380e3041785fafba9f0f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 08/57] fix: Lagrange polynomials: degree 0 wrote out of
 bounds; sectorial terms of the row-wise version

---
 src/gravity/lagrange_poly.cpp   | 16 ++++++++++------
 var/icgem/src/lagrange_poly.cpp | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/gravity/lagrange_poly.cpp b/src/gravity/lagrange_poly.cpp
index fea9ca7..4a1e821 100644
--- a/src/gravity/lagrange_poly.cpp
+++ b/src/gravity/lagrange_poly.cpp
@@ -29,8 +29,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
@@ -41,8 +43,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
@@ -90,8 +92,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
diff --git a/var/icgem/src/lagrange_poly.cpp b/var/icgem/src/lagrange_poly.cpp
index bd8848d..73bc5e5 100644
--- a/var/icgem/src/lagrange_poly.cpp
+++ b/var/icgem/src/lagrange_poly.cpp
@@ -29,8 +29,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
@@ -41,8 +43,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
@@ -90,8 +92,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
-- 
2.43.0


From 55918d79152feee03831bccd6211bdf773a0800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 09/57] fix: var/icgem: y-acceleration used V for W in the
 order m-1 terms

---
 var/icgem/src/gravity_acceleration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/var/icgem/src/gravity_acceleration.cpp b/var/icgem/src/gravity_acceleration.cpp
index cd53e5b..b9fdd48 100644
--- a/var/icgem/src/gravity_acceleration.cpp
+++ b/var/icgem/src/gravity_acceleration.cpp
@@ -41,7 +41,7 @@ int dso::grav_potential_accel(
       xacc2 += 0.5e0 * (-Cnm * Vnp1mp1 - Snm * Wnp1mp1) +
                fac * (Cnm * Vnp1mm1 + Snm * Wnp1mm1);
       yacc2 += 0.5e0 * (-Cnm * Wnp1mp1 + Snm * Vnp1mp1) +
-               fac * (-Cnm * Vnp1mm1 + Snm * Wnp1mm1);
+               fac * (-Cnm * Wnp1mm1 + Snm * Vnp1mm1);
       zacc += (i - j + 1) * (-Cnm * Vnp1mp0 - Snm * Wnp1mp0);
     }
   }
-- 
2.43.0


From 130c042f8d46f610fb4d8057bd3cd14e012adaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 10/57] fix: partials of the point-mass acceleration had a
 wrong sign and distance

---
 src/gravity/point_mass_acceleration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravity/point_mass_acceleration.cpp b/src/gravity/point_mass_acceleration.cpp
index 1ea8059..e931d0a 100644
--- a/src/gravity/point_mass_acceleration.cpp
+++ b/src/gravity/point_mass_acceleration.cpp
@@ -36,9 +36,9 @@ dso::point_mass_accel(double GM, const Eigen::Matrix<double, 3, 1> &rsat,
   // const Eigen::Matrix<double, 3, 1> a = (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 
   // partials w.r.t. position
-  const double sn5 = sn2 * sn2 * sn;
+  const double dn5 = dn2 * dn2 * dn;
   partials = (-GM) * ( Eigen::Matrix<double, 3, 3>::Identity() / (dn*dn2) 
-  +3e0 * (d*d.transpose()) / sn5);
+  -3e0 * (d*d.transpose()) / dn5);
 
   return (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 }
-- 
2.43.0


From 3a3586c107a41c5e6d76229c2c81fc9f80c66c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 11/57] fix: factorial ratios below one were returned as their
 inverse

---
 src/factorial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorial.hpp b/src/factorial.hpp
index 95bf004..1116152 100644
--- a/src/factorial.hpp
+++ b/src/factorial.hpp
@@ -23,7 +23,7 @@ constexpr T factorialRatio() noexcept {
   T fact = (T)1;
   for (int i = minInt + 1; i <= maxInt; i++)
     fact *= (T)i;
-  return fact;
+  return Nominator >= Denominator ? fact : (T)1 / fact;
 } // factorialRatio
 
 template <typename T>
@@ -35,7 +35,7 @@ constexpr T factorialRatio(int Nominator, int Denominator) noexcept {
   T fact = (T)1;
   for (int i = minInt + 1; i <= maxInt; i++)
     fact *= (T)i;
-  return fact;
+  return Nominator >= Denominator ? fact : (T)1 / fact;
 } // factorialRatio
 
 }//dso
-- 
2.43.0


From 154c358ca9d732b795f8fe16d17be34c9514f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 12/57] fix: var/icgem: the gravity library could not be
 linked, a header function was not inline

---
 var/icgem/src/egravity.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/var/icgem/src/egravity.hpp b/var/icgem/src/egravity.hpp
index 1b57e51..146df59 100644
--- a/var/icgem/src/egravity.hpp
+++ b/var/icgem/src/egravity.hpp
@@ -4,6 +4,7 @@
 #include "compact2dmat.hpp"
 #include "harmonic_coeffs.hpp"
 #include "celgeo/matvec.hpp"
+#include <cmath>
 
 namespace dso {
 
@@ -14,7 +15,7 @@ namespace dso {
 /// @param[in] robj Point mass position vector (e.g. moon)
 /// @return A vector containing the acceleration components
 /// @see e.g. Curtis, Chapter 10.10
-Vector3 point_mass_accel(const Vector3 &rsat, const Vector3 &robj,
+inline Vector3 point_mass_accel(const Vector3 &rsat, const Vector3 &robj,
                          double GM) noexcept {
   //  Relative position vector of satellite w.r.t. point mass
   auto d = rsat - robj;
-- 
2.43.0


From 6777dc44c6a03422c2a61ab7c47035fe0916c15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 13/57] fix: RKF45 step-size exponents, error weight index and
 uninitialised state

---
 var/ode_solvers/rkf45.hpp      | 12 ++++++------
 var/ode_solvers/rkf45_rkfs.cpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/var/ode_solvers/rkf45.hpp b/var/ode_solvers/rkf45.hpp
index 54e799d..e31b25f 100644
--- a/var/ode_solvers/rkf45.hpp
+++ b/var/ode_solvers/rkf45.hpp
@@ -25,16 +25,16 @@ public:
 private:
   ODEfun f;
   int neqn;
-  int iflag, jflag, kflag;
-  int nfe,  ///< counter for function evaluations
-      kop,  ///< indicator for too many output points
-      init; ///< initialization completion indicator
+  int iflag, jflag{0}, kflag{0};
+  int nfe{0},  ///< counter for function evaluations
+      kop{0},  ///< indicator for too many output points
+      init{0}; ///< initialization completion indicator
   Eigen::MatrixXd F; // dimension 
   Eigen::VectorXd yp;
   double relerr;
   double abserr;
-  double h;
-  double savae, savre;
+  double h{0e0};
+  double savae{0e0}, savre{0e0};
   /// May store a pointer to some king of parameters that are passed in the
   /// ODE function
   void *params{nullptr};
diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index f55dcb7..3ec6e87 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -131,7 +131,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       toln = tol;
       const double ypk = std::abs(yp(i));
       if (ypk * std::pow(h, 5e0) > tol) {
-        h = (tol / ypk) * (tol / ypk);
+        h = std::pow(tol / ypk, 0.2e0);
       }
     }
   }
@@ -243,7 +243,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       // solution at the beginning and end of the step.
       double eeoet = 0e0;
       for (int i = 0; i < neqn; i++) {
-        const double et = std::abs(y(i)) + std::abs(F(0, i)) + ae;
+        const double et = std::abs(y(i)) + std::abs(F(i, 0)) + ae;
         if (et <= 0e0) {
           iflag = 5;
           return 0;
@@ -268,7 +268,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       output = false;
       s = 1e-1;
       if (esttol < 59049e0)
-        s = 9e-1 / (esttol * esttol);
+        s = 9e-1 / std::pow(esttol, 0.2e0);
       h *= s;
 
       // if (std::abs(h) > hmin)
@@ -299,7 +299,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
     // stepsize is not allowed to increase
     s = 5e0;
     if (esttol > 1.889568e-4)
-      s = 9e-1 / (esttol * esttol);
+      s = 9e-1 / std::pow(esttol, 0.2e0);
     if (hfaild)
       s = std::min(s, 1e0);
     h = std::copysign(std::max(s * std::abs(h), hmin), h);
-- 
2.43.0


From ae156108913e30e009ec23e3d8bc7819dbb7b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 14/57] fix: Shampine-Gordon integrator: step-failure branches,
 lazily evaluated round-off terms, restart after a bounded call, zero
 tolerances

---
 src/integrators/sgode_de.cpp   |  6 +++---
 src/integrators/sgode_step.cpp | 16 ++++++----------
 var/ode_solvers/sgode_de.cpp   |  6 +++---
 var/ode_solvers/sgode_step.cpp | 16 ++++++----------
 4 files changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/integrators/sgode_de.cpp b/src/integrators/sgode_de.cpp
index fd6b188..4c28b59 100644
--- a/src/integrators/sgode_de.cpp
+++ b/src/integrators/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -73,7 +73,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/src/integrators/sgode_step.cpp b/src/integrators/sgode_step.cpp
index f237283..91f39f9 100644
--- a/src/integrators/sgode_step.cpp
+++ b/src/integrators/sgode_step.cpp
@@ -45,7 +45,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), *params);
@@ -66,7 +66,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -215,7 +214,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -300,13 +299,10 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       // -- break point 320: --
       ++ifail;
       double t2 = 5e-1;
-      if (ifail == 3) {
+      if (ifail > 3 && p5eps < 0.25 * erk)
+        t2 = std::sqrt(p5eps / erk);
+      if (ifail >= 3)
         knew = 1;
-      } else if (ifail < 3) {
-        if (p5eps < 0.25 * erk)
-          t2 = std::sqrt(p5eps / erk);
-        knew = 1;
-      }
       h = t2 * h;
       k = knew;
 
@@ -344,7 +340,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
     // non-debug mode.
     // Don't have a fucking clue why!!!
     // const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
-    const auto rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
diff --git a/var/ode_solvers/sgode_de.cpp b/var/ode_solvers/sgode_de.cpp
index 4d18b88..5052b42 100644
--- a/var/ode_solvers/sgode_de.cpp
+++ b/var/ode_solvers/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -73,7 +73,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/var/ode_solvers/sgode_step.cpp b/var/ode_solvers/sgode_step.cpp
index 1d47793..9f498dd 100644
--- a/var/ode_solvers/sgode_step.cpp
+++ b/var/ode_solvers/sgode_step.cpp
@@ -45,7 +45,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), params);
@@ -66,7 +66,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -215,7 +214,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -294,13 +293,10 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       // -- break point 320: --
       ++ifail;
       double t2 = 5e-1;
-      if (ifail == 3) {
+      if (ifail > 3 && p5eps < 0.25 * erk)
+        t2 = std::sqrt(p5eps / erk);
+      if (ifail >= 3)
         knew = 1;
-      } else if (ifail < 3) {
-        if (p5eps < 0.25 * erk)
-          t2 = std::sqrt(p5eps / erk);
-        knew = 1;
-      }
       h = t2 * h;
       k = knew;
 
@@ -331,7 +327,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   // correct and evaluate
   const double t1 = h * g(kp1 - 1);
   if (!nornd) {
-    const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
-- 
2.43.0


From 428d55765faaa4db8eaaf4139aa29aee3034c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 15/57] fix: http_get removed a file it could not open, and
 took an unwritten body for success

---
 src/web/http_get.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index eff0431..fb102ef 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -60,12 +60,12 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
     //  get it!
     status = curl_easy_perform(curl_handle);
 
-    //  close the header file
-    fclose(pagefile);
-  }
+    //  close the header file; what is still buffered may fail to be written
+    if (fclose(pagefile) && status == CURLE_OK) status = CURLE_WRITE_ERROR;
 
-  // remove the opened but empty file in case of error
-  if (status != CURLE_OK) remove(local);
+    // remove the opened but incomplete file in case of error
+    if (status != CURLE_OK) remove(local);
+  }
 
   //  cleanup curl stuff
   curl_easy_cleanup(curl_handle);
-- 
2.43.0


From 17ffa83b308b1b989ce1bf84d838d5ce0c0d3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 16/57] fix: perifocal2equatorial_matrix took the node for the
 argument of pericentre in its last row

---
 src/astrodynamics/perifocal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/perifocal.cpp b/src/astrodynamics/perifocal.cpp
index 76a89f5..2710d1f 100644
--- a/src/astrodynamics/perifocal.cpp
+++ b/src/astrodynamics/perifocal.cpp
@@ -19,8 +19,8 @@ dso::Mat3x3 dso::perifocal2equatorial_matrix(double Omega, double omega,
   const double m10 = sO * co + cO * so * ci;
   const double m11 = -sO * so + cO * co * ci;
   const double m12 = -cO * si;
-  const double m20 = sO * si;
-  const double m21 = cO * si;
+  const double m20 = so * si;
+  const double m21 = co * si;
   const double m22 = ci;
 
   return dso::Mat3x3({m00, m01, m02, m10, m11, m12, m20, m21, m22});
-- 
2.43.0


From 62d494007fbf6496b3bd11797c687aa8aa03465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 17/57] fix: pos2ad gave NaN or a direction of half precision
 next to the poles

---
 src/astrodynamics/pos2ra.cpp | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/astrodynamics/pos2ra.cpp b/src/astrodynamics/pos2ra.cpp
index 2a9bf8f..c9a6ae3 100644
--- a/src/astrodynamics/pos2ra.cpp
+++ b/src/astrodynamics/pos2ra.cpp
@@ -1,32 +1,13 @@
 #include "astrodynamics.hpp"
 #include <cmath>
-#ifdef ASSERT_ERROR
-#include <cassert>
-#endif
 
 int dso::pos2ad(const Vector3 &pos, double &a, double &d) noexcept {
-  // calculate the magnitude of r
-  const double r = pos.norm();
-  
-  // Calculate the direction cosines of r
-  const double l = pos.x() / r;
-  const double m = pos.y() / r;
-  const double n = pos.z() / r;
-  
-  // Calculate the declination
-#ifdef ASSERT_ERROR
-  assert(n>=-1e0 && n<=1e0);
-#endif
-  d = std::asin(n); // range [-pi/2 to pi/2]
-  
-  // Calculate the right ascension
-  const double af = std::acos(l / std::cos(d));
-#ifdef BRANCHLESS
-  const double ret[] = {iers2010::D2PI - af, af};
-  a = ret[m>0];
-#else
-  a = (m<=0) ? (iers2010::D2PI - af) : af;
-#endif
+  // Calculate the declination, range [-pi/2 to pi/2]
+  d = std::atan2(pos.z(), std::hypot(pos.x(), pos.y()));
+
+  // Calculate the right ascension, range [0 to 2pi]
+  const double af = std::atan2(pos.y(), pos.x());
+  a = (af < 0e0) ? (iers2010::D2PI + af) : af;
 
   return 0;
 }
-- 
2.43.0


From 93a9d148d75a851ba547a4acf067581f5a5ce037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 18/57] fix: elements2state (Eigen) rotated by the node and the
 argument of pericentre in the wrong order

---
 src/astrodynamics/state2kepler.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index e74fcd0..6e710b3 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -79,17 +79,19 @@ Eigen::Matrix<double, 6, 1> dso::elements2state(double GM, double dt,
   const double Omega = ele.Omega();
   const double omega = ele.omega();
   const double i = ele.inclination();
-  Eigen::Matrix3d R(Eigen::AngleAxisd(-Omega, Eigen::Vector3d::UnitZ()) *
-                    Eigen::AngleAxisd(-i, Eigen::Vector3d::UnitX()) *
-                    Eigen::AngleAxisd(-omega, Eigen::Vector3d::UnitZ()));
+  // (note we are using positive angle values here - no need to take the
+  // transpose)
+  Eigen::Matrix3d R(Eigen::AngleAxisd(Omega, Eigen::Vector3d::UnitZ()) *
+                    Eigen::AngleAxisd(i, Eigen::Vector3d::UnitX()) *
+                    Eigen::AngleAxisd(omega, Eigen::Vector3d::UnitZ()));
   //printf("PQW = [%+20.10f %+20.10f %20.10f]\n", R(0,0),R(0,1),R(0,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(1,0),R(1,1),R(1,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(2,0),R(2,1),R(2,2));
   //printf("xAngle %+10.5f yAngle %+10.5f zAngle %+10.5f\n", dso::rad2deg(Omega), dso::rad2deg(i), dso::rad2deg(omega));
 
   // rotate to get equatorial, aka geocentric/(quasi-)inertial
-  Y.block<3,1>(0,0) = R.transpose() * Y.block<3,1>(0,0);
-  Y.block<3,1>(3,0) = R.transpose() * Y.block<3,1>(3,0);
+  Y.block<3,1>(0,0) = R * Y.block<3,1>(0,0);
+  Y.block<3,1>(3,0) = R * Y.block<3,1>(3,0);
   //printf("inertial coordinates: r=[%+20.10f %+20.10f %20.10f]\n", Y(0),Y(1),Y(2));
   //printf("                      v=[%+20.10f %+20.10f %20.10f]\n", Y(3),Y(4),Y(5));
   return Y;
-- 
2.43.0


From e213fe4d1c4b46b568aacc984a20a7e36da93853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 19/57] fix: state2kepler family gave NaN where rounding leaves
 an arc-cosine argument outside [-1,1]; Montenbruck's form divided by the
 wrong product

---
 src/astrodynamics/state2kepler.cpp | 35 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index 6e710b3..f3c0cb5 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -13,6 +13,13 @@
 
 using dso::Vector3;
 
+namespace {
+// arc cosine of a ratio which rounding may have left just outside [-1, 1]
+inline double acos_ratio(double x) noexcept {
+  return std::acos(x < -1e0 ? -1e0 : (x > 1e0 ? 1e0 : x));
+}
+} // namespace
+
 int dso::elements2state(const dso::OrbitalElements &ele, double dt,
                         dso::Vector3 &r, dso::Vector3 &v, double GM) noexcept {
   // mean anomaly M at time t
@@ -188,22 +195,24 @@ int dso::alternatives::state2kepler_montenbruck(const double *state,
   const Vector3 W{{h.x() / hmag, h.y() / hmag, h.z() / hmag}};
 
   keplerian[1] = std::atan2(std::sqrt(W.x() * W.x() + W.y() * W.y()), W.z());
-  keplerian[2] = std::atan2(W.x(), -W.y());
+  keplerian[2] = dso::norm_angle<double, dso::AngleUnit::Radians>(
+      std::atan2(W.x(), -W.y()));
 
   const double p = h.norm_squared() / m;
   const double a = 1e0 / ((2e0 / rmag) - (v.norm_squared() / m));
   const double n = std::sqrt(m / (a * a * a));
-  const double e = std::sqrt(1e0 - (p / a));
+  // (rounding may push p/a over 1 for circular orbits)
+  const double e = (p < a) ? std::sqrt(1e0 - (p / a)) : 0e0;
   keplerian[3] = e;
 
-  const double E = atan2(r.dot_product(v) / a * a / n, 1e0 - rmag / a);
+  const double E = std::atan2(r.dot_product(v) / (a * a * n), 1e0 - rmag / a);
   const double sE = std::sin(E);
   // const double M = E - e * sE;
 
   const double u = std::atan2(r.z(), -r.x() * W.y() + r.y() * W.x());
   const double t = std::atan2(std::sqrt(1e0 - e * e) * sE, std::cos(E) - e);
-  keplerian[4] = u - t;
-  keplerian[5] = t;
+  keplerian[4] = dso::norm_angle<double, dso::AngleUnit::Radians>(u - t);
+  keplerian[5] = dso::norm_angle<double, dso::AngleUnit::Radians>(t);
 
   return 0;
 }
@@ -243,19 +252,19 @@ int dso::alternatives::state2kepler_vallado(const double *state,
   //  enorm * enorm);
   //#endif
 
-  keplerian[1] = std::acos(h.z() / hnorm);
+  keplerian[1] = acos_ratio(h.z() / hnorm);
 
-  double Omega = std::acos(n.x() / nnorm);
+  double Omega = acos_ratio(n.x() / nnorm);
   if (n.y() < 0e0)
     Omega = iers2010::D2PI - Omega;
   keplerian[2] = Omega;
 
-  double omega = std::acos(n.dot_product(e) / (nnorm * enorm));
+  double omega = acos_ratio(n.dot_product(e) / (nnorm * enorm));
   if (e.z() < 0e0)
     omega = iers2010::D2PI - omega;
   keplerian[4] = omega;
 
-  double ni = std::acos(e.dot_product(r) / (enorm * rnorm));
+  double ni = acos_ratio(e.dot_product(r) / (enorm * rnorm));
   if (r.dot_product(v) < 0e0)
     ni = iers2010::D2PI - ni;
   keplerian[5] = ni;
@@ -291,7 +300,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // momentum h points in a southerly direction. In that case, the orbit is
   // retrograde, which means that the motion of the satellite around the earth
   // is opposite to earth’s rotation.
-  keplerian[1] = std::acos(hv.z() / keplerian[0]);
+  keplerian[1] = acos_ratio(hv.z() / keplerian[0]);
 
   // calculate N = k x h ; this vector defines the node line.
   const Vector3 Nv{{-hv.y(), hv.x(), 0e0}};
@@ -306,7 +315,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // the negative side of the XZ plane (180° < Ω < 360°) if NY < 0. Therefore,
   // NY > 0 implies that 0  Ω < 180°, whereas NY < 0 implies that
   // 180° < Ω < 360°
-  const double Nf = std::acos(Nv.x() / N);
+  const double Nf = acos_ratio(Nv.x() / N);
 #ifdef BRANCHLESS
   const double retN[] = {Nf, iers2010::D2PI - Nf};
   keplerian[2] = retN[Nv.y() < 0e0];
@@ -329,7 +338,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // positive Z direction) and that perigee lies below the plane
   // (180°  ω < 360°) if e points down. Therefore, eZ >=  0 implies that
   // 0° < ω < 180°, whereas eZ < 0 implies that 180° < ω < 360°.
-  const double Of = std::acos(Nv.dot_product(ev) / N / e);
+  const double Of = acos_ratio(Nv.dot_product(ev) / N / e);
 #ifdef BRANCHLESS
   const double retO[] = {Of, iers2010::D2PI - Of};
   keplerian[4] = retO[ev.z() < 0e0];
@@ -344,7 +353,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // satellite is flying away from perigee (r*v >= 0), then 0 <  θ < 180°,
   // whereas if the satellite is flying toward perigee (r*v < 0), then
   // 180° < θ < 360°.
-  const double Tf = std::acos(ev.dot_product(pos) / e / r);
+  const double Tf = acos_ratio(ev.dot_product(pos) / e / r);
 #ifdef BRANCHLESS
   const double retT[] = {Tf, iers2010::D2PI - Tf};
   keplerian[5] = retT[vr < 0e0];
-- 
2.43.0


From 80b364255b841dfbfc3db3cd71b4d4097ff6ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 20/57] fix: drag_accel (true of date) kept an Eigen expression
 over dead temporaries

---
 src/astrodynamics/drag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/astrodynamics/drag.cpp b/src/astrodynamics/drag.cpp
index 5145ea1..34c30ca 100644
--- a/src/astrodynamics/drag.cpp
+++ b/src/astrodynamics/drag.cpp
@@ -26,12 +26,12 @@ dso::drag_accel(const Eigen::Matrix<double, 3, 1> &rsat,
   const Eigen::Matrix<double, 3, 1> omega{omegav};
 
   // position and velocity of satellite to true-of-date system
-  const auto rtod = rbpn * rsat;
-  const auto vtod = rbpn * vsat;
+  const Eigen::Matrix<double, 3, 1> rtod = rbpn * rsat;
+  const Eigen::Matrix<double, 3, 1> vtod = rbpn * vsat;
 
   // Velocity relative to the Earth's atmosphere
-  const auto vrel = vtod - omega.cross(rtod);
-  const auto vabs = vrel.norm();
+  const Eigen::Matrix<double, 3, 1> vrel = vtod - omega.cross(rtod);
+  const double vabs = vrel.norm();
 
   // Acceleration
   Eigen::Matrix<double, 3, 1> acc =
-- 
2.43.0


From 572fd26c1bc7ced99e2203a2ea06c52b4478a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 21/57] fix: vallado_shadow swapped the widening of penumbra
 and umbra, and lit a satellite right behind the Earth

---
 src/astrodynamics/occultation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index b072257..06ce5cf 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -22,9 +22,11 @@ double utest::vallado_shadow(const dso::Vector3 &r_sat,
   const double r = r_sat.norm();
   const double s = r_sun.norm();
   const double cosz = product / (r * s);
-  const double zeta = std::acos(cosz);
+  // (rounding may leave the cosine just below -1)
+  const double zeta = std::acos(cosz < -1e0 ? -1e0 : cosz);
   const double sinz = std::sin(zeta);
-  const double sath = r * cosz;
+  // distance behind the Earth, along the Sun-Earth line
+  const double sath = -r * cosz;
   const double satv = r * sinz;
   constexpr const double sinApen = (iers2010::Rs + iers2010::Re) / iers2010::AU;
   constexpr const double Apen = /*std::asin(sinApen);*/ gcem::asin(sinApen);
-- 
2.43.0


From b7b7a05596a7a0c50fdeff5f52a69e94c29190b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 22/57] fix: conical_shadow gave NaN on the Sun-Earth line and
 where the Earth's disc lies within the Sun's

---
 src/astrodynamics/occultation.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index 06ce5cf..2af1c09 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -14,6 +14,13 @@
 /// @todo At the moment of writing, trigonometric std functions are not
 ///       constexpr. When they are, drop dependendy of gcem
 
+namespace {
+// arc cosine of a ratio which rounding may have left just outside [-1, 1]
+inline double acos_ratio(double x) noexcept {
+  return std::acos(x < -1e0 ? -1e0 : (x > 1e0 ? 1e0 : x));
+}
+} // namespace
+
 double utest::vallado_shadow(const dso::Vector3 &r_sat,
                                 const dso::Vector3 &r_sun) noexcept {
   const double product = r_sat.dot_product(r_sun);
@@ -80,7 +87,7 @@ double utest::conical_shadow(const dso::Vector3 &r_sat,
   const double nsunsat = (r_sun - r_sat).norm();
   const double ts = std::asin(iers2010::Rs / nsunsat);
   const double tes =
-      std::acos(-r_sat.dot_product(r_sun - r_sat) / (nsunsat * r_sat.norm()));
+      acos_ratio(-r_sat.dot_product(r_sun - r_sat) / (nsunsat * r_sat.norm()));
 
   if (tes >= te + ts)
     return 1e0;
@@ -89,9 +96,14 @@ double utest::conical_shadow(const dso::Vector3 &r_sat,
 
   const double ts2 = ts * ts;
   const double te2 = te * te;
+
+  // the Earth's disc lies within the Sun's
+  if (tes <= ts - te)
+    return 1e0 - te2 / ts2;
+
   const double tes2 = tes * tes;
-  const double caf = std::acos((ts2 + tes2 - te2) / (2e0 * ts * tes));
-  const double cbd = std::acos((te2 + tes2 - ts2) / (2e0 * te * tes));
+  const double caf = acos_ratio((ts2 + tes2 - te2) / (2e0 * ts * tes));
+  const double cbd = acos_ratio((te2 + tes2 - ts2) / (2e0 * te * tes));
   const double Safc = 0.5 * caf * ts2;
   const double Saec = 0.5 * (ts * std::sin(caf)) * (ts * std::cos(caf));
   const double Sbdc = 0.5 * cbd * te2;
-- 
2.43.0


From 23a595dc4601cf44b94245610310d5520df75fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 23/57] fix: bernese_shadow1 lit a satellite on the Sun-Earth
 line

---
 src/astrodynamics/occultation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index 2af1c09..9bf029a 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -76,7 +76,9 @@ double utest::bernese_shadow1(const dso::Vector3 &r_sat,
     const double rsun = zsun.norm();
     const double rsat2 = zsat.norm_squared();
     const double rcos = zsat.dot_product(zsun) / rsun;
-    const double rsin = std::sqrt(rsat2-rcos*rcos);
+    // (rounding may leave the difference just below zero)
+    const double rsin2 = rsat2-rcos*rcos;
+    const double rsin = std::sqrt(rsin2 > 0e0 ? rsin2 : 0e0);
     if (rcos<0e0 && (rsin-iers2010::Re<0e0)) return 0e0;
     return 1;
 }
-- 
2.43.0


From 516f46cda7a986da59c1568fb55b84d057c91852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 24/57] fix: DORIS RINEX header: trimmed lines, repeated or
 absent scale factors, blank fields, hostile counts and stale errno were
 misread

---
 src/doris/doris_system_info.cpp |  6 ++-
 src/doris_rinex.hpp             | 20 ++++-----
 src/rinex/read_rnx_header.cpp   | 74 ++++++++++++++++++++++++---------
 3 files changed, 69 insertions(+), 31 deletions(-)

diff --git a/src/doris/doris_system_info.cpp b/src/doris/doris_system_info.cpp
index f1e9633..fa38b08 100644
--- a/src/doris/doris_system_info.cpp
+++ b/src/doris/doris_system_info.cpp
@@ -1,5 +1,8 @@
 #include "doris_system_info.hpp"
 #include <cassert>
+#include <cerrno>
+#include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <stdexcept>
 
@@ -103,6 +106,7 @@ int dso::BeaconStation::set_from_rinex_line(const char *line) noexcept {
   std::memcpy(m_station_name, line + 10, sizeof m_station_name);
   std::memcpy(m_station_domes, line + 40, sizeof m_station_domes);
   char *end;
+  errno = 0;
   m_type = std::strtol(line + 50, &end, 10);
   if (errno || end == line + 50) {
     errno = 0;
@@ -126,7 +130,7 @@ int dso::BeaconStation::set_from_rinex_line(const char *line) noexcept {
 }
 
 char *dso::BeaconStation::to_str(char *buffer) const noexcept {
-  std::sprintf(buffer, "[%.3s/%.4s_%.9s](%s)", m_internal_code, m_station_id,
+  std::sprintf(buffer, "[%.3s/%.4s_%.9s](%.30s)", m_internal_code, m_station_id,
                m_station_domes, m_station_name);
   return buffer;
 }
diff --git a/src/doris_rinex.hpp b/src/doris_rinex.hpp
index 63416cb..8066806 100644
--- a/src/doris_rinex.hpp
+++ b/src/doris_rinex.hpp
@@ -110,25 +110,25 @@ std::ifstream m_stream;
 /// RINEX version
 float m_version;
 /// Satellite name
-char m_satellite_name[60];
+char m_satellite_name[60]{'\0'};
 /// COSPAR number
-char m_cospar_number[20];
+char m_cospar_number[20]{'\0'};
 /// DORIS chain used (chain1 or chain2), exp. “CHAIN1”
-char m_rec_chain[20];
+char m_rec_chain[20]{'\0'};
 /// DORIS instrument type; exp. “DGXX”
-char m_rec_type[20];
+char m_rec_type[20]{'\0'};
 /// The software version used on board DORIS/DIODE, exp. “1.00”
-char m_rec_version[20];
+char m_rec_version[20]{'\0'};
 /// The antenna type is “STAREC”
-char m_antenna_type[20];
+char m_antenna_type[20]{'\0'};
 /// The antenna number is “DORIS”
-char m_antenna_number[20];
+char m_antenna_number[20]{'\0'};
 /// Position of 2 GHz phase center, in the platform reference frame (Units:
 /// Meters, System: ITRS recommended)
-float m_approx_position[3];
+float m_approx_position[3]{0e0};
 /// The center of mass of the vehicle (for space borne receivers):
 /// CENTER OF MASS: XYZ, defined at the beginning of the mission.
-float m_center_mass[3];
+float m_center_mass[3]{0e0};
 /// A vector of ObservationCode contained in the RINEX file
 std::vector<ObservationCode> m_obs_codes;
 /// A vector of scale factors corresponding to m_obs_codes (aka they have
@@ -144,7 +144,7 @@ dso::datetime<dso::nanoseconds> m_time_ref_stat;
 /// date of the 2GHz phase measurement in microseconds. Positive if the 
 /// measurement of phase 400 MHz is performed after the measurement of phase 
 /// 2 GHz
-double m_l12_date_offset;
+double m_l12_date_offset{0e0};
 /// Epoch, code, and phase are corrected by applying the realtime-derived 
 /// receiver clock offset: 1=yes, 0=no; default: 0=no
 bool rcv_clock_offs_appl{false};
diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 04455f4..76d61e5 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -7,6 +7,9 @@
 /// Max header lines.
 /// constexpr int MAX_HEADER_LINES{1000};
 
+/// Max number of stations recorded in a RINEX header
+constexpr int MAX_STATIONS{999};
+
 /// Starting from position from in the given string str, find the first non-
 /// whitespace character, and return the length of str from start to this
 /// position.
@@ -17,11 +20,23 @@
 /// str="                       ", from=22, return value=0
 /// str=" a                     ", from=22, return value=2
 int count_length_reverse(const char *str, int from) noexcept {
-  while (*(str + from) == ' ' && from >= 0)
+  while (from >= 0 && *(str + from) == ' ')
     --from;
   return ++from;
 }
 
+/// Read the next header line, and fill it up with whitespace characters to the
+/// full header line length (trailing whitespaces may be missing in the file).
+/// The line buffer must be of size DorisObsRinex::MAX_HEADER_CHARS
+static std::istream &get_header_line(std::istream &fin, char *line) {
+  constexpr const int sz = dso::DorisObsRinex::MAX_HEADER_CHARS;
+  fin.getline(line, sz);
+  const int len = std::strlen(line);
+  std::memset(line + len, ' ', sz - 1 - len);
+  line[sz - 1] = '\0';
+  return fin;
+}
+
 /// The instance's stream must be open and in good state. If it is not placed
 /// at the top of the file, it will be rewinded to the top.
 ///
@@ -44,7 +59,7 @@ int dso::DorisObsRinex::read_header() noexcept {
   int tmp_sz;
 
   // first line; RINEX VERSION / TYPE (get version, type and system)
-  m_stream.getline(line, MAX_HEADER_CHARS);
+  get_header_line(m_stream, line);
   if (std::strncmp(line + 60, "RINEX VERSION / TYPE", 20))
     return 10;
   m_version = std::strtof(line, &str_end);
@@ -52,12 +67,12 @@ int dso::DorisObsRinex::read_header() noexcept {
     return 11;
 
   // second line; PGM / RUN BY / DATE
-  m_stream.getline(line, MAX_HEADER_CHARS);
+  get_header_line(m_stream, line);
   if (std::strncmp(line + 60, "PGM / RUN BY / DATE", 19))
     return 20;
 
   // read on untill EOH
-  while (m_stream && m_stream.getline(line, MAX_HEADER_CHARS)) {
+  while (m_stream && get_header_line(m_stream, line)) {
     if (!std::strncmp(line + 60, "SATELLITE NAME", 14)) {
       // SATELLITE NAME; get m_satellite_name (err. code 30)
       tmp_sz = count_length_reverse(line, 59);
@@ -151,23 +166,27 @@ int dso::DorisObsRinex::read_header() noexcept {
       if (*line != 'D')
         return 111;
       obs_types_num = std::strtol(line + 1, &end, 10);
-      if ((errno || end == line + 1) || !obs_types_num) {
+      // (there is room for 12 observation codes in the line)
+      if ((errno || end == line + 1) || obs_types_num < 1 ||
+          obs_types_num > 12) {
         errno = 0;
         return 112;
       }
-      assert(obs_types_num < 13);
       if (!m_obs_codes.empty())
         m_obs_codes.clear();
       for (int code = 0; code < obs_types_num; code++) {
         char *s = line + 6 + code * 4;
-        while (*s == ' ') // we need to skip leading whitespaces ...
+        char *field_end = s + 4;
+        while (s < field_end && *s == ' ') // skip leading whitespaces ...
           ++s;
+        if (s == field_end)
+          return 114;
         try {
           ObservationType type(char_to_observationType(*s)); // may throw!
           int freq = 0;
           if (observationType_has_frequency(type)) {
             freq = std::strtol(s + 1, &end, 10);
-            if (errno || end == s + 1) {
+            if (errno || end == s + 1 || freq < 1 || freq > 2) {
               errno = 0;
               return 113;
             }
@@ -198,11 +217,11 @@ int dso::DorisObsRinex::read_header() noexcept {
       // SYS / SCALE FACTOR; get/fill m_obs_scale_factors
       if (*line != 'D')
         return 141;
-      if (!m_obs_scale_factors.empty())
-        m_obs_scale_factors.clear();
       // create a vector of 1's with a size equal to m_obs_codes. the two
-      // vectors will have a one-to-one correspondance
-      m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
+      // vectors will have a one-to-one correspondance. The record can be
+      // repeated (for different observation codes), so keep any factors
+      // already collected
+      m_obs_scale_factors.resize(m_obs_codes.size(), 1);
       int factor = std::strtol(line + 2, &end, 10);
       if (!factor || (errno || end == line + 2)) {
         errno = 0;
@@ -210,25 +229,32 @@ int dso::DorisObsRinex::read_header() noexcept {
       }
       int num_obs;
       if (line[8] == line[9] && line[8] == ' ') { // blank means all ....
-        num_obs = m_obs_scale_factors.size();
+        std::fill(m_obs_scale_factors.begin(), m_obs_scale_factors.end(),
+                  factor);
+        num_obs = 0;
       } else {
         // scale factors can be defined for any number of ObservationCodes, in
         // the range [0, m_obs_codes.size()]
         num_obs = std::strtol(line + 8, &end, 10);
-        if ((!num_obs || num_obs > (int)m_obs_scale_factors.size()) ||
-            (errno || end == line + 8))
+        if ((num_obs < 1 || num_obs > (int)m_obs_scale_factors.size()) ||
+            (errno || end == line + 8)) {
+          errno = 0;
           return 143;
+        }
       }
       for (int code = 0; code < num_obs; code++) {
         char *s = line + 10 + code * 4;
-        while (*s == ' ') // ignore leading whitespaces ...
+        char *field_end = s + 4;
+        while (s < field_end && *s == ' ') // ignore leading whitespaces ...
           ++s;
+        if (s == field_end)
+          return 146;
         try {
           ObservationType type(char_to_observationType(*s));
           int freq = 0;
           if (observationType_has_frequency(type)) {
             freq = std::strtol(s + 1, &end, 10);
-            if (!freq || (errno || end == s + 1)) {
+            if ((freq < 1 || freq > 2) || (errno || end == s + 1)) {
               errno = 0;
               return 144;
             }
@@ -262,8 +288,11 @@ int dso::DorisObsRinex::read_header() noexcept {
       errno = 0;
       // # OF STATIONS; reserve size for m_stations (err. code 160)
       num_stations = std::strtol(line, &end, 10);
-      if (!num_stations || (errno || end == line))
+      if ((num_stations < 1 || num_stations > MAX_STATIONS) ||
+          (errno || end == line)) {
+        errno = 0;
         return 161;
+      }
       //printf(">> Num stations: %d, capacity: %d\n", num_stations,
       //       (int)m_stations.capacity());
       if ((int)m_stations.capacity() < num_stations)
@@ -282,7 +311,8 @@ int dso::DorisObsRinex::read_header() noexcept {
       errno = 0;
       // # TIME REF STATIONS; reserve size for m_ref_stations (err. code 180)
       num_ref_stations = std::strtol(line, &end, 10);
-      if (!num_ref_stations || (errno || end == line)) {
+      if ((num_ref_stations < 1 || num_ref_stations > MAX_STATIONS) ||
+          (errno || end == line)) {
         errno = 0;
         return 181;
       }
@@ -327,7 +357,7 @@ int dso::DorisObsRinex::read_header() noexcept {
 
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              19)) { // Code: 210
-
+      errno = 0;
       int rcv_clock_offs_appl_int = -99;
       rcv_clock_offs_appl_int = std::strtol(line, &end, 10);
       if ((errno || end == line) ||
@@ -352,6 +382,10 @@ int dso::DorisObsRinex::read_header() noexcept {
   if (!m_stream.good() || !m_end_of_head)
     return -2;
 
+  // scale factors are optional; if missing, all are 1
+  if (m_obs_scale_factors.empty())
+    m_obs_scale_factors.resize(m_obs_codes.size(), 1);
+
   // final checks on collected info
   if (m_obs_codes.size() != m_obs_scale_factors.size() ||
       obs_types_num != static_cast<int>(m_obs_codes.size()))
-- 
2.43.0


From bf4200c56cc116887a7c6869d2a4bbf6ff7a69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 25/57] fix: DORIS RINEX data: trimmed and missing lines took
 values from earlier lines, missing values were scaled, offsets truncated,
 Doppler beacons mixed up

---
 src/doris/extract_doppler_count.cpp  |  6 +-
 src/doris_rinex.hpp                  | 10 +--
 src/rinex/doris_rinex.cpp            | 91 ++++++++++++++++++----------
 src/rinex/rnx_datablock_iterator.cpp |  3 +-
 4 files changed, 69 insertions(+), 41 deletions(-)

diff --git a/src/doris/extract_doppler_count.cpp b/src/doris/extract_doppler_count.cpp
index 598f730..e2b57e4 100644
--- a/src/doris/extract_doppler_count.cpp
+++ b/src/doris/extract_doppler_count.cpp
@@ -21,7 +21,7 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
 
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     if (it != data.end()) {
       double dl1 = newobs.m_values[0].m_value - it->obs.m_values[0].m_value;
@@ -30,7 +30,7 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
       double dsec = static_cast<double>(tdsec.as_underlying_type()) /
                     dso::nanoseconds::sec_factor<double>();
 
-      printf("%s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
+      printf("%.3s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
     }
   }
 
@@ -47,7 +47,7 @@ int update(const std::vector<dso::BeaconObservations> &obsvec,
     newid = newobs.m_beacon_id;
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     // if not, append
     if (it == data.end()) {
diff --git a/src/doris_rinex.hpp b/src/doris_rinex.hpp
index 8066806..8f36b98 100644
--- a/src/doris_rinex.hpp
+++ b/src/doris_rinex.hpp
@@ -46,8 +46,8 @@ struct RinexDataRecordHeader {
       m_clock_flag;
   /// @brief Apply the recorded (in RINEX) clock offset to time m_epoch
   void apply_clock_offset() noexcept {
-    dso::nanoseconds off_nsec {static_cast<dso::nanoseconds::underlying_type>( 
-      m_clock_offset * dso::nanoseconds::sec_factor<double>())};
+    dso::nanoseconds off_nsec{
+        std::lround(m_clock_offset * dso::nanoseconds::sec_factor<double>())};
     m_epoch.add_seconds(off_nsec);
   }
 }; // RinexDataRecordHeader
@@ -308,7 +308,8 @@ public:
     // transform it to nanoseconds (integer)
     const double offset_nanoseconds = m_l12_date_offset * 1e3;
     return dso::nanoseconds(
-        static_cast<dso::nanoseconds::underlying_type>(offset_nanoseconds));
+        static_cast<dso::nanoseconds::underlying_type>(
+            std::round(offset_nanoseconds)));
   }
 
 #ifdef DEBUG
@@ -396,8 +397,7 @@ struct RinexDataBlockIterator {
           static_cast<double>(cheader.m_clock_offset !=
                               RECEIVER_CLOCK_OFFSET_MISSING) *
           cheader.m_clock_offset;
-      dso::nanoseconds noff(
-          static_cast<dso::nanoseconds::underlying_type>(clock_offset * 1e9));
+      dso::nanoseconds noff(std::lround(clock_offset * 1e9));
       t.add_seconds(noff);
     }
     return t;
diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index ffcd2e2..88a5736 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -2,11 +2,31 @@
 #include "datetime/datetime_read.hpp"
 #include <algorithm>
 #include <cctype>
+#include <cerrno>
+#include <cstring>
 #include <stdexcept>
 #ifdef DEBUG
+#include <iostream>
 #include "datetime/datetime_write.hpp"
 #endif
 
+namespace {
+/// Fill a (null-terminated) record line up with whitespace characters to the
+/// given size; trailing whitespaces may be missing in the file.
+void pad_line(char *line, int size) noexcept {
+  const int len = std::strlen(line);
+  std::memset(line + len, ' ', size - 1 - len);
+  line[size - 1] = '\0';
+}
+
+/// Check that there are only whitespace characters left in the string
+bool only_whitespace(const char *str) noexcept {
+  while (std::isspace(static_cast<unsigned char>(*str)))
+    ++str;
+  return *str == '\0';
+}
+} // namespace
+
 /// The constructor will try to:
 /// 1. open the input file
 /// 2. parse the header
@@ -153,12 +173,17 @@ int dso::DorisObsRinex::read_data_block(
     while (curobs < (int)m_obs_codes.size()) {
       // should we change/get the next line ?
       if (!(curobs % 5)) {
-        m_stream.getline(line, MAX_RECORD_CHARS);
+        if (!m_stream.getline(line, MAX_RECORD_CHARS))
+          return 3;
+        pad_line(line, MAX_RECORD_CHARS);
         // if this is the first data line for the beacon, get its code
         if (!curline) {
           if ((*line) != 'D')
             return 1;
           std::memcpy(obsvec_it->m_beacon_id, line, 3);
+        } else if (*line == 'D' || *line == '>') {
+          // the start of another record, where a continuation should be
+          return 1;
         }
         ++curline;
       }
@@ -166,22 +191,15 @@ int dso::DorisObsRinex::read_data_block(
       std::memcpy(buf, line + 3 + (curobs % 5) * 16, 14);
       // check if value is ommited (an ommited value is either left blank, or
       // is recorded as 0.0)
-      bool buf_is_empty = true;
-      end = buf;
-      while (*end) {
-        if (!isspace(*end++)) {
-          buf_is_empty = false;
-          break;
-        }
-      }
+      const bool buf_is_empty = only_whitespace(buf);
       char flagm1 = line[3 + (curobs % 5) * 16 + 14];
       char flagm2 = line[3 + (curobs % 5) * 16 + 15];
+      end = buf + 14;
       val = (buf_is_empty) ? OBSERVATION_VALUE_MISSING : std::strtod(buf, &end);
-      if (val == 0e0 || end == buf) {
+      if (end == buf || !only_whitespace(end))
+        return 2;
+      if (val == 0e0)
         val = OBSERVATION_VALUE_MISSING;
-        if (end == buf)
-          return 2;
-      }
       // push value to the current BeaconObservations instance (in-place)
       // WAIT! check if we have a scale factor for the observable (note that
       // the m_obs_scale_factors are in one-to-one correspondance with the
@@ -189,7 +207,8 @@ int dso::DorisObsRinex::read_data_block(
       // index of the observable. If no scale factor for the observable exists,
       // then the m_obs_scale_factors should have an '1' in the corresponding
       // index
-      val /= m_obs_scale_factors[curobs];
+      if (val != OBSERVATION_VALUE_MISSING)
+        val /= m_obs_scale_factors[curobs];
       obsvec_it->m_values.emplace_back(val, flagm1, flagm2);
       ++curobs;
     }
@@ -241,6 +260,13 @@ int dso::DorisObsRinex::resolve_data_epoch(
   if (*line != '>')
     return 1; // must start with '>' character
 
+  // trailing whitespaces may be missing from the line
+  char record[MAX_RECORD_CHARS];
+  std::strncpy(record, line, MAX_RECORD_CHARS - 1);
+  record[MAX_RECORD_CHARS - 1] = '\0';
+  pad_line(record, MAX_RECORD_CHARS);
+  line = record;
+
   char *end;
   int status = 0;
 
@@ -258,12 +284,12 @@ int dso::DorisObsRinex::resolve_data_epoch(
   // are joined in one big int (if number of stations is >=100). Hence, just to
   // be safe, we are moving the fields in a temporary buffer and parse from
   // there
-  char tbuf[4];
+  char tbuf[14];
   std::memset(tbuf, '\0', sizeof tbuf);
   std::memcpy(tbuf, line + 31, 3);
   // hdr.m_flag = static_cast<int_fast8_t>(std::strtol(line + 31, &end, 10));
   hdr.m_flag = static_cast<int_fast8_t>(std::strtol(tbuf, &end, 10));
-  if (end == tbuf || errno) {
+  if (end == tbuf || errno || !only_whitespace(end)) {
     errno = 0;
     status = status ? status : 3;
   }
@@ -272,21 +298,18 @@ int dso::DorisObsRinex::resolve_data_epoch(
   // hdr.m_num_stations =
   //     static_cast<int_fast16_t>(std::strtol(line + 34, &end, 10));
   hdr.m_num_stations = static_cast<int_fast16_t>(std::strtol(tbuf, &end, 10));
-  if (end == tbuf || errno) {
+  if (end == tbuf || errno || !only_whitespace(end) ||
+      hdr.m_num_stations < 0) {
     errno = 0;
     status = status ? status : 4;
   }
 
-  bool has_clock_offset = false;
-  for (int i = 0; i < 13; i++) {
-    if (*(line + 43 + i) != ' ') {
-      has_clock_offset = true;
-      break;
-    }
-  }
-  if (has_clock_offset) {
-    hdr.m_clock_offset = std::strtod(line + 43, &end);
-    if (errno || end == line + 43) {
+  // the clock offset is optional
+  std::memcpy(tbuf, line + 43, 13);
+  tbuf[13] = '\0';
+  if (!only_whitespace(tbuf)) {
+    hdr.m_clock_offset = std::strtod(tbuf, &end);
+    if (errno || end == tbuf || !only_whitespace(end)) {
       errno = 0;
       status = status ? status : 5;
     }
@@ -294,10 +317,16 @@ int dso::DorisObsRinex::resolve_data_epoch(
     hdr.m_clock_offset = RECEIVER_CLOCK_OFFSET_MISSING;
   }
 
-  hdr.m_clock_flag = static_cast<int_fast8_t>(std::strtol(line + 56, &end, 10));
-  if (errno || end == line + 56) {
-    errno = 0;
-    status = status ? status : 6;
+  // and so is its flag
+  std::memset(tbuf, '\0', sizeof tbuf);
+  std::memcpy(tbuf, line + 56, 3);
+  hdr.m_clock_flag = 0;
+  if (!only_whitespace(tbuf)) {
+    hdr.m_clock_flag = static_cast<int_fast8_t>(std::strtol(tbuf, &end, 10));
+    if (errno || end == tbuf || !only_whitespace(end)) {
+      errno = 0;
+      status = status ? status : 6;
+    }
   }
 
   return status;
diff --git a/src/rinex/rnx_datablock_iterator.cpp b/src/rinex/rnx_datablock_iterator.cpp
index 7ad1511..a64df92 100644
--- a/src/rinex/rnx_datablock_iterator.cpp
+++ b/src/rinex/rnx_datablock_iterator.cpp
@@ -37,8 +37,7 @@ dso::datetime<dso::nanoseconds> dso::RinexDataBlockIterator::corrected_l1_epoch(
   dso::datetime<dso::nanoseconds> t = cheader.m_epoch;
   if (!rnx->receiver_clock_offsets_applied()) [[likely]] {
     // clock offset in nanoseconds (from seconds)
-    dso::nanoseconds noff(static_cast<dso::nanoseconds::underlying_type>(
-        cheader.m_clock_offset * 1e9));
+    dso::nanoseconds noff(std::lround(cheader.m_clock_offset * 1e9));
     t.add_seconds(noff);
   }
 
-- 
2.43.0


From 469354b089e2c8ebe2b9518c80ae1a03ac09ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 26/57] fix: a missing receiver clock offset was applied as a
 value by corrected_l1_epoch(tl2) and apply_clock_offset

---
 src/doris_rinex.hpp                  | 3 +++
 src/rinex/rnx_datablock_iterator.cpp | 7 +------
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/doris_rinex.hpp b/src/doris_rinex.hpp
index 8f36b98..e78d590 100644
--- a/src/doris_rinex.hpp
+++ b/src/doris_rinex.hpp
@@ -46,6 +46,9 @@ struct RinexDataRecordHeader {
       m_clock_flag;
   /// @brief Apply the recorded (in RINEX) clock offset to time m_epoch
   void apply_clock_offset() noexcept {
+    // nothing to apply if no offset is recorded
+    if (m_clock_offset == RECEIVER_CLOCK_OFFSET_MISSING)
+      return;
     dso::nanoseconds off_nsec{
         std::lround(m_clock_offset * dso::nanoseconds::sec_factor<double>())};
     m_epoch.add_seconds(off_nsec);
diff --git a/src/rinex/rnx_datablock_iterator.cpp b/src/rinex/rnx_datablock_iterator.cpp
index a64df92..f060702 100644
--- a/src/rinex/rnx_datablock_iterator.cpp
+++ b/src/rinex/rnx_datablock_iterator.cpp
@@ -34,12 +34,7 @@ int dso::RinexDataBlockIterator::next() noexcept {
 
 dso::datetime<dso::nanoseconds> dso::RinexDataBlockIterator::corrected_l1_epoch(
     dso::datetime<dso::nanoseconds> &tl2) const noexcept {
-  dso::datetime<dso::nanoseconds> t = cheader.m_epoch;
-  if (!rnx->receiver_clock_offsets_applied()) [[likely]] {
-    // clock offset in nanoseconds (from seconds)
-    dso::nanoseconds noff(std::lround(cheader.m_clock_offset * 1e9));
-    t.add_seconds(noff);
-  }
+  const dso::datetime<dso::nanoseconds> t = corrected_l1_epoch();
 
   // get the L1/L2 offset in nanoseconds
   const auto l12_offset = rnx->l21_date_offset();
-- 
2.43.0


From 09a65bd9113aee0b3b1902b6c4aaf139bdae2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 27/57] fix: PolynomialModel: assignment did not compile, moves
 freed the coefficients twice, order 0 leaked

---
 src/filters/models.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/filters/models.hpp b/src/filters/models.hpp
index d271e8b..dc89ebf 100644
--- a/src/filters/models.hpp
+++ b/src/filters/models.hpp
@@ -41,7 +41,7 @@ namespace dso {
     PolynomialModel(int porder) noexcept
         : _order(porder), cf(new double[porder + 1]){};
     
-    ~PolynomialModel() noexcept { if (_order) delete[] cf;}
+    ~PolynomialModel() noexcept { delete[] cf;}
     
     PolynomialModel(const PolynomialModel &p) noexcept
         : _order(p._order), xref(p.xref), cf(new double[p._order + 1]) {
@@ -49,21 +49,29 @@ namespace dso {
     }
     
     PolynomialModel &operator=(const PolynomialModel &p) noexcept {
-      if (*this != p) {
+      if (this != &p) {
         this->resize(p._order);
         std::memcpy(cf, p.cf, sizeof(double)*(_order+1));
-        xref = p.xref();
+        xref = p.xref;
       }
       return *this;
     }
 
     PolynomialModel(PolynomialModel &&p) noexcept
-        : _order(p._order), xref(p.xref), cf(p.cf) {};
+        : _order(p._order), xref(p.xref), cf(p.cf) {
+      p.cf = nullptr;
+      p._order = -1;
+    };
     
     PolynomialModel &operator=(PolynomialModel &&p) noexcept {
-      _order = p._order;
-      xref = p.xref;
-      cf = p.cf;
+      if (this != &p) {
+        delete[] cf;
+        _order = p._order;
+        xref = p.xref;
+        cf = p.cf;
+        p.cf = nullptr;
+        p._order = -1;
+      }
       return *this;
     }
 
-- 
2.43.0


From 8088bfb6378b346e60380b8765f5e667547ff35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 28/57] fix: frequency offset fits: last group read out of
 bounds and in days, short files, missing values and unreadable files crashed

---
 src/doris/fit_rfo.cpp |  49 +++++++++++-------
 src/rinex/fit_rfo.cpp | 114 +++++++++++++++++++++++++-----------------
 2 files changed, 99 insertions(+), 64 deletions(-)

diff --git a/src/doris/fit_rfo.cpp b/src/doris/fit_rfo.cpp
index 58be2b4..578c83c 100644
--- a/src/doris/fit_rfo.cpp
+++ b/src/doris/fit_rfo.cpp
@@ -85,7 +85,7 @@ struct LinearKalman {
 };
 
 int get_starting_rfo(const char *rnx_fn, double &rfo,
-                     dso::datetime<dso::nanoseconds> &reft) noexcept {
+                     dso::datetime<dso::nanoseconds> &reft) {
   using namespace dso;
 
   DorisObsRinex rnx(rnx_fn); // may throw ....
@@ -108,23 +108,33 @@ int get_starting_rfo(const char *rnx_fn, double &rfo,
   }
   int findex = std::distance(obs_list.begin(), fit);
 
-  rnx.stream().getline(line, DorisObsRinex::MAX_RECORD_CHARS);
-  // resolve the data-block header
-  if (int status = rnx.resolve_data_epoch(line, hdr); status) {
-    fprintf(stderr,
-            "[ERROR] Failed to resolve data block header! error=%d "
-            "(traceback: %s)\n",
-            status, __func__);
-    return 1;
-  }
+  // find the first block that has observations, with an F value
+  do {
+    if (!rnx.stream().getline(line, DorisObsRinex::MAX_RECORD_CHARS)) {
+      fprintf(stderr,
+              "[ERROR] Failed to find an F value in RINEX %s (traceback: %s)\n",
+              rnx_fn, __func__);
+      return 1;
+    }
 
-  // get the measurements
-  if (int status = rnx.read_data_block(hdr, obsvec); status) {
-    fprintf(stderr,
-            "[ERROR] Failed to resolve data block! error=%d (traceback: %s)\n",
-            status, __func__);
-    return 1;
-  }
+    // resolve the data-block header
+    if (int status = rnx.resolve_data_epoch(line, hdr); status) {
+      fprintf(stderr,
+              "[ERROR] Failed to resolve data block header! error=%d "
+              "(traceback: %s)\n",
+              status, __func__);
+      return 1;
+    }
+
+    // get the measurements
+    if (int status = rnx.read_data_block(hdr, obsvec); status) {
+      fprintf(stderr,
+              "[ERROR] Failed to resolve data block! error=%d (traceback: %s)\n",
+              status, __func__);
+      return 1;
+    }
+  } while (obsvec.empty() ||
+           obsvec[0].m_values[findex].m_value == OBSERVATION_VALUE_MISSING);
 
   // for a single block, all F measurements/values should be the same!
   rfo = obsvec[0].m_values[findex].m_value;
@@ -184,6 +194,11 @@ int get_rinex_rfo(const char *rnx_fn, long &rfo_collected,
       return 1;
     }
 
+    // no F value in this block, nothing to do
+    if (obsvec.empty() ||
+        obsvec[0].m_values[findex].m_value == OBSERVATION_VALUE_MISSING)
+      continue;
+
     // for a single block, all F measurements/values should be the same!
     rfo = obsvec[0].m_values[findex].m_value;
     for (const auto &bobs : obsvec) {
diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 7879a49..0cc7bd6 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -2,6 +2,7 @@
 //#include "datetime/dtcalendar.hpp"
 #include <algorithm>
 #include <numeric>
+#include <stdexcept>
 
 typedef dso::datetime<dso::nanoseconds> Datetime;
 
@@ -17,7 +18,7 @@ int parse_rinex_rfos(const char *fnrnx,
     Eigen::MatrixXd &A,
     unsigned &idx,
     const Datetime &start,
-    const Datetime &end) noexcept {
+    const Datetime &end) {
 
   // polynomial order
   const int poly_order = fit.order();
@@ -32,6 +33,41 @@ int parse_rinex_rfos(const char *fnrnx,
   // index of the F measurement (relative frequency offset)
   const int f_idx = rnx.get_observation_code_index(
       dso::ObservationCode{dso::ObservationType::frequency_offset});
+  if (f_idx < 0) {
+    fprintf(stderr,
+            "[ERROR] No \'F\' values recorded in RINEX %s (traceback: %s)\n",
+            fnrnx, __func__);
+    return 1;
+  }
+
+  // add a data point, i.e. the mean of the first num_vals values in buffer,
+  // referred to the midpoint in time between tfrom and tto
+  const auto add_point = [&](const std::vector<double> &vals, int num_vals,
+                             const Datetime &tfrom, const Datetime &tto) {
+    // make sure there is room for one more row
+    if (idx >= b.rows()) {
+      b.conservativeResize(2 * idx + 1);
+      A.conservativeResize(2 * idx + 1, Eigen::NoChange);
+    }
+    b(idx) =
+        std::reduce(vals.begin(), vals.begin() + num_vals, 0e0) / num_vals;
+
+    // midpoint in time
+    const auto dsec = tto.delta_sec(tfrom);
+    const dso::nanoseconds half =
+        dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
+    Datetime t = tfrom;
+    t.add_seconds(half);
+
+    // difference in time (aka from tref)
+    A(idx, 0) = 1e0;
+    const double dt = fit.deltax(t, tref);
+    A(idx, 1) = dt;
+    for (int i = 1; i < poly_order; i++)
+      A(idx, i + 1) = A(idx, i) * dt;
+    // increase matrix index
+    ++idx;
+  };
 
   // get an iterator to the RINEXs data blocks
   dso::RinexDataBlockIterator it(&rnx);
@@ -53,37 +89,26 @@ int parse_rinex_rfos(const char *fnrnx,
       const auto tproper = it.proper_time();
 
       // get the first observation set; note that all observations in block
-      // should have the same F value
+      // should have the same F value. Nothing to collect if there is none
       auto beaconobs = it.cblock.begin();
+      if (beaconobs == it.cblock.end() ||
+          beaconobs->m_values[f_idx].m_value == dso::OBSERVATION_VALUE_MISSING)
+        continue;
 
       // temporarily store value at buffer
       fs[cval % every] = beaconobs->m_values[f_idx].m_value;
 
       // store current date
       tend = (use_tai) ? tl1 : tproper;
-      
+
+      // first value of a new data point
+      if (!(cval % every))
+        t0 = tend;
+
       // check if we reached every values
       if (!((cval + 1) % every)) {
         // we did, compute data points and add to matrices
-        b(idx) = std::reduce(fs.begin(), fs.end(), 0e0) / every;
-
-        // midpoint in time, between t0 and tend
-        const auto dsec = tend.delta_sec(t0);
-        const dso::nanoseconds half =
-            dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
-        dso::datetime<dso::nanoseconds> t = t0;
-        t.add_seconds(half);
-
-        // difference in time (aka from tref)
-        A(idx, 0) = 1e0;
-        const double dt = fit.deltax(t,tref);// t.delta_date(tref).as_mjd();
-        A(idx, 1) = dt;
-        for (int i = 1; i < poly_order; i++)
-          A(idx, i+1) = A(idx, i) * dt;
-        // increase matrix index
-        ++idx;
-      } else if (!(cval % every)) {
-        t0 = tend;
+        add_point(fs, every, t0, tend);
       }
 
       ++cval;
@@ -102,28 +127,9 @@ int parse_rinex_rfos(const char *fnrnx,
     return 1;
   }
 
-  --cval;
   // add any reamaining data in the buffer
-  if ((cval % every) != every - 1) {
-    const int j = cval % every;
-    b(idx) = std::reduce(fs.begin(), fs.end()+j, 0e0) / j;
-    
-    const auto dsec = tend.delta_sec(t0);
-    const dso::nanoseconds half =
-        dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
-    dso::datetime<dso::nanoseconds> t = t0;
-    t.add_seconds(half);
-    
-    // difference in time (aka from tref)
-    A(idx,0) = 1e0;
-    const double dt = t.delta_date(tref).as_mjd();
-    A(idx,1) = dt;
-    for (int i = 1; i < poly_order; i++)
-      A(idx, i + 1) = A(idx, i) * dt;
-
-    // increase matrix index
-    ++idx;
-  }
+  if (const int j = cval % every; j)
+    add_point(fs, j, t0, tend);
 
   return 0;
 }
@@ -157,7 +163,8 @@ int dso::fit_relative_frequency_offset(
 
   // So, this is our educated guess about the number of points we will be 
   // using, for the whole time-span
-  long num_pts = NDay * num_days + 10 /* just to be sure ... */;
+  long num_pts =
+      NDay * std::max(num_days, 0e0f) + 10 /* just to be sure ... */;
 
   // how many columns in design matrix ?
   const int M = fit.order() + 1;
@@ -171,8 +178,14 @@ int dso::fit_relative_frequency_offset(
   unsigned index = 0;
   dso::datetime<dso::nanoseconds> tref = dso::datetime<dso::nanoseconds>::min();
   for (const auto sptr : fns) {
-    if (parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
-                         start, end)) {
+    int error = 1;
+    try {
+      error = parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
+                               start, end);
+    } catch (std::runtime_error &) {
+      ; // failed to open or read the header of the RINEX
+    }
+    if (error) {
       fprintf(stderr,
               "[ERROR] Failed fitting Receiver Frequency Offset values! failed "
               "at RINEX file %s (traceback: %s)\n",
@@ -183,13 +196,20 @@ int dso::fit_relative_frequency_offset(
 
   // OK! all RINEX files parsed. We now need to resize the matrices, given
   // their true sizes
+  if (index < (unsigned)M) {
+    fprintf(stderr,
+            "[ERROR] Too few data to fit Receiver Frequency Offset values "
+            "(traceback: %s)\n",
+            __func__);
+    return 2;
+  }
   b.conservativeResize(index, Eigen::NoChange);
   A.conservativeResize(index, Eigen::NoChange);
 
   printf("Solving LS with b=%ldx%ld and A=%ldx%ld\n", b.rows(), b.cols(), A.rows(), A.cols());
 
   // Solve the LS problem
-  const auto y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
+  const Eigen::VectorXd y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
 
   // assign to the (returned) model
   fit.xref = tref;
-- 
2.43.0


From e58f490763cc3322102ea150763353b43daa5451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 29/57] fix: antenna phase laws: Alcatel did not report angles
 out of bounds, 90 degrees read past the table; iono-free phase center used
 dead temporaries

---
 src/antenna_pcv.hpp       | 16 +++++++++++-----
 src/doris_system_info.hpp |  9 ++++++---
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/antenna_pcv.hpp b/src/antenna_pcv.hpp
index d3e2c0a..8e8bf30 100644
--- a/src/antenna_pcv.hpp
+++ b/src/antenna_pcv.hpp
@@ -1,9 +1,12 @@
 #ifndef __DORIS_ANTENNA_PCV_HPP__
 #define __DORIS_ANTENNA_PCV_HPP__
 
-#include "doris_system_info.hpp"
 #include "geodesy/units.hpp"
 #include "eigen3/Eigen/Eigen"
+#include <algorithm>
+#include <cassert>
+#include <cmath>
+#include <cstdint>
 
 namespace dso {
 
@@ -49,10 +52,11 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
     const double angle = dso::rad2deg<double>(zenith);
     out_of_bounds = 0;
     if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
-      return 0e0;
       out_of_bounds = 1;
+      return 0e0;
     }
-    int index = std::floor(angle / 5e0);
+    // at 90[deg], use the last interval
+    int index = std::min(17, static_cast<int>(std::floor(angle / 5e0)));
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -105,7 +109,8 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 1> {
       out_of_bounds = 1;
       return 0e0;
     }
-    int index = std::floor(angle / 5e0);
+    // at 90[deg], use the last interval
+    int index = std::min(17, static_cast<int>(std::floor(angle / 5e0)));
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -157,7 +162,8 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {
       out_of_bounds = 1;
       return 0e0;
     }
-    int index = std::floor(angle / 5e0);
+    // at 90[deg], use the last interval
+    int index = std::min(17, static_cast<int>(std::floor(angle / 5e0)));
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
diff --git a/src/doris_system_info.hpp b/src/doris_system_info.hpp
index 7f0dbec..e16ea03 100644
--- a/src/doris_system_info.hpp
+++ b/src/doris_system_info.hpp
@@ -159,16 +159,19 @@ struct BeaconStation {
   ///        Iono-Free PC = Antenna RP + iono_free_phase_center()
   /// @see Lemoine etal, 2016, "Precise orbit determination and station
   ///        position estimation using DORIS RINEX data", section 2.5.7
-  Eigen::Matrix<double, 3, 1> iono_free_phase_center() const noexcept {
+  /// @throw std::runtime_error if the antenna type is not known
+  Eigen::Matrix<double, 3, 1> iono_free_phase_center() const {
     // the 2GHz Phase center in [mm]
-    const auto r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_2Ghz =
+                        AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
                             (type() == GroundAntennaType::Alcatel) +
                         AntennaOffset<GroundAntennaType::Starec_B, 1>::pco() *
                             (type() == GroundAntennaType::Starec_B ||
                              type() == GroundAntennaType::Starec_C);
 
     // the 400MHz Phase center in [mm]
-    const auto r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_400MHz =
+                          AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
                               (type() == GroundAntennaType::Alcatel) +
                           AntennaOffset<GroundAntennaType::Starec_B, 2>::pco() *
                               (type() == GroundAntennaType::Starec_B ||
-- 
2.43.0


From 8dbefbf9649488c95edea622e9c8087771a61d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 30/57] fix: relativistic clock correction evaluated the J2
 potential at the geodetic latitude

---
 src/relativity/relativistic_clock_correction.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/relativity/relativistic_clock_correction.cpp b/src/relativity/relativistic_clock_correction.cpp
index 550d4e7..11839a0 100644
--- a/src/relativity/relativistic_clock_correction.cpp
+++ b/src/relativity/relativistic_clock_correction.cpp
@@ -1,5 +1,4 @@
 #include "doris_observation_equations.hpp"
-#include "geodesy/geodesy.hpp"
 #include "iers2010/iersc.hpp"
 
 /// @brief Compute the relativistic clock correction for a given point 
@@ -45,19 +44,18 @@ double
 dso::relativistic_clock_correction(const Eigen::Matrix<double, 3, 1> &recef,
                                    const Eigen::Matrix<double, 3, 1> &vecef,
                                    double GM, double J2, double Re) noexcept {
-  // compute ellipsoidal height
-  const auto lfh = dso::car2ell<dso::ellipsoid::grs80>(recef);
-
-  const double latitude = lfh[1]; // [rad]
-
   // norm of position vector
   const double R = recef.norm();
 
+  // sine of the geocentric latitude (this is the one the zonal terms are a
+  // function of)
+  const double sin_lat = recef(2) / R;
+
   // potential, including J2 zonal term (Lemoine et al, Eq. 15)
   const double U =
       (GM / R) *
       (1e0 - (Re / R) * (Re / R) * J2 *
-                 (3e0 * std::sin(latitude) * std::sin(latitude) - 1e0) / 2e0);
+                 (3e0 * sin_lat * sin_lat - 1e0) / 2e0);
 
   // velocity squared
   const double V2 = vecef.squaredNorm();
-- 
2.43.0


From fd9a801af3a6a5ada7f2c7d1a3248cface4e9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 31/57] fix: satellite mass and CoG corrections lost the first
 character of each value and misjudged epochs, read past short lines

---
 src/satellites/satellite_corrections.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/satellites/satellite_corrections.cpp b/src/satellites/satellite_corrections.cpp
index e602c04..7e0bd1a 100644
--- a/src/satellites/satellite_corrections.cpp
+++ b/src/satellites/satellite_corrections.cpp
@@ -1,6 +1,7 @@
 #include "satellites.hpp"
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 
 int dso::get_satellite_corrections(const char *j3mass,
@@ -23,39 +24,39 @@ int dso::get_satellite_corrections(const char *j3mass,
 
   char line[256];
   int error = 0;
-  while (fin.getline(line, 256) && !error) {
+  while (!error && fin.getline(line, 256)) {
     // check for comment lines ...
     if (line[0] != 'C' && line[0] != '/') {
       const char *c = line;
-      char *last = line + 255;
+      const char *last = line + std::strlen(line);
 
       // remove whitespace chars
-      while (*c++ == ' '); 
+      while (*c == ' ') ++c;
 
       // first resolve datetime from Julian date
       double cjd, csec;
       auto pec = std::from_chars(c, last, cjd);
       c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
+      if (*c != ' ' || pec.ec != std::errc{}) {
         ++error;
       }
-      while (*c++ == ' ');
+      while (*c == ' ') ++c;
       pec = std::from_chars(c, last, csec);
       c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
+      if (*c != ' ' || pec.ec != std::errc{}) {
         ++error;
       }
 
       // reached a date later than the requested, end here
-      if (error || (cjd >= jd && csec >= sec))
+      if (error || (cjd > jd || (cjd == jd && csec >= sec)))
         break;
 
       // prior date, update corrections
       for (int i = 0; i < 4; i++) {
-        while (*c++ == ' ');
+        while (*c == ' ') ++c;
         pec = std::from_chars(c, last, dmdxyz[i]);
-        c = pec.ptr + 1;
-        if (/**c++ != ' ' || */pec.ec != std::errc{}) {
+        c = pec.ptr;
+        if (pec.ec != std::errc{}) {
           ++error;
         }
       }
-- 
2.43.0


From bff5674d18f75cdf76bd2bf054aab8761ed66bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 32/57] fix: Jason-3 quaternions: buffer filled with two of
 five records, earlier epochs and failed reads not reported

---
 src/satellites/jason3_quaternions.cpp | 59 ++++++++++++++++-----------
 src/satellites/jason3_quaternions.hpp |  2 +
 2 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/satellites/jason3_quaternions.cpp b/src/satellites/jason3_quaternions.cpp
index a4565c9..c45ea00 100644
--- a/src/satellites/jason3_quaternions.cpp
+++ b/src/satellites/jason3_quaternions.cpp
@@ -2,6 +2,7 @@
 #include "jason3_quaternions.hpp"
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <datetime/dtfund.hpp>
 #include <exception>
 #include <fstream>
@@ -25,33 +26,42 @@ int resolve_jason3_body_quaternion_line(
     return 1;
   }
 
-  const char *last = line + 255;
+  const char *last = line + std::strlen(line);
   int error = 0;
   double qdata[4]; // temporary quaternion buffer
 
+  // the columns skipped below must all be there
+  auto skip = [last](const char *from, int n) {
+    return (last - from > n) ? from + n : last;
+  };
+
   // skip field UI1 and tab character
-  const char *c = line+23+1;
+  const char *c = skip(line, 23+1);
 
   // UI1 -- 10 chars, unused value
-  c += 10 + 1;
+  c = skip(c, 10 + 1);
 
   // parse scalar part of quaternion
   auto pec = std::from_chars(c, last, qdata[0]);
   c = pec.ptr;
-  if (*c++ != '\t' || pec.ec != std::errc{}) {
+  if (*c != '\t' || pec.ec != std::errc{}) {
     ++error;
+  } else {
+    ++c;
   }
 
   // parse vector part of quaternion
-  for (int i = 0; i < 3; i++ && !error) {
+  for (int i = 0; i < 3 && !error; i++) {
     // UI2 -- 4 chars, unused value
-    c += 4 + 1;
+    c = skip(c, 4 + 1);
     // UI3 -- 10 chars, unused value
-    c += 10 + 1;
+    c = skip(c, 10 + 1);
     pec = std::from_chars(c, last, qdata[i + 1]);
     c = pec.ptr;
-    if (*c++ != '\t' || pec.ec != std::errc{}) {
+    if (*c != '\t' || pec.ec != std::errc{}) {
       ++error;
+    } else {
+      ++c;
     }
   }
 
@@ -80,8 +90,8 @@ int resolve_jason3_body_quaternion_line(
 
 dso::JasonQuaternionHunter::JasonQuaternionHunter(const char *body_fn)
     : bodyin(body_fn) {
-  // read-in the first two quaternions
-  if (bodyin.get_next(bodyq, 2)) {
+  // fill the buffer with the first quaternions
+  if (bodyin.get_next(bodyq, NumQuaternionsInBuffer)) {
     throw std::runtime_error(
         "ERROR JasonQuaternionHunter failed to caonstruct\n");
   }
@@ -116,7 +126,7 @@ int dso::JasonBodyQuaternionFile::get_next(dso::JasonBodyQuaternion *records,
       fin.getline(line, LINE_SZ);
     
     if (resolve_jason3_body_quaternion_line(line, records[i]))
-      return i*10;
+      return i*10 + 1;
   }
 
   return 0;
@@ -126,11 +136,21 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
   // first, check if we are ok, i.e. the time requested is within the buffered
   // interval
   index = this->find_interval(tai_mjd);
-  assert(index >= 0);
-  if (index < NumQuaternionsInBuffer) {
+  if (index >= 0 && index < NumQuaternionsInBuffer) {
     return 0;
   }
 
+  // we only go forward in the file; epochs already passed are gone
+  if (index < 0) {
+    fprintf(stderr,
+            "ERROR Requested quaternion for an epoch prior to current "
+            "interval, t=%.15f\n",
+            tai_mjd);
+    fprintf(stderr, "      Current interval spans: %.15f to %.15f\n",
+            bodyq[0].tai_mjd, bodyq[NumQuaternionsInBuffer - 1].tai_mjd);
+    return 1;
+  }
+
   // get next quaternion, hopefully we are ok now ...
   dso::JasonBodyQuaternion tmp;
   if (bodyin.get_next(tmp)) {
@@ -156,22 +176,15 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
 
     return 0;
   } else {
-    if (tai_mjd < bodyq[0].tai_mjd) {
-      fprintf(stderr,
-              "ERROR Requested quaternion for an epoch prior to current "
-              "interval, t=%.15f\n",
-              tai_mjd);
-      fprintf(stderr, "      Current interval spans: %.15f to %.15f\n",
-              bodyq[0].tai_mjd, bodyq[1].tai_mjd);
-      return 1;
-    }
-    // else, find a suitable interval ....
+    // find a suitable interval ....
     int error = 0;
     left_shift();
     bodyq[NumQuaternionsInBuffer - 1] = tmp;
 
     do {
       error = bodyin.get_next(tmp);
+      // do not push invalid records in the buffer
+      if (error) break;
       left_shift();
       bodyq[NumQuaternionsInBuffer - 1] = tmp;
       // bodyq[0] = tmp;
diff --git a/src/satellites/jason3_quaternions.hpp b/src/satellites/jason3_quaternions.hpp
index a30fb82..cdc98a9 100644
--- a/src/satellites/jason3_quaternions.hpp
+++ b/src/satellites/jason3_quaternions.hpp
@@ -2,6 +2,8 @@
 #define __DSO_JASON3_QUATERNION_ROT_HPP__
 
 #include "jason3.hpp"
+#include <cassert>
+#include <cstring>
 #include <fstream>
 #include <stdexcept>
 #include "eigen3/Eigen/Geometry"
-- 
2.43.0


From d996131a46b919a8563d8b80c2a4272b75dfa8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 33/57] fix: coordinate extrapolation failed for sites allowed
 to be missing, printed an unterminated parameter name

---
 src/ids/get_pdop_crd.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ids/get_pdop_crd.cpp b/src/ids/get_pdop_crd.cpp
index 06f9ad8..ad6928e 100644
--- a/src/ids/get_pdop_crd.cpp
+++ b/src/ids/get_pdop_crd.cpp
@@ -1,6 +1,7 @@
 #include "doris_system_info.hpp"
 #include "doris_utils.hpp"
 #include "sinex/sinex.hpp"
+#include <algorithm>
 #include <cstring>
 
 int extrapolate_coordinates(
@@ -10,7 +11,7 @@ int extrapolate_coordinates(
   const char *components[] = {"STAX", "STAY", "STAZ"};
   for (int i = 0; i < 3; i++) {
     const char *sta = components[i];
-    char vel[4] = "VEL";
+    char vel[5] = "VEL";
     vel[3] = sta[3];
     auto pos_sx =
         std::find_if(estimates.begin(), estimates.end(),
@@ -143,7 +144,7 @@ int dso::extrapolate_sinex_coordinates(
 
   // get the solution estimates for the sites
   error = snx.parse_block_solution_estimate(est_vec, site_vec);
-  if (error || (int)est_vec.size() < num_stations * 6) {
+  if (error || est_vec.size() < site_vec.size() * 6) {
     fprintf(stderr,
             "[ERROR] Failed to collect estimates for given sites; SINEX file "
             "is %s "
-- 
2.43.0


From 0ef561fbb51581aa16601c240bd951acb86d95af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 34/57] fix: beacon table: stale errno refused valid files,
 short lines and long file names overran buffers

---
 src/beacon_tbl.hpp            |  5 +++--
 src/beacon_tbl/beacon_tbl.cpp | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/beacon_tbl.hpp b/src/beacon_tbl.hpp
index f4bd343..747f761 100644
--- a/src/beacon_tbl.hpp
+++ b/src/beacon_tbl.hpp
@@ -4,6 +4,7 @@
 #include "datetime/datetime_read.hpp"
 #include <cstring>
 #include <fstream>
+#include <string>
 #include <vector>
 
 namespace dso {
@@ -26,10 +27,10 @@ struct BeaconInformationTableEntry {
 };
 
 class BeaconInformationTable {
-  char fn_[256];
+  std::string fn_;
 
 public:
-  BeaconInformationTable(const char *fn) noexcept { std::strcpy(fn_, fn); }
+  BeaconInformationTable(const char *fn) : fn_(fn) {}
   BeaconInformationTable(const BeaconInformationTable &) = delete;
   BeaconInformationTable(BeaconInformationTable &&) = delete;
   BeaconInformationTable &operator=(const BeaconInformationTable &) = delete;
diff --git a/src/beacon_tbl/beacon_tbl.cpp b/src/beacon_tbl/beacon_tbl.cpp
index 100727b..ce90f91 100644
--- a/src/beacon_tbl/beacon_tbl.cpp
+++ b/src/beacon_tbl/beacon_tbl.cpp
@@ -1,4 +1,7 @@
 #include "beacon_tbl.hpp"
+#include <cerrno>
+#include <cstdio>
+#include <cstdlib>
 #include <stdexcept>
 
 std::vector<dso::BeaconInformationTableEntry>
@@ -6,7 +9,7 @@ dso::BeaconInformationTable::load_to_memmory(
     const dso::datetime<dso::nanoseconds> &t) {
   std::ifstream fin(fn_);
   if (!fin.is_open()) {
-    fprintf(stderr, "ERROR. Failed to open file %s (traceback: %s)\n", fn_,
+    fprintf(stderr, "ERROR. Failed to open file %s (traceback: %s)\n", fn_.c_str(),
             __func__);
     throw std::runtime_error("Open file error");
   }
@@ -19,9 +22,18 @@ dso::BeaconInformationTable::load_to_memmory(
 
   char *end;
   while (fin.getline(line, 256)) {
+    // all fields up to the height must be there
+    if (std::strlen(line) <= 45) {
+      fprintf(stderr,
+              "ERROR. Line too short in beacon table: \'%s\' "
+              "(traceback: %s)\n",
+              line, __func__);
+      throw std::runtime_error("Parse file error");
+    }
     std::memcpy(name, line, 4 * sizeof(char));
     const auto from = dso::strptime_ymd_hms<dso::nanoseconds>(line + 5, &end);
     const auto to = dso::strptime_ymd_hms<dso::nanoseconds>(line + 24, &end);
+    errno = 0;
     double height = std::strtod(line + 45, &end);
     if (errno || end == line + 45) {
       fprintf(stderr,
-- 
2.43.0


From 13af4fd984f925633be3a154109b39ef4aca8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 35/57] fix: EOP table: copies held an eighth of the values,
 moves leaked, failed interpolation was reported as success

---
 src/eop.hpp                  | 65 +++++++++++++++---------------------
 src/iers/eop_interpolate.cpp |  3 +-
 2 files changed, 29 insertions(+), 39 deletions(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index c22744d..2a83545 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -2,6 +2,7 @@
 #define __DSO__IERS_BULLTEIN_PARSERS_HPP__
 
 #include "datetime/dtcalendar.hpp"
+#include <cassert>
 #include <cstring>
 
 namespace dso {
@@ -35,6 +36,22 @@ private:
       *loda{nullptr},    ///< [sec/day], start index = 6
       *omegaa{nullptr};  ///< [?], start index = 7
 
+  ///< Copy the (sz first) values of all arrays off from eopt; the instance
+  ///  should already have the size of eopt
+  void copy_arrays(const EopLookUpTable &eopt) noexcept {
+    if (sz <= 0)
+      return;
+    const std::size_t bytes = sizeof(double) * sz;
+    std::memcpy(mjda, eopt.mjda, bytes);
+    std::memcpy(xpa, eopt.xpa, bytes);
+    std::memcpy(ypa, eopt.ypa, bytes);
+    std::memcpy(ut1a, eopt.ut1a, bytes);
+    std::memcpy(dxa, eopt.dxa, bytes);
+    std::memcpy(dya, eopt.dya, bytes);
+    std::memcpy(loda, eopt.loda, bytes);
+    std::memcpy(omegaa, eopt.omegaa, bytes);
+  }
+
 public:
   int size() const noexcept { return sz; }
 
@@ -147,7 +164,7 @@ public:
   /// @brief Resize; alocation/dealocation depends on capacity
   void resize(int sz_) noexcept {
     // no need to dealocate/alocate; just change the effective size
-    if (sz_ < capacity) {
+    if (sz_ <= capacity) {
       sz = sz_;
       return;
     } else {
@@ -176,7 +193,7 @@ public:
 
   /// @brief Move constructor
   EopLookUpTable(EopLookUpTable &&eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena{eopt.mem_arena},
+      : sz{eopt.sz}, capacity{eopt.capacity}, mem_arena{eopt.mem_arena},
         mjda{eopt.mjda}, xpa{eopt.xpa}, ypa{eopt.ypa}, ut1a{eopt.ut1a},
         dxa{eopt.dxa}, dya{eopt.dya}, loda{eopt.loda}, omegaa{eopt.omegaa} {
     eopt.sz = eopt.capacity = 0;
@@ -186,24 +203,8 @@ public:
   /// @brief Assignment operator
   EopLookUpTable &operator=(const EopLookUpTable &eopt) noexcept {
     if (this != &eopt) {
-      if (sz != eopt.sz) {
-        this->resize(eopt.sz);
-      }
-      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena, sz);
-      xpa = (double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz);
-      ypa = (double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz);
-      ut1a = (double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz);
-      dxa = (double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz);
-      dya = (double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz);
-      loda = (double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz);
-      omegaa = (double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz);
+      this->resize(eopt.sz);
+      copy_arrays(eopt);
     }
     return *this;
   }
@@ -211,9 +212,10 @@ public:
   /// @brief Move assignment operator
   EopLookUpTable &operator=(EopLookUpTable &&eopt) noexcept {
     if (this != &eopt) {
-      // just move elements ...
+      // free own memory, then just move elements ...
+      delete[] mem_arena;
       sz = eopt.sz;
-      capacity = eopt.sz;
+      capacity = eopt.capacity;
       mem_arena = eopt.mem_arena;
       mjda = eopt.mjda;
       xpa = eopt.xpa;
@@ -234,22 +236,9 @@ public:
   /// @brief Copy constructor. The created copy will have a capacity and size
   ///        (both) equal to eopt's size.
   EopLookUpTable(const EopLookUpTable &eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena(new double[capacity * 8]),
-        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena, sz)),
-        xpa((double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz)),
-        ypa((double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz)),
-        ut1a((double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz)),
-        dxa((double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz)),
-        dya((double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz)),
-        loda((double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz)),
-        omegaa((double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz)) {}
+      : EopLookUpTable(eopt.sz) {
+    copy_arrays(eopt);
+  }
 
   /// @brief Compute the effect of zonal Earth tides on the rotation of the
   ///        Earth (using iers2010::rg_zont2 on UT1-UTC, LOD and
diff --git a/src/iers/eop_interpolate.cpp b/src/iers/eop_interpolate.cpp
index 772c9e4..09daa8f 100644
--- a/src/iers/eop_interpolate.cpp
+++ b/src/iers/eop_interpolate.cpp
@@ -43,7 +43,8 @@ int dso::EopLookUpTable::interpolate(double tt_fmjd,
                                      dso::EopRecord &eopr, int order) const noexcept {
 
   // perform simple interpolation (lagrangian)
-  dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order);
+  if (dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order))
+    return 1;
 
   // TT as Julian centuries since J2000 (try to keep accuracy)
   double imjd;
-- 
2.43.0


From 520ea15ec442087f2ada132fd07fa694b66f2337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 36/57] fix: C04 parser: repeated days overran the table or hid
 missing ones, short lines read what was left of earlier ones

---
 src/iers/parse_c04.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/iers/parse_c04.cpp b/src/iers/parse_c04.cpp
index 9af4ea6..0b431f7 100644
--- a/src/iers/parse_c04.cpp
+++ b/src/iers/parse_c04.cpp
@@ -45,6 +45,11 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
 
   // if needed, resize the EOP table, interval is [start.end)
   int days = end_mjd.as_underlying_type() - start_mjd.as_underlying_type();
+  if (days < 0) {
+    fprintf(stderr, "[ERROR] Invalid interval for EOP data (traceback: %s)\n",
+            __func__);
+    return 1;
+  }
   eoptable.resize(days);
 
   char line[MAX_LINE_CHARS];
@@ -59,8 +64,8 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
     if (*line && (*line != ' ' && *line != '#')) {
       // skip the data (YYYY MM DD) which is 12 chars length
       // get the mjd
-      start = next_num(line + 12);
       end = line + std::strlen(line);
+      start = (end - line > 12) ? next_num(line + 12) : end;
       auto fcr = std::from_chars(start, end, imjd);
       if (fcr.ec != std::errc() || fcr.ptr == start) {
         fprintf(stderr,
@@ -76,6 +81,14 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
       // if the date is ok, collect data
       if (cmjd >= start_mjd && cmjd < end_mjd) {
         error = 0;
+        // one line per day, in chronological order
+        if (imjd != start_mjd.as_underlying_type() + sz) {
+          fprintf(stderr,
+                  "[ERROR] Missing, duplicate or unordered dates at EOP line "
+                  "[%s]. EOP file is %s (traceback: %s)\n",
+                  line, c04fn, __func__);
+          return 2;
+        }
         // do we need to transform the given UTC date to TAI?
         if (utc2tt) {
           dso::modified_julian_day tai_mjd;
-- 
2.43.0


From 80c3a252664e997af999c52505e498991f83aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 37/57] fix: frame transforms of the velocity used a matrix
 after its lifetime (auto on an Eigen product)

---
 src/itrs2gcrs.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/itrs2gcrs.cpp b/src/itrs2gcrs.cpp
index 36718b6..e86120c 100644
--- a/src/itrs2gcrs.cpp
+++ b/src/itrs2gcrs.cpp
@@ -105,11 +105,11 @@ dso::ycel2ter(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
@@ -141,11 +141,11 @@ dso::yter2cel(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
-- 
2.43.0


From 9cf58d4b34c78b353b43a9c0633f486dad5537de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 38/57] fix: Sun's mean anomaly and obliquity had transposed
 digits, two Sun models are of date (not J2000)

---
 src/planetpos.hpp      | 6 +++---
 src/planets/sunpos.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/planetpos.hpp b/src/planetpos.hpp
index 8684317..82521b4 100644
--- a/src/planetpos.hpp
+++ b/src/planetpos.hpp
@@ -96,7 +96,7 @@ int sun_vector_montenbruck(double tt_jdc, double *rsun) noexcept;
 /// @brief Sun's geocentric position using a low precision analytical series
 /// @param[in] tt_jdc Terestrial time as Modified Julian cent. since J2000
 /// @param[out] rsun Components of the Solar position vector [km] with respect
-///             to the mean equator and equinox of J2000 (EME2000, ICRF)
+///             to the mean equator and equinox of date
 /// @see Vallado, Fundamentals of Astrodynamics and Applications, Fourth 
 ///             Edition, Chapter 5.1.1
 /// @note This is the same algorithm as also described in Orbital Mechanics for
@@ -108,9 +108,9 @@ int sun_vector_approx21(double tt_jdc, double *rsun) noexcept;
 
 
 /// @brief Sun's geocentric position using a low precision analytical series
-/// @param[in] tt_jdc Terestrial time as Modified Julian cent. since J2000
+/// @param[in] n Terestrial time as days since J2000
 /// @param[out] rsun Components of the Solar position vector [km] with respect
-///             to the mean equator and equinox of J2000 (EME2000, ICRF)
+///             to the mean equator and equinox of date
 /// @see Curtis, Orbital Mechanics for Engineering Students, Fourth Edition,
 ///             Chapter 12.9
 int sun_vector_curtis(double n, double *rsun) noexcept;
diff --git a/src/planets/sunpos.cpp b/src/planets/sunpos.cpp
index 71f57d9..7253812 100644
--- a/src/planets/sunpos.cpp
+++ b/src/planets/sunpos.cpp
@@ -49,7 +49,7 @@ int dso::sun_vector_vallado(double t, double *rsun) noexcept {
   const double lambda =
       std::fmod(280.460e0 + 36000.771e0 * t, 360e0); // [degrees]
   const double M =
-      std::fmod(357.5291092e0 + 35999.50534e0 * t, 360e0); // [degrees]
+      std::fmod(357.5291092e0 + 35999.05034e0 * t, 360e0); // [degrees]
   const double Mrad = dso::deg2rad(M);
   const double l_ecliptic = std::fmod(lambda + 1.914666471e0 * sin(Mrad) +
                                           0.019994643e0 * sin(2e0 * Mrad),
@@ -80,7 +80,7 @@ int dso::sun_vector_approx21(double t, double *rsun) noexcept {
   const double lambda = std::modf(cf1 + cf2 * t, &dummy) * pi2; // [rad]
 
   constexpr double cf3 = normalize_deg(357.5291092e0);
-  constexpr double cf4 = normalize_deg(35999.50534e0);
+  constexpr double cf4 = normalize_deg(35999.05034e0);
   const double M = std::modf(cf3 + cf4 * t, &dummy) * pi2; // [rad]
 
   const double lon_arg = 1.914666471e0 * sin(M) + 0.019994643e0 * sin(2e0 * M);
@@ -114,7 +114,7 @@ int dso::sun_vector_curtis(double n, double *rsun) noexcept {
                                    0.0200e0 * sin(2e0 * dso::deg2rad(M)),
                                360e0);
   // Calculate the obliquity ε [deg]
-  const double e = 23.439e0 - 3.65e-7 * n;
+  const double e = 23.439e0 - 3.56e-7 * n;
   // Calculate the unit vector u_n from the earth to the sun
   const double ux = cos(dso::deg2rad(lon));
   const double uy = cos(dso::deg2rad(e)) * sin(dso::deg2rad(lon));
-- 
2.43.0


From ca7506bffb385aac49a5ba3dec154fdcc9ef33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 39/57] fix: kernels were taken for loaded if a loaded one's
 name starts with theirs

---
 src/planets/cspice_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/planets/cspice_utils.cpp b/src/planets/cspice_utils.cpp
index 6db24e9..84075b7 100644
--- a/src/planets/cspice_utils.cpp
+++ b/src/planets/cspice_utils.cpp
@@ -20,7 +20,7 @@ int dso::cspice::load_if_unloaded_lsk(const char *lsk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "text", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, lsk_kernel, std::strlen(lsk_kernel))) return 0;
+      if (!std::strcmp(file, lsk_kernel)) return 0;
     }
   }
 
@@ -42,7 +42,7 @@ int dso::cspice::load_if_unloaded_spk(const char *spk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "spk", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, spk_kernel, std::strlen(spk_kernel))) return 0;
+      if (!std::strcmp(file, spk_kernel)) return 0;
     }
   }
 
@@ -64,7 +64,7 @@ int dso::cspice::load_if_unloaded_pck(const char *pck_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "pck", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, pck_kernel, std::strlen(pck_kernel))) return 0;
+      if (!std::strcmp(file, pck_kernel)) return 0;
     }
   }
 
-- 
2.43.0


From 6f90bbaa91519c9f213c6b5970dd68eb421b4059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 40/57] fix: space weather feed: files ending early or damaged
 past the need, bad dates, short lines, long names; local time never set

---
 src/atmosphere/nrlmsise00.hpp               | 33 +++++---
 src/atmosphere/nrlmsise00_get_flux_data.cpp | 12 ++-
 src/atmosphere/nrlmsise00_params.cpp        |  1 +
 src/var/celestrak_swdata.cpp                | 91 ++++++++++++---------
 4 files changed, 83 insertions(+), 54 deletions(-)

diff --git a/src/atmosphere/nrlmsise00.hpp b/src/atmosphere/nrlmsise00.hpp
index 178f6c9..d9bf20a 100644
--- a/src/atmosphere/nrlmsise00.hpp
+++ b/src/atmosphere/nrlmsise00.hpp
@@ -78,7 +78,7 @@ struct Switches {
 
   /// @brief Set value of given switch; this will perform the following:
   /// sw[index] = val % 2 , and
-  /// swc[index] = (val == 1 || val == 2) ? 1e0 : 0e0;
+  /// swc[index] = (abs(val) == 1 || abs(val) == 2) ? 1e0 : 0e0;
   /// As performed in the original FORTRAN code using TSELEC
   /// @param[in] index The switch index
   /// @param[in] val   Val to set (kinda)
@@ -87,7 +87,7 @@ struct Switches {
     assert(index >= 0 && index < dim);
 #endif
     sw[index] = val % 2;
-    swc[index] = (val == 1 || val == 2) ? 1e0 : 0e0;
+    swc[index] = (std::abs(val) == 1 || std::abs(val) == 2) ? 1e0 : 0e0;
   }
 
   /// @brief Set switch/switches to zero.
@@ -181,16 +181,16 @@ struct ApArray {
 ///       the Sun rather than the radio flux at 1 AU.
 struct InParamsCore {
   nrlmsise00::detail::Switches sw;
-  int year;     // year, currently ignored
-  int doy;      // day of year
-  double sec;   // seconds in day (UT)
-  double alt;   // altitude in kilometers [km]
-  double glat;  // geodetic latitude [degrees]
-  double glon;  // geodetic longitude  [degrees]
-  double lst;   // local apparent solar time (hours), see note
-  double f107A; // 81 day average of F10.7 flux (centered on doy)
-  double f107;  // daily F10.7 flux for previous day
-  double ap;    // magnetic index(daily)
+  int year{0};     // year, currently ignored
+  int doy{0};      // day of year
+  double sec{0};   // seconds in day (UT)
+  double alt{0};   // altitude in kilometers [km]
+  double glat{0};  // geodetic latitude [degrees]
+  double glon{0};  // geodetic longitude  [degrees]
+  double lst{0};   // local apparent solar time (hours), see note
+  double f107A{0}; // 81 day average of F10.7 flux (centered on doy)
+  double f107{0};  // daily F10.7 flux for previous day
+  double ap{0};    // magnetic index(daily)
   nrlmsise00::detail::ApArray aparr; // ap index array
   bool meters_{false};               // request result in m^3 and kg/m^3
 
@@ -208,6 +208,13 @@ struct InParamsCore {
   InParamsCore() noexcept {};
   InParamsCore(dso::modified_julian_day mjd, double secday) noexcept;
 
+  /// @brief Set the local solar time consistent with UT and longitude, see note
+  void set_local_time() noexcept {
+    lst = std::fmod(sec / 3600e0 + glon / 15e0, 24e0);
+    if (lst < 0e0)
+      lst += 24e0;
+  }
+
   /// @brief Trigger ise of AP index array
   void use_aparray() noexcept { sw.set_switch(8, -1); };
 
@@ -327,6 +334,7 @@ template <> struct InParams<detail::FluxDataFeedType::ST_CSV_SW> {
     params_.year = ydoy.__year.as_underlying_type();
     params_.doy = ydoy.__doy.as_underlying_type();
     params_.sec = t.sec().to_fractional_seconds();
+    params_.set_local_time();
     return feed_.update(params_);
   }
 
@@ -339,6 +347,7 @@ template <> struct InParams<detail::FluxDataFeedType::ST_CSV_SW> {
     params_.glon = dso::rad2deg(lfh(0)); // longitude in degrees
     params_.glat = dso::rad2deg(lfh(1)); // latitude in degrees
     params_.alt  = lfh(2) * 1e-3; // altitude in km
+    params_.set_local_time();
   }
 };
 
diff --git a/src/atmosphere/nrlmsise00_get_flux_data.cpp b/src/atmosphere/nrlmsise00_get_flux_data.cpp
index 1240a0c..6b17860 100644
--- a/src/atmosphere/nrlmsise00_get_flux_data.cpp
+++ b/src/atmosphere/nrlmsise00_get_flux_data.cpp
@@ -9,7 +9,9 @@
 dso::nrlmsise00::detail::Nrlmsise00DataFeed::Nrlmsise00DataFeed(
     const char *fncsv, dso::nrlmsise00::detail::InParamsCore &in)
     {
-      std::strcpy(fncsv_,fncsv);
+  if (std::strlen(fncsv) >= sizeof(fncsv_))
+    throw std::runtime_error("Name of Space Weather CSV file too long\n");
+  std::strcpy(fncsv_,fncsv);
 
   const dso::datetime<dso::milliseconds> t(dso::datetime<dso::milliseconds>(
       dso::year(in.year), dso::day_of_year(in.doy), dso::milliseconds(0)));
@@ -189,9 +191,13 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::update(
       error = dso::utils::celestrak::details::get_next(new_mjd, fncsv_,
                                                        flux_data_, 4, fpos);
     } else {
-      // else just parse the file from the top and fill in data arrays ...
+      // else just parse the file from the top and fill in data arrays (but
+      // keep the ones we have if the new ones cannot be collected)
+      dso::utils::celestrak::details::CelestTrakSWFlux new_data[4];
       error = dso::utils::celestrak::details::parse_csv_for_date(
-          new_mjd, fncsv_, flux_data_, fpos, 3, 0);
+          new_mjd, fncsv_, new_data, fpos, 3, 0);
+      if (!error)
+        std::memcpy(flux_data_, new_data, sizeof(new_data));
     }
     if (!error) {
       mjd_ = new_mjd;
diff --git a/src/atmosphere/nrlmsise00_params.cpp b/src/atmosphere/nrlmsise00_params.cpp
index 03c1651..df4b37c 100644
--- a/src/atmosphere/nrlmsise00_params.cpp
+++ b/src/atmosphere/nrlmsise00_params.cpp
@@ -9,4 +9,5 @@ dso::nrlmsise00::detail::InParamsCore::InParamsCore(dso::modified_julian_day mjd
   year = ydoy.__year.as_underlying_type();
   doy = ydoy.__doy.as_underlying_type();
   sec = t.sec().to_fractional_seconds();
+  set_local_time();
 }
diff --git a/src/var/celestrak_swdata.cpp b/src/var/celestrak_swdata.cpp
index 5e66737..e51385b 100644
--- a/src/var/celestrak_swdata.cpp
+++ b/src/var/celestrak_swdata.cpp
@@ -2,6 +2,7 @@
 #include <charconv>
 #include <cstdio>
 #include <cstring>
+#include <exception>
 #include <datetime/dtfund.hpp>
 #include <fstream>
 #include <limits>
@@ -23,6 +24,18 @@ constexpr const char header[] =
 // F10.7_OBS_LAST81 -> 29
 // F10.7_ADJ_CENTER81 -> 30
 
+namespace {
+/// Skip the next n columns of a line, i.e. go to the character past the next
+/// n commas. Return anything other than 0 if the line holds fewer.
+int skip_columns(const char *&c, int n) noexcept {
+  while (n > 0 && *c) {
+    if (*c++ == ',')
+      --n;
+  }
+  return n;
+}
+} // namespace
+
 int dso::utils::celestrak::details::resolve_csv_line_records(
     const char *line,
     dso::utils::celestrak::details::CelestTrakSWFlux &flux_data) noexcept {
@@ -37,18 +50,12 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   const char *c = line;
 
   // find and skip 12 ',' chars
-  int commas = 0;
-  while (*c++ && commas < 12) {
-    if (*c == ',') {
-      ++commas;
-    }
-  }
-  if (!*c) {
+  if (skip_columns(c, 12)) {
     return 2;
   }
 
-  // last character in the string, the limit for conversions
-  const char *last = line + sz - 1;
+  // end of the string, the limit for conversions
+  const char *last = line + sz;
 
   // resolve the 8 hourly AP's (these are ints)
   int i = 0;
@@ -72,13 +79,7 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   // we are now at column CP; skip and, and do so also for columns:
   // C9, ISN
   // Go three ',' forward
-  commas = 0;
-  while (*c++ && commas < 3) {
-    if (*c == ',') {
-      ++commas;
-    }
-  }
-  if (!*c) {
+  if (skip_columns(c, 3)) {
     return 12;
   }
 
@@ -97,6 +98,8 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   }
 
   // we are now at the F10.7_DATA_TYPE; just copy three chars
+  if (last - c < 4)
+    return 15;
   std::memcpy(flux_data.flag, c, 3 * sizeof(char));
   c += 3;
   if (*c++ != ',')
@@ -132,6 +135,8 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
 int dso::utils::celestrak::details::resolve_csv_line_date(
     const char *line, dso::modified_julian_day &mjd) noexcept {
   // date format: 2017-01-10
+  if (std::strlen(line) < 10 || line[4] != '-' || line[7] != '-')
+    return 1;
   int year, month, day;
   // year ...
   auto pec = std::from_chars(line, line + 4, year);
@@ -147,9 +152,15 @@ int dso::utils::celestrak::details::resolve_csv_line_date(
     return 1;
 
   // to datetime ... (note that this is UTC)
-  const dso::datetime<dso::seconds> d(dso::year(year), dso::month(month),
-                                      dso::day_of_month(day), dso::seconds(0));
-  mjd = d.mjd();
+  try {
+    const dso::datetime<dso::seconds> d(dso::year(year), dso::month(month),
+                                        dso::day_of_month(day),
+                                        dso::seconds(0));
+    mjd = d.mjd();
+  } catch (std::exception &) {
+    // no such date
+    return 1;
+  }
 
   // all done
   return 0;
@@ -234,18 +245,20 @@ int dso::utils::celestrak::details::parse_csv_for_date(
   // read first data line; if record_date > start_mjd data, the target date is
   // not included in the file ...
   fin.getline(line, MAX_SW_CHARS);
-  if (resolve_csv_line_date(line, cmjd)) {
+  const int date_error = resolve_csv_line_date(line, cmjd);
+  if (fpos2 && (date_error || cmjd > start_mjd)) {
+    // wait! don't give up! if fpos was somethin other than 0, maybe it was
+    // erronuous, and the date exists in the file but is before fpos. try the
+    // function once more, with an fpos=0
+    return parse_csv_for_date(mjd, fncsv, flux_data, fpos, days_before,
+                              days_after);
+  }
+  if (date_error) {
     fprintf(stderr, "ERROR@%s: Failed parsing SW csv line %s\n", __func__,
             line);
     return parse_error;
   }
   if (cmjd > start_mjd) {
-    // wait! don't give up! if fpos was somethin other than 0, maybe it was
-    // erronuous, and the date exists in the file but is before fpos. try the
-    // function once more, with an fpos=0
-    if (fpos2)
-      return parse_csv_for_date(mjd, fncsv, flux_data, fpos, days_before,
-                                days_after);
     return target_prior;
   }
 
@@ -275,22 +288,22 @@ int dso::utils::celestrak::details::parse_csv_for_date(
               __func__, line, error);
       return parse_error;
     }
-    // read in next line (should be next day)
-    if (fin.getline(line, MAX_SW_CHARS)) {
-      error = resolve_csv_line_date(line, cmjd);
-    } else {
-      return error;
-    }
-    if (cmjd != start_mjd + dso::modified_julian_day{cdi + 1}) {
-      fprintf(stderr, "ERROR@%s Error parsing SW CVS file %s\n", __func__,
-              fncsv);
-      return parse_error;
+    // if more days are needed, read in next line (should be next day)
+    if (++cdi < days_to_resolve) {
+      if (!fin.getline(line, MAX_SW_CHARS))
+        return eof_reached;
+      if (resolve_csv_line_date(line, cmjd) ||
+          cmjd != start_mjd + dso::modified_julian_day{cdi}) {
+        fprintf(stderr, "ERROR@%s Error parsing SW CVS file %s\n", __func__,
+                fncsv);
+        return parse_error;
+      }
     }
-    ++cdi;
   }
 
-  // set fpos
-  fpos = fin.tellg();
+  // set fpos (the last line may not be terminated)
+  if (!fin.eof())
+    fpos = fin.tellg();
 
   return 0;
 }
-- 
2.43.0


From 9c1fed1cc602806a932f58abe752dfe3c4de6da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 41/57] fix: exponential atmosphere: scale height of 180-200 km
 was a thousand times too large

---
 src/atmosphere/exponential_atmospheric_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atmosphere/exponential_atmospheric_model.cpp b/src/atmosphere/exponential_atmospheric_model.cpp
index e28c923..86434bb 100644
--- a/src/atmosphere/exponential_atmospheric_model.cpp
+++ b/src/atmosphere/exponential_atmospheric_model.cpp
@@ -29,7 +29,7 @@ const AtmLayer AtmTable[] = {
     {130, 140, 130, 8.484e-9, 12.636e0},
     {140, 150, 140, 3.845e-9, 16.149e0},
     {150, 180, 150, 2.070e-9, 22.523e0},
-    {180, 200, 180, 5.464e-10, 29740e0},
+    {180, 200, 180, 5.464e-10, 29.740e0},
     {200, 250, 200, 2.789e-10, 37.105e0},
     {250, 300, 250, 7.248e-11, 45.546e0},
     {300, 350, 300, 2.418e-11, 53.628e0},
-- 
2.43.0


From b0da47c78d42d8578bb753e9e558430bb99b1b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 42/57] fix: NRLMSISE-00: NaN below 32.5 km, instances shared
 their cached latitude, gravity kept its latitude terms when switched off, He
 not reset

---
 src/atmosphere/nrlmsise00.hpp        | 4 ++++
 src/atmosphere/nrlmsise00_glob7s.cpp | 2 +-
 src/atmosphere/nrlmsise00_globe7.cpp | 4 ----
 src/atmosphere/nrlmsise00_gtd7.cpp   | 5 +++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/atmosphere/nrlmsise00.hpp b/src/atmosphere/nrlmsise00.hpp
index d9bf20a..e4e7906 100644
--- a/src/atmosphere/nrlmsise00.hpp
+++ b/src/atmosphere/nrlmsise00.hpp
@@ -395,6 +395,10 @@ class Nrlmsise00 {
   double c2tloc, s2tloc;
   double s3tloc, c3tloc;
   double apdf;
+  // last latitude (so we don't re-compute legendre polynomials)
+  double xl{1000e0};
+  // last used tloc/lst (so we don't recompute trig numbers)
+  double tll{1000e0};
 
   /// @brief Replaces the original FORTRAN implementation SAM array
   constexpr double sam(int i) const noexcept {
diff --git a/src/atmosphere/nrlmsise00_glob7s.cpp b/src/atmosphere/nrlmsise00_glob7s.cpp
index 9ca1ce9..407664a 100644
--- a/src/atmosphere/nrlmsise00_glob7s.cpp
+++ b/src/atmosphere/nrlmsise00_glob7s.cpp
@@ -44,7 +44,7 @@ double dso::Nrlmsise00::glob7s(const InParamsCore *in, double *pp) noexcept {
   p32 = p[31];
   p18 = p[17];
   p14 = p[13];
-  p39 = p[39];
+  p39 = p[38];
 
   t[0] = p[21] * dfa;
   
diff --git a/src/atmosphere/nrlmsise00_globe7.cpp b/src/atmosphere/nrlmsise00_globe7.cpp
index bf495eb..45cb428 100644
--- a/src/atmosphere/nrlmsise00_globe7.cpp
+++ b/src/atmosphere/nrlmsise00_globe7.cpp
@@ -18,10 +18,6 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
   constexpr const double hr = 0.2618e0;
   constexpr const double sr = 7.2722e-5;
 
-  // last latitude (so we don't re-compute legendre polynomials)
-  static double xl = 1000e0;
-  // last used tloc/lst (so we don't recompute trig numbers)
-  static double tll = 1000e0;
   static double sw9 = 1e0;
   // last doy used 
   static int last_doy = -1;
diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index 4d855d8..b36d271 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -20,7 +20,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
 
   // latitude variation of gravity (none for SW(2)=0)
   double xlat = in->glat;
-  if (std::abs(in->sw.sw[1]) < 0)
+  if (std::abs(in->sw.sw[1]) < nearzero)
     xlat = 45e0;
   re = glatf(xlat, gsurf);
 
@@ -66,6 +66,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     tgn2[1] = pavgm[8] * pma[9][0] *
               (1e0 + sw19 * sw21 * glob7s(in, pma[9])) * tn2[3] *
               tn2[3] / std::pow(pma[2][0] * pavgm[2], 2e0);
+    tn3[0] = tn2[3];
   }
 
   // LOWER STRATOSPHERE AND TROPOSPHERE [below ZN3(1)]
@@ -99,7 +100,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     d[2] = densm(in->alt, dm28m, xmm, tz);
     d[2] *= (1e0 + dmr * dmc);
     // HE DENSITY
-    d[1] = 0e0;
+    d[0] = 0e0;
     if (mass == 4 || mass == 48) {
       dmr = ds[0] / (dz28 * pdm[0][1]) - 1e0;
       d[0] = d[2] * pdm[0][1] * (1e0 + dmr * dmc);
-- 
2.43.0


From 9495dbad433c9181dbb49e86d62542346d3eb4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:45 +0000
Subject: [PATCH 43/57] fix: NRLMSISE-00: places less than a millionth of a
 degree or hour apart got each other's latitude and local time terms

---
 src/atmosphere/nrlmsise00_globe7.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_globe7.cpp b/src/atmosphere/nrlmsise00_globe7.cpp
index 45cb428..6febf4e 100644
--- a/src/atmosphere/nrlmsise00_globe7.cpp
+++ b/src/atmosphere/nrlmsise00_globe7.cpp
@@ -30,7 +30,7 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
   double t[14] = {0e0};
   sw9 = 1e0 * (sw[8] < 0e0) * -1e0;
 
-  if (std::abs(xl - in->glat) > nearzero) {
+  if (xl != in->glat) {
     // calculate legendre polynomials
     const double c = std::sin(dso::deg2rad(in->glat));
     const double s = std::cos(dso::deg2rad(in->glat));
@@ -68,7 +68,7 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
   }
 
   const double tloc = in->lst;
-  if (std::abs(tll - tloc) > nearzero) {
+  if (tll != tloc) {
     if (std::abs(sw[6]) > 0e0 || std::abs(sw[7]) > 0e0 || std::abs(sw[13])) {
       stloc = std::sin(hr * tloc);
       ctloc = std::cos(hr * tloc);
-- 
2.43.0


From 23d91cee3632ff86896cb05b32d281a0a7dbf947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:45 +0000
Subject: [PATCH 44/57] fix: equations of motion: Sun a million times too weak,
 gravity partials turned the wrong way, density at inertial position, gradient
 without its last component; calls inside of asserts

---
 src/orbit_integration.hpp     |  4 ++-
 src/sunmoon.cpp               |  2 +-
 src/variational_equations.cpp | 50 ++++++++++++++++++++++-------------
 3 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/orbit_integration.hpp b/src/orbit_integration.hpp
index 8464980..c5e6007 100644
--- a/src/orbit_integration.hpp
+++ b/src/orbit_integration.hpp
@@ -52,7 +52,9 @@ struct IntegrationParameters {
         degree(degree_), order(order_) {
     assert(degree_ == harmonics_.degree());
     // gravitational parameters
-    assert(!dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon));
+    [[maybe_unused]] const int error =
+        dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon);
+    assert(!error);
   };
 
   ~IntegrationParameters() noexcept {
diff --git a/src/sunmoon.cpp b/src/sunmoon.cpp
index aa12e71..ed42372 100644
--- a/src/sunmoon.cpp
+++ b/src/sunmoon.cpp
@@ -29,7 +29,7 @@ void dso::SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
 
   // Sun-induced acceleration [km/sec^2]
   sun_acc = dso::point_mass_accel(GMSun, rsat * 1e-3, rSun);
-  sun_acc = sun_acc * 1e-3; // [m/sec^2]
+  sun_acc = sun_acc * 1e3; // [m/sec^2]
 
   // Moon-induced acceleration [m/sec^2]
   moon_acc =
diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index d7fe823..df8953e 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -25,7 +25,9 @@ void dso::VariationalEquations(
 #else
   Eigen::Matrix<double, 3, 3> rc2i, rpom;
   double era,xlod;
-  assert(!gcrs2itrs(cmjd, params.eopLUT, rc2i, era, rpom, xlod));
+  [[maybe_unused]] int error =
+      gcrs2itrs(cmjd, params.eopLUT, rc2i, era, rpom, xlod);
+  assert(!error);
   // const auto t2c = (rpom * rc2ti).transpose() ;
 #endif
   //{
@@ -72,7 +74,7 @@ void dso::VariationalEquations(
 #else
   gacc = rter2cel(gacc, rc2i, era, rpom);
   const auto rc2ti = Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
-  gpartials = (rpom * rc2ti) * gpartials * (rpom * rc2ti).transpose();
+  gpartials = (rpom * rc2ti).transpose() * gpartials * (rpom * rc2ti);
   //for (int i=0; i<3; i++) {
   //  for (int j=0; j<3; j++) {
   //    printf(" %+.6f ",(rpom * rc2ti)(i,j));
@@ -132,14 +134,16 @@ void dso::VariationalEquations(
     if (utc_fday > 1e0) {
       utc_fday -= 1e0;
       ++imjd;
-    } else if (utc_fday < 1e0) {
+    } else if (utc_fday < 0e0) {
       utc_fday += 1e0;
       --imjd;
     }
-    assert(!params.AtmDataFeed->update_params(imjd, utc_fday*86400e0));
-    params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0));
+    error = params.AtmDataFeed->update_params(imjd, utc_fday*86400e0);
+    assert(!error);
+    params.AtmDataFeed->set_spatial_from_cartesian(r_geo);
     dso::nrlmsise00::OutParams aout;
-    assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+    error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+    assert(!error);
     const double atmdens = aout.d[5];
     Eigen::Matrix<double,3,1> drhodr;
     { // approximate arithmetic derivative w.r.t satellite ECEF position
@@ -147,34 +151,42 @@ void dso::VariationalEquations(
       double p1,m1;
       // w.r.t X component
       unitv << 1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       p1 = aout.d[5];
       unitv << -1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       m1 = aout.d[5];
       drhodr(0) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Y component
       unitv << 0e0, 1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       p1 = aout.d[5];
       unitv << 0e0, -1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       m1 = aout.d[5];
       drhodr(1) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Z component
       unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       p1 = aout.d[5];
-      unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      unitv << 0e0, 0e0, -1e0;
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       m1 = aout.d[5];
       drhodr(2) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
+      // gradient in celestial frame (as are r, v)
+      drhodr = rter2cel(drhodr, rc2i, era, rpom);
     }
   //  //printf("Note: Using drag coefficient=%.3f\n", params.get_drag_coefficient());
     //drag = dso::drag_accel(r, v, ProjArea, /*params.get_drag_coefficient()*/2e0,
-- 
2.43.0


From 42e9fd68a5dbfb2a26738a8ce7728cf1b6159185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:36 +0000
Subject: [PATCH 45/57] fix: troposphere of all stations was set at every
 other, not every third parameter (linear clocks)

---
 src/filters/filters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filters/filters.hpp b/src/filters/filters.hpp
index f595bff..925c200 100644
--- a/src/filters/filters.hpp
+++ b/src/filters/filters.hpp
@@ -148,7 +148,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.x(tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.x(idx) = val;
@@ -165,7 +165,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.P(tropo_index(beacon_nr), tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.P(idx,idx) = val;
-- 
2.43.0


From a8c978ff70b8150724771dc93e68cd182aa21c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:39 +0000
Subject: [PATCH 46/57] fix: depth-3 YAML lookups report an error instead of
 throwing

get_yaml_value_depth3 looked up its first key outside any try block: when the
root node is a scalar yaml-cpp throws, where get_yaml_value_depth2 returns an
error.
---
 src/var_utils.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/var_utils.hpp b/src/var_utils.hpp
index 49775bc..65ef6ab 100644
--- a/src/var_utils.hpp
+++ b/src/var_utils.hpp
@@ -101,18 +101,30 @@ int get_yaml_value_depth2(const YAML::Node &root, const char *key1,
 ///   // val hold the value 1
 template <typename T>
 int get_yaml_value_depth3(const YAML::Node &root, const char *key1,
-                          const char *key2, const char *key3, T &val) {
-  const YAML::Node node = get_yaml_node(root, key1);
-  return get_yaml_value_depth2(node, key2, key3, val);
+                          const char *key2, const char *key3, T &val) noexcept {
+  try {
+    const YAML::Node node = get_yaml_node(root, key1);
+    return get_yaml_value_depth2(node, key2, key3, val);
+  } catch (...) {
+    fprintf(stderr, "ERROR@%s Failed finding key %s::%s::%s\n", __func__, key1,
+            key2, key3);
+    return 1;
+  }
 }
 
 /// @brief Specialization of the template <typename T>::get_yaml_value_depth3
 /// function for C-strings
 inline
 int get_yaml_value_depth3(const YAML::Node &root, const char *key1,
-                          const char *key2, const char *key3, char *buf) {
-  const YAML::Node node = get_yaml_node(root, key1);
-  return get_yaml_value_depth2(node, key2, key3, buf);
+                          const char *key2, const char *key3, char *buf) noexcept {
+  try {
+    const YAML::Node node = get_yaml_node(root, key1);
+    return get_yaml_value_depth2(node, key2, key3, buf);
+  } catch (...) {
+    fprintf(stderr, "ERROR@%s Failed finding key %s::%s::%s\n", __func__, key1,
+            key2, key3);
+    return 1;
+  }
 }
 
 // int get_CelesTrack_flux_data(
-- 
2.43.0


From bfc49af66ad2ad1f2f1f54389a76c57a9dd12730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 47/57] fix: Bulletin B files that touch the days asked for are
 merged, the first and last days of a file included

---
 script/fetch_iers_c04.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index cec061d..5a2a529 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -313,13 +313,15 @@ if __name__ == '__main__':
         ## will we be needing it?
         file_is_of_use = False
 
-        ## check if it overlaps the requested interval
-        if not prior_covered and d0 < t_start and t_start < dn:
+        ## check if it overlaps the requested interval (first and last day of
+        ## the file included)
+        if d0 <= t_start and t_start <= dn:
             prior_covered = True
-            file_is_of_use = True
 
-        if not post_covered and d0 < t_end and t_end < dn:
+        if d0 <= t_end and t_end <= dn:
             post_covered = True
+
+        if d0 <= t_end and t_start <= dn:
             file_is_of_use = True
 
         ## if not to be used, remove local
-- 
2.43.0


From cb67311ecc1f0543b105ce4d16c98e4b8948d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 48/57] fix: the list of C04 files was not sorted when a later
 file came before an earlier one

---
 script/fetch_iers_c04.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index 5a2a529..abc4a76 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -229,16 +229,7 @@ def c04_date_span(c04fn):
 ##                           {'t0':datetime_start, 't':datetime_stop}, ...
 ## to  a sorted list of filenames, base on the value 't0'
 def c04_dict_to_sorted_list(c04_dict):
-    lst = []
-    ct = datetime.datetime.max
-    for fn,vals in c04_dict.items():
-        if vals['t0'] < ct:
-            lst = [fn] + lst
-            ct = vals['t0']
-        else:
-            lst.append(fn)
-            if len(lst) == 1: ct = vals['t0']
-    return lst
+    return sorted(c04_dict, key=lambda fn: c04_dict[fn]['t0'])
 
 ## write out a list (of dicts) of IERS Bulletin B/C04 final data
 def c04_cat(outfn, *c04fns):
-- 
2.43.0


From a2b7cf16cdccd1c63788720b794467014fdd8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 49/57] fix: search for Bulletin B files went back and forth
 for days that are in three or more of them

---
 script/fetch_iers_c04.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index abc4a76..94ed905 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -322,8 +322,8 @@ if __name__ == '__main__':
             os.remove(local)
 
         ## next guess
-        if d0 > t_start: guess -= 1
-        elif dn < t_end: guess += 1
+        if not prior_covered and d0 > t_start: guess -= 1
+        elif not post_covered and dn < t_end: guess += 1
         elif prior_covered and post_covered:
           pass
         else:
-- 
2.43.0


From 3a256e5a914af650b3361d7955b4739d3272d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 50/57] fix: antenna heights without decimals or with a sign
 were taken as zero

---
 script/pydoris/pydoris/log/ids_log_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index 4ea5af1..177419e 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -121,11 +121,11 @@ def dump_log_antenna_info(logfn,fout=sys.stdout):
     for subblock in lofd:
         name = subblock["Four character ID"]
         height_str = subblock["Height above ground mark"]
-        m = re.match(r"([0-9]+.[0-9]+)?\s*m", height_str)
+        m = re.match(r"([+-]?[0-9]+(?:\.[0-9]+)?)?\s*m", height_str)
         ## Guard against the case where no explicit "m" (aka meters) character
         ## is present. Produce a warning though
         if not m:
-            m = re.match(r"([0-9]+.[0-9]+)?\s*", height_str)
+            m = re.match(r"([+-]?[0-9]+(?:\.[0-9]+)?)?\s*", height_str)
             if not m:
                 errmsg = "ERROR. Failed to parse height from string \'{}\' (file {:})".format(height_str,logfn)
                 raise RuntimeError(errmsg)
-- 
2.43.0


From 4ad684a9568371c49e01660115c95b889ace57b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 51/57] fix: last entry of the block that ends a site log was
 dropped

---
 script/pydoris/pydoris/log/ids_log_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index 177419e..f07ee36 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -103,6 +103,10 @@ class IdsLogFile:
                     line = self.istream_.readline()
             else:
                 line = self.istream_.readline()
+        else:
+            # the file ends with this block
+            if cdic:
+                ret.append(cdic)
 
         return ret
 
-- 
2.43.0


From e8de496f732d59c5ed3004b243ba089d753a25e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 52/57] fix: a gravity model file without end_of_head was read
 for ever

---
 script/gfc_fortran2c.py           | 3 +++
 var/icgem/script/gfc_fortran2c.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/script/gfc_fortran2c.py b/script/gfc_fortran2c.py
index 6d51aec..fec31da 100755
--- a/script/gfc_fortran2c.py
+++ b/script/gfc_fortran2c.py
@@ -21,6 +21,9 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## skip the header segment ...
   while True: 
     line = fin.readline()
+    if not line:
+      print('ERROR. No end_of_head in file {:}'.format(sys.argv[1]), file=sys.stderr)
+      sys.exit(1)
     print('{:}'.format(line.strip()))
     if line.lstrip().startswith('end_of_head'): break
   
diff --git a/var/icgem/script/gfc_fortran2c.py b/var/icgem/script/gfc_fortran2c.py
index 6d51aec..fec31da 100755
--- a/var/icgem/script/gfc_fortran2c.py
+++ b/var/icgem/script/gfc_fortran2c.py
@@ -21,6 +21,9 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## skip the header segment ...
   while True: 
     line = fin.readline()
+    if not line:
+      print('ERROR. No end_of_head in file {:}'.format(sys.argv[1]), file=sys.stderr)
+      sys.exit(1)
     print('{:}'.format(line.strip()))
     if line.lstrip().startswith('end_of_head'): break
   
-- 
2.43.0


From 256f91a2baa3975ca63584232b3993532dbb9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:42 +0000
Subject: [PATCH 53/57] fix: header of block 4 of a site log was never
 recognised

---
 script/pydoris/pydoris/log/ids_log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index f07ee36..4edc65e 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -21,7 +21,7 @@ IdsLogFileBlocks = {
     1: '1. Site location information',
     2: '2. DORIS antenna and reference point information',
     3: '3. DORIS beacons information',
-    4: '4. ITRF coordinates and velocities of the current DORIS ref. point (YEMB)',
+    4: '4. ITRF coordinates and velocities of the current DORIS ref. point',
     5: '5. IERS colocation information',
     6: '6. Tide Gauge colocation information',
     7: '7. Local site ties',
-- 
2.43.0


From 074df344c602e105586a1132e5a8b53c5fb89c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:04 +0000
Subject: [PATCH 54/57] fix: the error page of a failed download was saved as
 space weather data

---
 script/fetch_celestrak_space_weather_data_csv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/script/fetch_celestrak_space_weather_data_csv.py b/script/fetch_celestrak_space_weather_data_csv.py
index c2753b3..7581888 100755
--- a/script/fetch_celestrak_space_weather_data_csv.py
+++ b/script/fetch_celestrak_space_weather_data_csv.py
@@ -65,6 +65,9 @@ if __name__ == '__main__':
     local = os.path.join(args.save_dir, local_fn)
 
     data = requests.get(remote, allow_redirects=True)
+    if not data.ok:
+        print('ERROR. Failed to download {:}; status {:}'.format(remote, data.status_code), file=sys.stderr)
+        sys.exit(1)
     open(local, 'wb').write(data.content)
 
     sys.exit(0)
-- 
2.43.0


From df8b8d9957f42a084a679df987e93928e2ddfe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:42 +0000
Subject: [PATCH 55/57] fix: partial derivative of the radiation acceleration
 for a coefficient of zero

---
 src/astrodynamics/solar_radiation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/solar_radiation.cpp b/src/astrodynamics/solar_radiation.cpp
index 963a1fb..448616d 100644
--- a/src/astrodynamics/solar_radiation.cpp
+++ b/src/astrodynamics/solar_radiation.cpp
@@ -41,8 +41,9 @@ dso::solar_radiation_acceleration(const Eigen::Matrix<double, 3, 1> &rsat,
   const Eigen::Matrix<double, 3, 1> acceleration =
       C * (Area / mass) * P0 * AU2 * d / D3;
 
-  // partials w.r.t C, see Monentbruck, 7.3.3
-  dadC = acceleration / C;
+  // partials w.r.t C, see Monentbruck, 7.3.3 (do not divide the acceleration
+  // by C, which may well be zero)
+  dadC = (Area / mass) * P0 * AU2 * d / D3;
 
   return acceleration;
 }
-- 
2.43.0


From 8593bf8a2372df2765c8b92c75aa61836ba0b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:23 +0000
Subject: [PATCH 56/57] fix: blank lines of spaces and short continuation lines
 in site logs

---
 script/pydoris/pydoris/log/ids_log_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index 4edc65e..e2bb123 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -74,7 +74,7 @@ class IdsLogFile:
                         ret.append(cdic)
                         cdic = {}
 
-                elif line.startswith("  "):
+                elif line.startswith("  ") and line.strip():
                     l = [l.strip() for l in line.split(":")]
                     ## we would expect that spliting on ':' would give us two
                     ## columns but alas, some string can contain more than one
@@ -91,7 +91,7 @@ class IdsLogFile:
                     cdic[l[0]] = l[1]
                     next_line_read = True
                     line = self.istream_.readline()
-                    while len(line) > 10 and line.startswith("  ") and ":" not in line:
+                    while line.strip() and line.startswith("  ") and ":" not in line:
                         cdic[l[0]] += ' ' + line.strip()
                         line = self.istream_.readline()
 
-- 
2.43.0


From 2f5913c82f0b588d6f27a02134ecdf9adf8624e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:23 +0000
Subject: [PATCH 57/57] fix: heights without a digit before the point in site
 logs were read as zero

---
 script/pydoris/pydoris/log/ids_log_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index e2bb123..39a0daa 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -125,11 +125,11 @@ def dump_log_antenna_info(logfn,fout=sys.stdout):
     for subblock in lofd:
         name = subblock["Four character ID"]
         height_str = subblock["Height above ground mark"]
-        m = re.match(r"([+-]?[0-9]+(?:\.[0-9]+)?)?\s*m", height_str)
+        m = re.match(r"([+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))?\s*m", height_str)
         ## Guard against the case where no explicit "m" (aka meters) character
         ## is present. Produce a warning though
         if not m:
-            m = re.match(r"([+-]?[0-9]+(?:\.[0-9]+)?)?\s*", height_str)
+            m = re.match(r"([+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))?\s*", height_str)
             if not m:
                 errmsg = "ERROR. Failed to parse height from string \'{}\' (file {:})".format(height_str,logfn)
                 raise RuntimeError(errmsg)
-- 
2.43.0


From 07d2c0025f0e9202152b6a93a6a8c64ebdb755ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:52 +0000
Subject: [PATCH 01/21] fix: quadrature order-cap advisory flags are set from
 several threads

The one-shot flags were plain bools read and written inside OpenMP regions:
a data race, and the once-per-process advisory could be printed repeatedly.
---
 libhelfem/src/FiniteElementBasis.cpp | 6 +++---
 libhelfem/src/RadialBasis.cpp        | 6 +++---
 src/diatomic/basis.cpp               | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/libhelfem/src/FiniteElementBasis.cpp b/libhelfem/src/FiniteElementBasis.cpp
index 80e686a..840736d 100644
--- a/libhelfem/src/FiniteElementBasis.cpp
+++ b/libhelfem/src/FiniteElementBasis.cpp
@@ -14,6 +14,7 @@
  */
 
 #include "FiniteElementBasis.h"
+#include <atomic>
 #include <sstream>
 #include <lobatto.h>
 #include <algorithm>
@@ -492,7 +493,7 @@ namespace helfem {
     // ----------------------------------------------------------------------
     namespace {
       // Warn at most once per process if a panel hits the order cap.
-      bool auto_matel_cap_warned = false;
+      std::atomic<bool> auto_matel_cap_warned{false};
 
       // Refine one smooth sub-panel [x_left,x_right] (reference coordinates in
       // [-1,1]) until the block is stable to 8*eps(T), doubling the Gauss-
@@ -540,8 +541,7 @@ namespace helfem {
           prev = cur;
           have = true;
           if (n >= nmax) {
-            if (!auto_matel_cap_warned) {
-              auto_matel_cap_warned = true;
+            if (!auto_matel_cap_warned.exchange(true)) {
               printf("Warning: FiniteElementBasis::matrix_element hit the Gauss-Lobatto"
                      " order cap (n=%d) without converging to eps(T); using best estimate.\n", nmax);
               fflush(stdout);
diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 1e1a020..3129214 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -19,6 +19,7 @@
 #include <chebyshev.h>
 #include <lobatto.h>
 #include <limits>
+#include <atomic>
 // Scalar formatter that prints a T value at its own precision (no truncation
 // to double). Header-only, needs only Matrix.h + std; see src/general/eigen_io.h.
 #include "../../src/general/eigen_io.h"
@@ -79,7 +80,7 @@ namespace helfem {
         /// Order cap for the refinement loop.
         const int twoe_nmax = 512;
         /// Warn at most once per process if a primitive hits the order cap.
-        bool twoe_cap_warned = false;
+        std::atomic<bool> twoe_cap_warned{false};
 
         /// Refine `eval(n)` -- which must build its own n-point Lobatto
         /// rule -- by doubling n from nstart until the returned block is
@@ -148,8 +149,7 @@ namespace helfem {
             prev = cur;
             have = true;
             if (n >= twoe_nmax) {
-              if (!twoe_cap_warned) {
-                twoe_cap_warned = true;
+              if (!twoe_cap_warned.exchange(true)) {
                 printf("Warning: FEMRadialBasis::%s hit the Gauss-Lobatto order"
                        " cap (n=%d) without converging to eps(T); using best"
                        " estimate.\n", what, twoe_nmax);
diff --git a/src/diatomic/basis.cpp b/src/diatomic/basis.cpp
index 196946c..39d5240 100644
--- a/src/diatomic/basis.cpp
+++ b/src/diatomic/basis.cpp
@@ -30,6 +30,7 @@
 #include "utils.h"
 #include "../general/timer.h"
 #include "../general/scf_helpers.h"
+#include <atomic>
 #include <algorithm>
 #include <sstream>
 #include <string>
@@ -100,7 +101,7 @@ namespace helfem {
         /// Order cap for the refinement loop.
         const int twoe_nmax = 512;
         /// Warn at most once per process if the refinement hits the order cap.
-        bool twoe_cap_warned = false;
+        std::atomic<bool> twoe_cap_warned{false};
 
         /// Refine `probe(n)` -- which must rebuild its block using its own
         /// n-point Gauss-Chebyshev rule -- by doubling n from nstart until the
@@ -185,8 +186,7 @@ namespace helfem {
                 if(nconv) *nconv = std::max(nstart, 2);
                 return seed;
               }
-              if(!twoe_cap_warned) {
-                twoe_cap_warned = true;
+              if(!twoe_cap_warned.exchange(true)) {
                 printf("Warning: diatomic %s hit the quadrature order cap"
                        " (n=%d) without converging to eps(double); using best"
                        " estimate.\n", what, twoe_nmax);
-- 
2.43.0


From 2ac07db2ccdcda2faecb6b0b8739b146f3509e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:22 +0000
Subject: [PATCH 02/21] fix: concurrent xc_screening calls race on the cached
 functional handles

---
 src/general/atomdb.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/general/atomdb.cpp b/src/general/atomdb.cpp
index 6c8fc3b..251a045 100644
--- a/src/general/atomdb.cpp
+++ b/src/general/atomdb.cpp
@@ -17,6 +17,7 @@
 #include "dftfuncs.h"
 #include <lobatto.h>
 #include <xc.h>
+#include <memory>
 #include <utility>
 #include <sstream>
 #include <stdexcept>
@@ -335,8 +336,14 @@ namespace helfem {
       if (rho[0] <= 0.0)
         return 0.0;
 
-      if (!xc_ || xc_->x_func != x_func || xc_->c_func != c_func)
-        xc_ = std::make_shared<XCFunctionals>(x_func, c_func);
+      // The handles are a cache in a const object that several threads may
+      // share: work on a reference of our own, and swap the cached one
+      // atomically.
+      std::shared_ptr<XCFunctionals> xc = std::atomic_load(&xc_);
+      if (!xc || xc->x_func != x_func || xc->c_func != c_func) {
+        xc = std::make_shared<XCFunctionals>(x_func, c_func);
+        std::atomic_store(&xc_, xc);
+      }
 
       // The density derivatives are only worth having if something asks
       // for them. The Laplacian in particular costs two orders of
@@ -345,7 +352,7 @@ namespace helfem {
       // 150x slower than it needed to be.
       double grad[2] = {0.0, 0.0}, lapl[2] = {0.0, 0.0};
       double sigma[3] = {0.0, 0.0, 0.0};
-      if (xc_->any_gga) {
+      if (xc->any_gga) {
         grad[0] = grad[1] = 0.5 * density_gradient(r);
         lapl[0] = lapl[1] = 0.5 * density_laplacian(r);
         // Reduced gradients, in libxc's (aa, ab, bb) order.
@@ -360,7 +367,7 @@ namespace helfem {
       double v2sigma2[6] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
       bool do_gga = false;
 
-      for (const auto & fp : xc_->funcs) {
+      for (const auto & fp : xc->funcs) {
         const xc_func_type & f = fp.first;
         double v[2] = {0.0, 0.0};
         if (fp.second) {
-- 
2.43.0


From 4a4dc81c9aa6415b70594cade8305b5012ed174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:39 +0000
Subject: [PATCH 03/21] fix: off-center nuclei can miss the element boundary by
 rounding

---
 src/atomic/basis.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atomic/basis.cpp b/src/atomic/basis.cpp
index 31dece3..fe34dd4 100644
--- a/src/atomic/basis.cpp
+++ b/src/atomic/basis.cpp
@@ -104,6 +104,9 @@ namespace helfem {
         helfem::Vector bval;
         if(b0used && b1used) {
           bval=concatenate_grid(bval0,bval1);
+          // b0 + (b1-b0) need not round to b1, but the off-center nucleus
+          // has to be exactly at an element boundary
+          bval(bval.size()-1)=b1;
         } else if(b0used) {
           bval=bval0;
         } else if(b1used) {
-- 
2.43.0


From e2e47359735b6793b7fde8d3db9924d3032bdb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:10 +0000
Subject: [PATCH 04/21] fix: checkpoint accesses ignored HDF5 read, write,
 flush and close errors

A failed H5Dwrite/H5Dclose/H5Fflush/H5Fclose (full disk, I/O error) went
unnoticed and the checkpoint silently lost data; a failed H5Dread left the
output zeroed or uninitialised; a failed H5Lexists counted as "exists".
---
 src/general/checkpoint.cpp | 91 ++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 42 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index b266376..56d1f43 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -15,6 +15,7 @@
 
 #include "checkpoint.h"
 #include "PolynomialBasis.h"
+#include <iostream>
 #include <istream>
 
 // Helper macros
@@ -89,8 +90,14 @@ Checkpoint::Checkpoint(const std::string & fname, bool writem, bool trunc) {
 }
 
 Checkpoint::~Checkpoint() {
-  if(opend)
-    close();
+  if(opend) {
+    // A destructor must not throw; close() explicitly to see the error.
+    try {
+      close();
+    } catch(const std::exception & e) {
+      std::cerr << e.what();
+    }
+  }
 }
 
 void Checkpoint::open() {
@@ -115,15 +122,15 @@ void Checkpoint::open() {
 
 void Checkpoint::close() {
   if(opend) {
-    H5Fclose(file);
     opend=false;
+    hdf5_check(H5Fclose(file), "H5Fclose", filename);
   } else
     throw std::runtime_error("Trying to close file that has already been closed!\n");
 }
 
 void Checkpoint::flush() {
   if(opend && writemode)
-      H5Fflush(file,H5F_SCOPE_GLOBAL);
+      hdf5_check(H5Fflush(file,H5F_SCOPE_GLOBAL), "H5Fflush", filename);
 }
 
 bool Checkpoint::is_open() const {
@@ -137,7 +144,7 @@ bool Checkpoint::exist(const std::string & name) {
     open();
   }
 
-  bool ret=H5Lexists(file, name.c_str(), H5P_DEFAULT);
+  bool ret=hdf5_check(H5Lexists(file, name.c_str(), H5P_DEFAULT), "H5Lexists", name);
 
   if(cl) close();
 
@@ -155,7 +162,7 @@ void Checkpoint::remove(const std::string & name) {
 
   if(exist(name)) {
     // Remove the entry from the file.
-    H5Ldelete(file, name.c_str(), H5P_DEFAULT);
+    hdf5_check(H5Ldelete(file, name.c_str(), H5P_DEFAULT), "H5Ldelete", name);
   }
 
   if(cl) close();
@@ -193,10 +200,10 @@ void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   H5Tclose(datatype);
   H5Sclose(dataspace);
   if(cl) close();
@@ -246,14 +253,14 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
   // float-on-disk; HDF5 converts the disk type to the T memory type on
   // read, so a double .chk loads into a long double / _Float128 run.
   m=helfem::Mat<T>::Zero(dims[1],dims[0]);
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
   // Close datatype
   H5Tclose(datatype);
   // Close dataset
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
 
   if(cl) close();
 }
@@ -307,10 +314,10 @@ void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   H5Tclose(datatype);
   H5Sclose(dataspace);
   if(cl) close();
@@ -347,14 +354,14 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // Allocate memory. dims are {n_rows, n_cols} (see write); the
   // column-major buffer is read straight into .data().
   m=Eigen::MatrixXi::Zero(dims[0],dims[1]);
-  H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
   // Close datatype
   H5Tclose(datatype);
   // Close dataset
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
 
   if(cl) close();
 }
@@ -388,10 +395,10 @@ void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0])), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   H5Tclose(datatype);
   H5Sclose(dataspace);
   if(cl) close();
@@ -438,14 +445,14 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   // Allocate memory. HDF5 converts the disk float type to the T memory
   // type on read, so a double-on-disk array loads into any T.
   v.resize(dims[0]);
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  hdf5_check(H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0])), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
   // Close datatype
   H5Tclose(datatype);
   // Close dataset
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   if(cl) close();
 }
 
@@ -475,10 +482,10 @@ void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v)
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0])), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   H5Tclose(datatype);
   H5Sclose(dataspace);
   if(cl) close();
@@ -523,14 +530,14 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
 
   // Allocate memory
   v.resize(dims[0]);
-  H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0])), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
   // Close datatype
   H5Tclose(datatype);
   // Close dataset
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   if(cl) close();
 }
 
@@ -709,10 +716,10 @@ void Checkpoint::write(const std::string & name, T val) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   H5Tclose(datatype);
   H5Sclose(dataspace);
   if(cl) close();
@@ -751,14 +758,14 @@ void Checkpoint::read(const std::string & name, T & v) {
 
   // Read. HDF5 converts the disk float type to the T memory type, so a
   // double-on-disk scalar loads into any T.
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
   // Close datatype
   H5Tclose(datatype);
   // Close dataset
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   if(cl) close();
 }
 
@@ -785,10 +792,10 @@ void Checkpoint::write(const std::string & name, int val) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   H5Tclose(datatype);
   H5Sclose(dataspace);
   if(cl) close();
@@ -822,14 +829,14 @@ void Checkpoint::read(const std::string & name, int & v) {
     throw std::runtime_error("Error - dataspace is not of scalar type!\n");
 
   // Read
-  H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
   // Close datatype
   H5Tclose(datatype);
   // Close dataset
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   if(cl) close();
 }
 
@@ -855,10 +862,10 @@ void Checkpoint::write(const std::string & name, hsize_t val) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   H5Tclose(datatype);
   H5Sclose(dataspace);
   if(cl) close();
@@ -892,14 +899,14 @@ void Checkpoint::read(const std::string & name, hsize_t & v) {
     throw std::runtime_error("Error - dataspace is not of scalar type!\n");
 
   // Read
-  H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
   // Close datatype
   H5Tclose(datatype);
   // Close dataset
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   if(cl) close();
 }
 
@@ -937,10 +944,10 @@ void Checkpoint::write_hbool(const std::string & name, hbool_t val) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   H5Tclose(datatype);
   H5Sclose(dataspace);
   if(cl) close();
@@ -969,14 +976,14 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
     throw std::runtime_error("Error - dataspace is not of scalar type!\n");
 
   // Read
-  H5Dread(dataset, H5T_NATIVE_HBOOL, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_HBOOL, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
   // Close datatype
   H5Tclose(datatype);
   // Close dataset
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
 
   if(cl) close();
 }
@@ -1007,10 +1014,10 @@ void Checkpoint::write(const std::string & name, const std::string & val) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, val.c_str());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, val.c_str()), "H5Dwrite", name);
 
   // Close everything.
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   H5Tclose(datatype);
   H5Sclose(dataspace);
   if(cl) close();
@@ -1055,7 +1062,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
 
   // Allocate work memory
   char *wrk=(char *)malloc(dims[0]*sizeof(char));
-  H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk), "H5Dread", name);
   val=std::string(wrk);
   free(wrk);
 
@@ -1064,7 +1071,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   // Close datatype
   H5Tclose(datatype);
   // Close dataset
-  H5Dclose(dataset);
+  hdf5_check(H5Dclose(dataset), "H5Dclose", name);
   if(cl) close();
 }
 
-- 
2.43.0


From ad495d9520d185cb3132d33cf38880c70411d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:27 +0000
Subject: [PATCH 05/21] fix: failed checkpoint accesses left objects and the
 file open

---
 src/general/checkpoint.cpp | 53 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index 56d1f43..ea687bf 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -16,6 +16,7 @@
 #include "checkpoint.h"
 #include "PolynomialBasis.h"
 #include <iostream>
+#include <exception>
 #include <istream>
 
 // Helper macros
@@ -37,6 +38,34 @@ namespace {
     return id;
   }
 
+  // Keeps the promise "an open file will be left open, a closed file will
+  // be left closed" when an access ends in an exception: releases the
+  // objects the access had opened in the file, and closes the file again
+  // if the access opened it.
+  class AccessGuard {
+    Checkpoint & chk;
+    hid_t file;
+    bool cl;
+    int nexc;
+  public:
+    AccessGuard(Checkpoint & chk_, hid_t file_, bool cl_) : chk(chk_), file(file_), cl(cl_), nexc(std::uncaught_exceptions()) {}
+    ~AccessGuard() {
+      if(std::uncaught_exceptions() <= nexc || !chk.is_open())
+        return;
+      const unsigned types=H5F_OBJ_DATASET|H5F_OBJ_DATATYPE|H5F_OBJ_LOCAL;
+      hid_t ids[16];
+      ssize_t nids=H5Fget_obj_ids(file,types,16,ids);
+      for(ssize_t i=0;i<nids;i++)
+        H5Idec_ref(ids[i]);
+      if(cl)
+        try {
+          chk.close();
+        } catch(const std::exception & e) {
+          std::cerr << e.what();
+        }
+    }
+  };
+
   // HDF5 datatype selector for the templated floating-point I/O. Returns
   // the HDF5 *native* (in-memory) datatype matching the C++ scalar T; the
   // write path H5Tcopy()s this for the on-disk (file) datatype, so the
@@ -143,6 +172,7 @@ bool Checkpoint::exist(const std::string & name) {
     cl=true;
     open();
   }
+  AccessGuard guard(*this,file,cl);
 
   bool ret=hdf5_check(H5Lexists(file, name.c_str(), H5P_DEFAULT), "H5Lexists", name);
 
@@ -159,6 +189,7 @@ void Checkpoint::remove(const std::string & name) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   if(exist(name)) {
     // Remove the entry from the file.
@@ -177,6 +208,7 @@ void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Remove possible existing entry
   remove(name);
@@ -216,6 +248,7 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
   CHECK_EXIST();
 
   // Open the dataset.
@@ -292,6 +325,7 @@ void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Remove possible existing entry
   remove(name);
@@ -329,6 +363,7 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
   CHECK_EXIST();
 
   // Open the dataset.
@@ -375,6 +410,7 @@ void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Remove possible existing entry
   remove(name);
@@ -411,6 +447,7 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
   CHECK_EXIST();
 
   // Open the dataset.
@@ -463,6 +500,7 @@ void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v)
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Remove possible existing entry
   remove(name);
@@ -497,6 +535,7 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
   CHECK_EXIST();
 
   // Open the dataset.
@@ -548,6 +587,7 @@ void Checkpoint::write(const helfem::atomic::basis::TwoDBasis & basis) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Atomic calculation
   write("HelFEM_ID",1);
@@ -581,6 +621,7 @@ void Checkpoint::read(helfem::atomic::basis::TwoDBasis & basis) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Atomic calculation
   int id;
@@ -630,6 +671,7 @@ void Checkpoint::write(const helfem::diatomic::basis::TwoDBasis & basis) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Atomic calculation
   write("HelFEM_ID",2);
@@ -658,6 +700,7 @@ void Checkpoint::read(helfem::diatomic::basis::TwoDBasis & basis) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Atomic calculation
   int id;
@@ -700,6 +743,7 @@ void Checkpoint::write(const std::string & name, T val) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Remove possible existing entry
   remove(name);
@@ -732,6 +776,7 @@ void Checkpoint::read(const std::string & name, T & v) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
   CHECK_EXIST();
 
   // Open the dataset.
@@ -777,6 +822,7 @@ void Checkpoint::write(const std::string & name, int val) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Remove possible existing entry
   remove(name);
@@ -807,6 +853,7 @@ void Checkpoint::read(const std::string & name, int & v) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
   CHECK_EXIST();
 
   // Open the dataset.
@@ -847,6 +894,7 @@ void Checkpoint::write(const std::string & name, hsize_t val) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Remove possible existing entry
   remove(name);
@@ -877,6 +925,7 @@ void Checkpoint::read(const std::string & name, hsize_t & v) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
   CHECK_EXIST();
 
   // Open the dataset.
@@ -929,6 +978,7 @@ void Checkpoint::write_hbool(const std::string & name, hbool_t val) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Remove possibly existing entry
   remove(name);
@@ -959,6 +1009,7 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
   CHECK_EXIST();
 
   // Open the dataset.
@@ -995,6 +1046,7 @@ void Checkpoint::write(const std::string & name, const std::string & val) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
 
   // Remove possibly existing entry
   remove(name);
@@ -1029,6 +1081,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
     open();
     cl=true;
   }
+  AccessGuard guard(*this,file,cl);
   CHECK_EXIST();
 
   // Open the dataset.
-- 
2.43.0


From 6d3f67885b9fa77e142aeae51e917ca24b906333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:38 +0000
Subject: [PATCH 06/21] fix: checkpoint reads accepted entries of another type
 and cut text at a null character

---
 src/general/checkpoint.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index ea687bf..e2cf768 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -372,6 +372,11 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // Get the data type
   hid_t datatype = H5Dget_type(dataset);
 
+  // Get the class info
+  hid_t hclass=H5Tget_class(datatype);
+  if(hclass!=H5T_INTEGER)
+    throw std::runtime_error("Error - datatype is not integer!\n");
+
   // Get dataspace
   hid_t dataspace = H5Dget_space(dataset);
   // Get number of dimensions
@@ -547,7 +552,8 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
 
-  if(hclass!=H5T_INTEGER) {
+  // (text is stored as a vector of one-byte integers)
+  if(hclass!=H5T_INTEGER || H5Tget_size(datatype)==1) {
     std::ostringstream oss;
     oss << "Error - " << name << " is not an integer value!\n";
     throw std::runtime_error(oss.str());
@@ -1021,6 +1027,11 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
   // Get dataspace
   hid_t dataspace = H5Dget_space(dataset);
 
+  // Get the class info
+  hid_t hclass=H5Tget_class(datatype);
+  if(hclass!=H5T_INTEGER)
+    throw std::runtime_error("Error - datatype is not integer!\n");
+
   // Get type
   H5S_class_t type = H5Sget_simple_extent_type(dataspace);
   if(type!=H5S_SCALAR)
@@ -1093,7 +1104,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   // Get the class info
   hid_t hclass=H5Tget_class(datatype);
 
-  if(hclass!=H5T_INTEGER) {
+  if(hclass!=H5T_INTEGER || H5Tget_size(datatype)!=1) {
     std::ostringstream oss;
     oss << "Error - " << name << " does not consist of characters!\n";
     throw std::runtime_error(oss.str());
@@ -1113,11 +1124,14 @@ void Checkpoint::read(const std::string & name, std::string & val) {
   hsize_t dims[ndim];
   H5Sget_simple_extent_dims(dataspace,dims,NULL);
 
+  if(dims[0]==0)
+    throw std::runtime_error("Error - " + name + " does not consist of characters!\n");
+
   // Allocate work memory
-  char *wrk=(char *)malloc(dims[0]*sizeof(char));
-  hdf5_check(H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk), "H5Dread", name);
-  val=std::string(wrk);
-  free(wrk);
+  std::vector<char> wrk(dims[0]);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk.data()), "H5Dread", name);
+  // The stored text is terminated by a null character
+  val.assign(wrk.data(),dims[0]-1);
 
   // Close dataspace
   H5Sclose(dataspace);
-- 
2.43.0


From 9fa814cea4714f83e7471b6a68759fc1bb1e7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:47 +0000
Subject: [PATCH 07/21] fix: opening a checkpoint for appending could truncate
 an existing file

---
 src/general/checkpoint.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index e2cf768..383c1b2 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -106,8 +106,9 @@ Checkpoint::Checkpoint(const std::string & fname, bool writem, bool trunc) {
   opend=false;
 
   if(writemode && (trunc || !file_exists(fname))) {
-    // Truncate existing file, using default creation and access properties.
-    file=hdf5_check(H5Fcreate(fname.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT), "H5Fcreate", fname);
+    // Create the file, using default creation and access properties. An
+    // existing file is only truncated if that was asked for.
+    file=hdf5_check(H5Fcreate(fname.c_str(),trunc ? H5F_ACC_TRUNC : H5F_ACC_EXCL,H5P_DEFAULT,H5P_DEFAULT), "H5Fcreate", fname);
     opend=true;
 
     // Close the file
-- 
2.43.0


From 45e83d2b34da417a0dc2d055369ceb7c2e949e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:52 +0000
Subject: [PATCH 08/21] fix: elapsed times followed steps of the wall clock

---
 src/general/timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general/timer.cpp b/src/general/timer.cpp
index 75e8d6a..8c4475d 100644
--- a/src/general/timer.cpp
+++ b/src/general/timer.cpp
@@ -44,7 +44,7 @@ void Timer::read(struct timespec *t) const {
   t->tv_sec = mts.tv_sec;
   t->tv_nsec = mts.tv_nsec;
 #else
-  clock_gettime(CLOCK_REALTIME,t);
+  clock_gettime(CLOCK_MONOTONIC,t);
 #endif
 }
 
-- 
2.43.0


From d360c9b4acf0ceb59627af487bbaef4e95100489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:52 +0000
Subject: [PATCH 09/21] fix: text dumps and tables ignored write errors and
 malformed input

---
 src/general/eigen_io.h      | 19 ++++++++++++++++---
 src/general/scf_helpers.cpp | 20 ++++++++++++++++----
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/general/eigen_io.h b/src/general/eigen_io.h
index ce0eb13..c0f572d 100644
--- a/src/general/eigen_io.h
+++ b/src/general/eigen_io.h
@@ -98,6 +98,10 @@ namespace helfem {
       out.precision(prec);
       for (Eigen::Index i = 0; i < m.rows(); ++i)
         detail::write_raw_row<T>(out, m, i, width);
+      // The last of the data is only written out when the file is closed.
+      out.close();
+      if (!out)
+        throw std::runtime_error("Error writing " + path + ".");
     }
 
     template <typename T>
@@ -109,7 +113,8 @@ namespace helfem {
     /// Eigen::MatrixXi, matching arma::imat::load(path, arma::raw_ascii):
     /// one row per non-blank line, columns split on whitespace, row count
     /// and column count auto-detected. Throws if the file cannot be opened
-    /// or the rows have inconsistent column counts.
+    /// or read, an entry is not an integer, or the rows have inconsistent
+    /// column counts.
     inline Eigen::MatrixXi read_raw_ascii_imat(const std::string & path) {
       std::ifstream in(path);
       if (!in)
@@ -119,10 +124,18 @@ namespace helfem {
       while (std::getline(in, line)) {
         std::istringstream iss(line);
         std::vector<int> row;
-        int v;
-        while (iss >> v) row.push_back(v);
+        std::string word;
+        while (iss >> word) {
+          std::istringstream entry(word);
+          int v;
+          if (!(entry >> v) || !entry.eof())
+            throw std::runtime_error(path + ": \"" + word + "\" is not an integer.");
+          row.push_back(v);
+        }
         if (!row.empty()) rows.push_back(row);
       }
+      if (in.bad())
+        throw std::runtime_error("Error reading " + path + ".");
       if (rows.empty()) return Eigen::MatrixXi();
       const Eigen::Index nr = static_cast<Eigen::Index>(rows.size());
       const Eigen::Index nc = static_cast<Eigen::Index>(rows[0].size());
diff --git a/src/general/scf_helpers.cpp b/src/general/scf_helpers.cpp
index b89ccbf..e427b29 100644
--- a/src/general/scf_helpers.cpp
+++ b/src/general/scf_helpers.cpp
@@ -171,14 +171,26 @@ namespace helfem {
       }
 
       std::vector<double> vals;
+      auto parse = [&](std::istream & in) {
+        std::string word;
+        while (in >> word) {
+          std::istringstream entry(word);
+          double x;
+          if (!(entry >> x) || !entry.eof())
+            throw std::runtime_error("Parameter \"" + word + "\" is not a number.");
+          vals.push_back(x);
+        }
+        if (in.bad())
+          throw std::runtime_error("Error reading parameters from " + input + ".");
+      };
       if (isfile) {
         std::ifstream f(input.c_str());
-        double x;
-        while (f >> x) vals.push_back(x);
+        if (!f)
+          throw std::runtime_error("Could not open " + input + " for reading.");
+        parse(f);
       } else {
         std::istringstream iss(input);
-        double x;
-        while (iss >> x) vals.push_back(x);
+        parse(iss);
       }
 
       r.resize(static_cast<Eigen::Index>(vals.size()));
-- 
2.43.0


From a2ad7acdac4f031e5e53a222f84ae4832dd782d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:51 +0000
Subject: [PATCH 10/21] fix: a restart file without all its density blocks was
 read as if they were zero

---
 src/sadatom/scf.cpp | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 2cc312e..e4d396f 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -440,33 +440,18 @@ namespace helfem {
           // stored on disk as sadatom_Pal_l (helfem::Matrix, Nrad_old^2).
           const int old_nblock_read = old_lmax + 1;
           helfem::Cube Pal_old;
-          if (loadchk.exist("sadatom_Pal_0")) {
-            helfem::Matrix slice0;
-            loadchk.read("sadatom_Pal_0", slice0);
-            Pal_old.assign(old_nblock_read, helfem::Matrix::Zero(slice0.rows(), slice0.cols()));
-            Pal_old[0] = slice0;
-            for (int l = 1; l < old_nblock_read; ++l) {
-              const std::string key = std::string("sadatom_Pal_") + std::to_string(l);
-              helfem::Matrix sl;
-              if (loadchk.exist(key)) {
-                loadchk.read(key, sl);
-                Pal_old[l] = sl;
-              }
-            }
+          Pal_old.resize(old_nblock_read);
+          for (int l = 0; l < old_nblock_read; ++l) {
+            const std::string key = std::string("sadatom_Pal_") + std::to_string(l);
+            loadchk.read(key, Pal_old[l]);
           }
           helfem::Cube Pbl_old;
-          if (!restricted && loadchk.exist("sadatom_Pbl_0")) {
-            helfem::Matrix slice0;
-            loadchk.read("sadatom_Pbl_0", slice0);
-            Pbl_old.assign(old_nblock_read, helfem::Matrix::Zero(slice0.rows(), slice0.cols()));
-            Pbl_old[0] = slice0;
-            for (int l = 1; l < old_nblock_read; ++l) {
+          // (a restricted calculation stores no beta density)
+          if (!restricted && (loadchk.exist("sadatom_Pbl_0") || loadchk.exist("sadatom_occs_b"))) {
+            Pbl_old.resize(old_nblock_read);
+            for (int l = 0; l < old_nblock_read; ++l) {
               const std::string key = std::string("sadatom_Pbl_") + std::to_string(l);
-              helfem::Matrix sl;
-              if (loadchk.exist(key)) {
-                loadchk.read(key, sl);
-                Pbl_old[l] = sl;
-              }
+              loadchk.read(key, Pbl_old[l]);
             }
           }
 
-- 
2.43.0


From 30ce489230d6b1bf9632ae9725a9d6e4e2281135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:58 +0000
Subject: [PATCH 11/21] fix: --load diagonalised the restart density in the
 wrong metric

---
 src/sadatom/scf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index e4d396f..555de49 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -469,7 +469,9 @@ namespace helfem {
             } else {
               Pl_new = helfem::Matrix::Zero(Nrad, Nrad);
             }
-            const helfem::Matrix Porth = Sinvh_full.transpose() * Pl_new * Sinvh_full;
+            // P = C n C^T with C = Sinvh U, so U n U^T = (S Sinvh)^T P (S Sinvh)
+            const helfem::Matrix SX = S_new * Sinvh_full;
+            const helfem::Matrix Porth = SX.transpose() * Pl_new * SX;
             Eigen::SelfAdjointEigenSolver<helfem::Matrix> es(Porth);
             if (es.info() != Eigen::Success)
               throw std::logic_error("--load: eigendecomposition of projected l block density failed");
-- 
2.43.0


From 42c972ba48453b6262962fc9911c3608118291d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:26 +0000
Subject: [PATCH 12/21] fix: atomic/diatomic --load built the restart orbitals
 in the wrong metric

The density was transformed to the orthonormal basis with Sinvh^T P Sinvh
instead of (S Sinvh)^T P (S Sinvh), so the orbitals and occupations handed
to the SCF solver did not reproduce the loaded density, nor the number of
electrons.
---
 src/atomic/main.cpp             |  8 ++++----
 src/diatomic/main.cpp           |  6 +++---
 src/general/scf_driver_common.h | 12 +++++++++---
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index 57ce0d9..8c44cb1 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -623,7 +623,7 @@ int main(int argc, char **argv) {
     // Build per-block (orbitals, occupations) for OOO from the
     // projected density. For a block k with basis-function index set
     // dsym[k] and orthonormaliser Sinvh_k, we diagonalise
-    //   P_orth = Sinvh_k^T . P_spin(dsym[k], dsym[k]) . Sinvh_k
+    //   P_orth = (S_k . Sinvh_k)^T . P_spin(dsym[k], dsym[k]) . (S_k . Sinvh_k)
     // and hand OOO the eigenvectors (orthonormal orbitals in the
     // block basis) and eigenvalues (per-orbital occupations, sorted
     // largest first for Aufbau semantics).
@@ -636,13 +636,13 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, S, dsym[k], Sinvh[k], max_occ_restr);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, S, dsym[k], Sinvh[k], max_occ_open);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, S, dsym[k], Sinvh[k], max_occ_open);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 9ed9424..b76df73 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -633,13 +633,13 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, S, dsym[k], Sinvh[k], max_occ_restr);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, S, dsym[k], Sinvh[k], max_occ_open);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, S, dsym[k], Sinvh[k], max_occ_open);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index a2ac755..ac725e0 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -222,14 +222,19 @@ namespace helfem {
     /// blocks become 0x0 placeholders. Called per spin channel and
     /// per block from the driver's --load path.
     ///
-    ///   P_orth = Sinvh_k^T . Pspin(dsym[k], dsym[k]) . Sinvh_k
+    ///   P_orth = (S_k Sinvh_k)^T . Pspin(dsym[k], dsym[k]) . (S_k Sinvh_k)
     ///          -> V, w  (descending); w clamped to [0, max_occ]
+    ///
+    /// where S_k = S(dsym[k], dsym[k]): since Sinvh_k^T S_k Sinvh_k = 1,
+    /// the inverse of the transform from the orthonormal to the AO basis,
+    /// C_ao = Sinvh_k . C_orth, is Sinvh_k^T S_k.
     template <typename Real>
     inline void fill_block_from_density(
         size_t out_index,
         OpenOrbitalOptimizer::Orbitals<Real> & orbs,
         OpenOrbitalOptimizer::OrbitalOccupations<Real> & occs,
-        const helfem::Matrix & Pspin, const std::vector<Eigen::Index> & idx,
+        const helfem::Matrix & Pspin, const helfem::Matrix & S,
+        const std::vector<Eigen::Index> & idx,
         const helfem::Matrix & Sinvh_block, double max_occ) {
       if (idx.empty()) {
         orbs[out_index] = helfem::Matrix::Zero(0, 0);
@@ -237,7 +242,8 @@ namespace helfem {
         return;
       }
       const helfem::Matrix Pblk  = Pspin(idx, idx);
-      const helfem::Matrix Porth = Sinvh_block.transpose() * Pblk * Sinvh_block;
+      const helfem::Matrix SX    = S(idx, idx) * Sinvh_block;
+      const helfem::Matrix Porth = SX.transpose() * Pblk * SX;
       // SelfAdjointEigenSolver returns eigenvalues in ascending order;
       // reverse for descending (largest occupation first), matching the
       // old symmetric-eigensolver + manual reversal.
-- 
2.43.0


From e4f27636d5698dfa95dc636652428d832dfeb0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:59 +0000
Subject: [PATCH 13/21] fix: density_line reported success when its output
 could not be written

---
 src/diatomic/density_line.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diatomic/density_line.cpp b/src/diatomic/density_line.cpp
index 7c36e48..83945ee 100644
--- a/src/diatomic/density_line.cpp
+++ b/src/diatomic/density_line.cpp
@@ -24,6 +24,7 @@
 #include <climits>
 #include <complex>
 #include <fstream>
+#include <stdexcept>
 
 using namespace helfem;
 
@@ -101,6 +102,10 @@ int main(int argc, char **argv) {
     }
     out << "\n";
   }
+  // The last of the data is only written out when the file is closed.
+  out.close();
+  if (!out)
+    throw std::runtime_error("Error writing " + savedens + ".\n");
 
   return 0;
 }
-- 
2.43.0


From f19cada5ca80372113e7e28cee3a82f117ce3174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:59 +0000
Subject: [PATCH 14/21] fix: aij reported success when its Fock matrix or
 orbitals could not be written

---
 src/sadatom/aij.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sadatom/aij.cpp b/src/sadatom/aij.cpp
index e512259..b084f3a 100644
--- a/src/sadatom/aij.cpp
+++ b/src/sadatom/aij.cpp
@@ -598,6 +598,10 @@ int main(int argc, char **argv) {
           out << " " << fock[i](r,c);
         out << "\n";
       }
+    // The last of the data is only written out when the file is closed.
+    out.close();
+    if(!out)
+      throw std::runtime_error("Error writing Fock matrix to " + fname + ".\n");
   };
 
   std::function<helfem::Cube(const std::string &)> load_fock = [&](const std::string & fname) {
@@ -728,10 +732,8 @@ int main(int argc, char **argv) {
 
     auto save_data = [&](const std::string & fname, const std::vector<helfem::Matrix> & data) {
       FILE *out = fopen(fname.c_str(),"w");
-      if(!out) {
-        fprintf(stderr,"Failed to open %s for writing\n", fname.c_str());
-        return;
-      }
+      if(!out)
+        throw std::runtime_error("Failed to open " + fname + " for writing.\n");
       // Header: number of radial points and orbitals
       fprintf(out,"%i %i\n",(int) r.size(),(int) norb);
       // Orbital angular momenta
@@ -762,7 +764,10 @@ int main(int argc, char **argv) {
         }
         fprintf(out,"\n");
       }
-      fclose(out);
+      // The last of the data is only written out when the file is closed.
+      const bool failed = ferror(out) != 0;
+      if(fclose(out) != 0 || failed)
+        throw std::runtime_error("Error writing " + fname + ".\n");
     };
 
     save_data(prefix + "_orbs.dat",      orbval);
-- 
2.43.0


From 78e9ae8d440ab35f447c88dca693ed5fa3082bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:59 +0000
Subject: [PATCH 15/21] fix: aij --loadfock used incomplete files and matrices
 of other dimensions

---
 src/sadatom/aij.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sadatom/aij.cpp b/src/sadatom/aij.cpp
index b084f3a..bccd68c 100644
--- a/src/sadatom/aij.cpp
+++ b/src/sadatom/aij.cpp
@@ -27,6 +27,7 @@
 
 #include <Eigen/Eigenvalues>
 #include <algorithm>
+#include <cctype>
 #include <cfloat>
 #include <fstream>
 #include <sstream>
@@ -611,12 +612,20 @@ int main(int argc, char **argv) {
     size_t nblocks;
     Eigen::Index nrows, ncols;
     in >> nblocks >> nrows >> ncols;
+    if(!in)
+      throw std::runtime_error("Error reading Fock matrix from " + fname + ".\n");
+    if(nrows != Sinvh.cols() || ncols != Sinvh.cols())
+      throw std::logic_error("Guess Fock matrix has unexpected radial dimensions!\n");
+    if(nblocks != (size_t) lmax+1 && nblocks != (size_t) 2*lmax+2)
+      throw std::logic_error("Guess Fock matrix has unexpected angular dimensions!\n");
     helfem::Cube fockmat(nblocks, helfem::Matrix(nrows,ncols));
     for(size_t i=0;i<nblocks;i++)
       for(Eigen::Index r=0;r<nrows;r++)
         for(Eigen::Index c=0;c<ncols;c++)
           in >> fockmat[i](r,c);
-    if(!in)
+    // Every row ends in a newline; without it, the last element of the
+    // file may have lost some of its digits.
+    if(!in || !std::isspace(in.get()))
       throw std::runtime_error("Error reading Fock matrix from " + fname + ".\n");
     return fockmat;
   };
-- 
2.43.0


From 56cbef759e9ececd1c7ebf5e6c703fe6815a3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:44 +0000
Subject: [PATCH 16/21] fix: --load of a spin-averaged one-electron density
 started from 1.5 electrons

---
 src/atomic/main.cpp   | 4 ++--
 src/diatomic/main.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index 8c44cb1..3ede602 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -617,8 +617,8 @@ int main(int argc, char **argv) {
     helfem::Matrix Pb_new = Pproj * Pb_old * Pproj.transpose();
     const double na = (Pa_new * S).trace();
     const double nb = (Pb_new * S).trace();
-    if (na > 0 && nela > 0) Pa_new *= static_cast<double>(nela) / na;
-    if (nb > 0 && nelb > 0) Pb_new *= static_cast<double>(nelb) / nb;
+    if (na > 0) Pa_new *= static_cast<double>(nela) / na;
+    if (nb > 0) Pb_new *= static_cast<double>(nelb) / nb;
 
     // Build per-block (orbitals, occupations) for OOO from the
     // projected density. For a block k with basis-function index set
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index b76df73..e6dd4ee 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -622,8 +622,8 @@ int main(int argc, char **argv) {
     helfem::Matrix Pb_new = Pproj * Pb_old * Pproj.transpose();
     const double na = (Pa_new * S).trace();
     const double nb = (Pb_new * S).trace();
-    if (na > 0 && nela > 0) Pa_new *= static_cast<double>(nela) / na;
-    if (nb > 0 && nelb > 0) Pb_new *= static_cast<double>(nelb) / nb;
+    if (na > 0) Pa_new *= static_cast<double>(nela) / na;
+    if (nb > 0) Pb_new *= static_cast<double>(nelb) / nb;
 
     OpenOrbitalOptimizer::Orbitals<OOO_Real>            loaded_orbs(nsym * nparttype);
     OpenOrbitalOptimizer::OrbitalOccupations<OOO_Real>  loaded_occs(nsym * nparttype);
-- 
2.43.0


From bbab6896b1f2151b3bd868af1da83f071c9a90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:17 +0000
Subject: [PATCH 17/21] fix: an interrupted save of an unrestricted atom was
 restarted from without its beta electrons

---
 src/sadatom/scf.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 555de49..dacfc78 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -609,9 +609,6 @@ namespace helfem {
           savechk.write("sadatom_Nquad",   opts.Nquad);
           savechk.write("sadatom_bval", opts.bval);
 
-          for (size_t l = 0; l < nblock; ++l)
-            savechk.write(std::string("sadatom_Pal_") + std::to_string(l),
-                          result.Pl_a[l]);
           // Occupied orbitals + their exact occupations, per l. Columns
           // whose occupation is numerically zero are dropped: they are
           // the unoccupied remainder of the block and carry no
@@ -651,6 +648,12 @@ namespace helfem {
             for (Eigen::Index i = 0; i < result.occs_b.size(); ++i) ob(i, 0) = result.occs_b(i);
             savechk.write("sadatom_occs_b", ob);
           }
+          // The alpha density, which --load always requires, goes last: a
+          // file left behind by a save that was interrupted is then never
+          // taken for that of a restricted calculation.
+          for (size_t l = 0; l < nblock; ++l)
+            savechk.write(std::string("sadatom_Pal_") + std::to_string(l),
+                          result.Pl_a[l]);
           printf("Saved results to %s\n", opts.save_file.c_str());
         }
 
-- 
2.43.0


From 6e03f3dff183a2ed95b9c82b084ed48e9831bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:00 +0000
Subject: [PATCH 18/21] fix: a restart from fractional shell occupations
 started from integer ones

---
 src/sadatom/scf.cpp | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index dacfc78..1cd0382 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -435,6 +435,7 @@ namespace helfem {
           const helfem::Matrix Sinvh_full = basis.Sinvh();
           const helfem::Matrix Pproj = Sinvh_full * Sinvh_full.transpose() * S12;
           const helfem::Matrix S_new = basis.overlap();
+          const helfem::Matrix S_old = oldbasis.overlap();
 
           // Read per-l density slices back into a cube. Each slice is
           // stored on disk as sadatom_Pal_l (helfem::Matrix, Nrad_old^2).
@@ -455,13 +456,29 @@ namespace helfem {
             }
           }
 
+          // The per-l electron counts stored alongside are rounded; if
+          // present, they have to be those of the density.
+          auto check_counts = [&](const std::string & key, const helfem::Cube & Pcube) {
+            if (!loadchk.exist(key)) return;
+            Eigen::MatrixXi counts;
+            loadchk.read(key, counts);
+            for (Eigen::Index l = 0; l < counts.rows() && l < (Eigen::Index) Pcube.size(); ++l)
+              if (std::abs((Pcube[l] * S_old).trace() - counts(l, 0)) > 0.5 + 1e-6)
+                throw std::logic_error("--load: " + key + " does not match the density");
+          };
+          check_counts("sadatom_occs_a", Pal_old);
+          check_counts("sadatom_occs_b", Pbl_old);
+
           OpenOrbitalOptimizer::Orbitals<OOO_Real>            loaded_orbs(nblock * nparttype);
           OpenOrbitalOptimizer::OrbitalOccupations<OOO_Real>  loaded_occs(nblock * nparttype);
 
           auto fill_l = [&](size_t base, size_t l, const helfem::Cube & Pcube,
-                             double per_l_electrons, double max_occ) {
+                             double max_occ) {
             helfem::Matrix Pl_new;
             if (static_cast<int>(l) <= old_lmax && Pcube.size() > l) {
+              // Conserve the electrons of the saved density in the
+              // projection. Their number need not be an integer.
+              const double per_l_electrons = (Pcube[l] * S_old).trace();
               Pl_new = Pproj * Pcube[l] * Pproj.transpose();
               const double trace_now = (Pl_new * S_new).trace();
               if (trace_now > 0 && per_l_electrons > 0)
@@ -488,33 +505,14 @@ namespace helfem {
             loaded_occs[base + l] = w;
           };
 
-          // Per-l electron counts to renormalise into. Read from
-          // checkpoint if present, else fall back to trace-preserving
-          // (no rescaling). Checkpoint stores integers as N x 1 matrices.
-          Eigen::VectorXi per_l_a, per_l_b;
-          if (loadchk.exist("sadatom_occs_a")) {
-            Eigen::MatrixXi tmp;
-            loadchk.read("sadatom_occs_a", tmp);
-            per_l_a = tmp.col(0);
-          }
-          if (loadchk.exist("sadatom_occs_b")) {
-            Eigen::MatrixXi tmp;
-            loadchk.read("sadatom_occs_b", tmp);
-            per_l_b = tmp.col(0);
-          }
-
           for (size_t l = 0; l < nblock; ++l) {
-            double per_l = (static_cast<int>(l) < per_l_a.size())
-                             ? static_cast<double>(per_l_a(l)) : 0.0;
             double max_occ = restricted ? 2.0 * (2 * l + 1) : (2.0 * l + 1);
-            fill_l(0, l, Pal_old, per_l, max_occ);
+            fill_l(0, l, Pal_old, max_occ);
           }
           if (!restricted) {
             for (size_t l = 0; l < nblock; ++l) {
-              double per_l = (static_cast<int>(l) < per_l_b.size())
-                               ? static_cast<double>(per_l_b(l)) : 0.0;
               double max_occ = 2.0 * l + 1;
-              fill_l(nblock, l, Pbl_old, per_l, max_occ);
+              fill_l(nblock, l, Pbl_old, max_occ);
             }
           }
           scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
-- 
2.43.0


From b8df0b9cd1a3dd332819e81bc72f72bfb0735947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:20 +0000
Subject: [PATCH 19/21] fix: restricted and unrestricted atoms did not start
 from each other's density

---
 src/sadatom/scf.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 1cd0382..1e251c9 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -448,7 +448,7 @@ namespace helfem {
           }
           helfem::Cube Pbl_old;
           // (a restricted calculation stores no beta density)
-          if (!restricted && (loadchk.exist("sadatom_Pbl_0") || loadchk.exist("sadatom_occs_b"))) {
+          if (loadchk.exist("sadatom_Pbl_0") || loadchk.exist("sadatom_occs_b")) {
             Pbl_old.resize(old_nblock_read);
             for (int l = 0; l < old_nblock_read; ++l) {
               const std::string key = std::string("sadatom_Pbl_") + std::to_string(l);
@@ -469,6 +469,18 @@ namespace helfem {
           check_counts("sadatom_occs_a", Pal_old);
           check_counts("sadatom_occs_b", Pbl_old);
 
+          // The saved calculation may have been restricted and this one
+          // not, or the other way around.
+          if (restricted && Pbl_old.size()) {
+            for (int l = 0; l < old_nblock_read; ++l) Pal_old[l] += Pbl_old[l];
+          } else if (!restricted && Pbl_old.empty()) {
+            Pbl_old = Pal_old;
+            for (int l = 0; l < old_nblock_read; ++l) {
+              Pbl_old[l] *= opts.nelb > 0 ? 0.5 : 0.0;
+              Pal_old[l] -= Pbl_old[l];
+            }
+          }
+
           OpenOrbitalOptimizer::Orbitals<OOO_Real>            loaded_orbs(nblock * nparttype);
           OpenOrbitalOptimizer::OrbitalOccupations<OOO_Real>  loaded_occs(nblock * nparttype);
 
-- 
2.43.0


From c75ca0c35b74c9e9071b8047f864dd1794ae204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:20 +0000
Subject: [PATCH 20/21] fix: restart densities of another dimension than the
 basis were used

---
 src/sadatom/scf.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sadatom/scf.cpp b/src/sadatom/scf.cpp
index 1e251c9..fff4042 100644
--- a/src/sadatom/scf.cpp
+++ b/src/sadatom/scf.cpp
@@ -437,6 +437,12 @@ namespace helfem {
           const helfem::Matrix S_new = basis.overlap();
           const helfem::Matrix S_old = oldbasis.overlap();
 
+          // (the checkpoint does not tell all of the boundary conditions)
+          auto check_size = [&](const std::string & key, const helfem::Matrix & P) {
+            if (P.rows() != S_old.rows() || P.cols() != S_old.cols())
+              throw std::logic_error("--load: " + key + " does not match the basis");
+          };
+
           // Read per-l density slices back into a cube. Each slice is
           // stored on disk as sadatom_Pal_l (helfem::Matrix, Nrad_old^2).
           const int old_nblock_read = old_lmax + 1;
@@ -445,6 +451,7 @@ namespace helfem {
           for (int l = 0; l < old_nblock_read; ++l) {
             const std::string key = std::string("sadatom_Pal_") + std::to_string(l);
             loadchk.read(key, Pal_old[l]);
+            check_size(key, Pal_old[l]);
           }
           helfem::Cube Pbl_old;
           // (a restricted calculation stores no beta density)
@@ -453,6 +460,7 @@ namespace helfem {
             for (int l = 0; l < old_nblock_read; ++l) {
               const std::string key = std::string("sadatom_Pbl_") + std::to_string(l);
               loadchk.read(key, Pbl_old[l]);
+              check_size(key, Pbl_old[l]);
             }
           }
 
-- 
2.43.0


From 8db9659cd6582792ba6dbea9f83ab0887eecd563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:48 +0000
Subject: [PATCH 21/21] fix: programs ended successfully although their printed
 output could not be written

---
 src/atomic/main.cpp           |  3 +++
 src/diatomic/1e.cpp           |  3 +++
 src/diatomic/completeness.cpp |  3 +++
 src/diatomic/corebasis.cpp    |  3 +++
 src/diatomic/density_grid.cpp |  3 +++
 src/diatomic/density_line.cpp |  3 +++
 src/diatomic/main.cpp         |  3 +++
 src/general/atomdb_dump.cpp   |  3 +++
 src/general/check_output.h    | 37 +++++++++++++++++++++++++++++++++++
 src/harmonic/main.cpp         |  3 +++
 src/harmonic/morse.cpp        |  3 +++
 src/harmonic/softcoulomb.cpp  |  3 +++
 src/sadatom/1e.cpp            |  3 +++
 src/sadatom/aij.cpp           |  3 +++
 src/sadatom/main.cpp          |  3 +++
 15 files changed, 79 insertions(+)
 create mode 100644 src/general/check_output.h

diff --git a/src/atomic/main.cpp b/src/atomic/main.cpp
index 3ede602..6ebffe4 100644
--- a/src/atomic/main.cpp
+++ b/src/atomic/main.cpp
@@ -30,6 +30,7 @@
 // HF (x_func == 0 && c_func == 0) is still deferred (needs basis.exchange()
 // bridge -- same status as sadatom_ooo / diatomic_ooo).
 
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include "../general/constants.h"
 #include "../general/dftfuncs.h"
@@ -48,6 +49,8 @@
 using namespace helfem;
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   cmdline::parser parser;
 
   parser.add<std::string>("Z", 0, "nuclear charge", true);
diff --git a/src/diatomic/1e.cpp b/src/diatomic/1e.cpp
index 1dac809..e24db76 100644
--- a/src/diatomic/1e.cpp
+++ b/src/diatomic/1e.cpp
@@ -13,6 +13,7 @@
  * for the full license text.
  */
 
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include <helfem.h>
 #include "../general/checkpoint.h"
@@ -32,6 +33,8 @@
 using namespace helfem;
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   // Not a --verbosity driver: opt into the library's setup reporting
   // so this tool prints exactly what it always did.
   helfem::set_verbosity(true);
diff --git a/src/diatomic/completeness.cpp b/src/diatomic/completeness.cpp
index b9833f1..d5b5fd9 100644
--- a/src/diatomic/completeness.cpp
+++ b/src/diatomic/completeness.cpp
@@ -12,6 +12,7 @@
  * See the LICENSE file at the root of this source distribution
  * for the full license text.
  */
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include <helfem.h>
 #include "../general/checkpoint.h"
@@ -30,6 +31,8 @@
 using namespace helfem;
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   // Not a --verbosity driver: opt into the library's setup reporting
   // so this tool prints exactly what it always did.
   helfem::set_verbosity(true);
diff --git a/src/diatomic/corebasis.cpp b/src/diatomic/corebasis.cpp
index c01706f..5c8f9e5 100644
--- a/src/diatomic/corebasis.cpp
+++ b/src/diatomic/corebasis.cpp
@@ -12,6 +12,7 @@
  * See the LICENSE file at the root of this source distribution
  * for the full license text.
  */
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include <helfem.h>
 #include "../general/constants.h"
@@ -172,6 +173,8 @@ void eval(int Z1, int Z2, double Rrms1, double Rrms2, double Rbond, const std::s
 }
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   // Not a --verbosity driver: opt into the library's setup reporting
   // so this tool prints exactly what it always did.
   helfem::set_verbosity(true);
diff --git a/src/diatomic/density_grid.cpp b/src/diatomic/density_grid.cpp
index 5075043..283e4c5 100644
--- a/src/diatomic/density_grid.cpp
+++ b/src/diatomic/density_grid.cpp
@@ -13,6 +13,7 @@
  * for the full license text.
  */
 
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include <helfem.h>
 #include "../general/checkpoint.h"
@@ -32,6 +33,8 @@
 using namespace helfem;
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   // Not a --verbosity driver: opt into the library's setup reporting
   // so this tool prints exactly what it always did.
   helfem::set_verbosity(true);
diff --git a/src/diatomic/density_line.cpp b/src/diatomic/density_line.cpp
index 83945ee..ca60c23 100644
--- a/src/diatomic/density_line.cpp
+++ b/src/diatomic/density_line.cpp
@@ -12,6 +12,7 @@
  * See the LICENSE file at the root of this source distribution
  * for the full license text.
  */
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include <helfem.h>
 #include "../general/checkpoint.h"
@@ -29,6 +30,8 @@
 using namespace helfem;
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   // Not a --verbosity driver: opt into the library's setup reporting
   // so this tool prints exactly what it always did.
   helfem::set_verbosity(true);
diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index e6dd4ee..3a44812 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -29,6 +29,7 @@
 //
 // HF (x_func == 0 && c_func == 0) is deferred; picking any HF method throws.
 
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include "../general/constants.h"
 #include "../general/dftfuncs.h"
@@ -55,6 +56,8 @@
 using namespace helfem;
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   cmdline::parser parser;
 
   parser.add<std::string>("Z1", 0, "first nuclear charge", true);
diff --git a/src/general/atomdb_dump.cpp b/src/general/atomdb_dump.cpp
index 336aa59..ee5d994 100644
--- a/src/general/atomdb_dump.cpp
+++ b/src/general/atomdb_dump.cpp
@@ -38,6 +38,7 @@
    which is what a table wants too.
 */
 
+#include "check_output.h"
 #include "atomdb.h"
 #include <xc_funcs.h>
 #include <cmath>
@@ -47,6 +48,8 @@
 using namespace helfem;
 
 int main(void) {
+  helfem::check_output_at_exit();
+
   /* The radial grid, taken from the shared basis so that it needs no
      parameters of its own. */
   const atomdb::Atom probe(1);
diff --git a/src/general/check_output.h b/src/general/check_output.h
new file mode 100644
index 0000000..c7ee8d7
--- /dev/null
+++ b/src/general/check_output.h
@@ -0,0 +1,37 @@
+/*
+ *                This source code is part of
+ *
+ *                          HelFEM
+ *                             -
+ * Finite element methods for electronic structure calculations on small systems
+ *
+ * Written by Susi Lehtola, 2018-
+ * Copyright (c) 2018- Susi Lehtola
+ *
+ * SPDX-License-Identifier: BSD-3-Clause
+ * See the LICENSE file at the root of this source distribution
+ * for the full license text.
+ */
+#ifndef CHECK_OUTPUT_H
+#define CHECK_OUTPUT_H
+
+#include <cstdio>
+#include <cstdlib>
+#include <unistd.h>
+
+namespace helfem {
+  /// Make the program end unsuccessfully if anything it has printed on
+  /// the standard output could not be stored (e.g. a full disk or
+  /// exhausted quota): the printed results are then incomplete, which
+  /// would otherwise go unnoticed. Call once at the start of main().
+  inline void check_output_at_exit() {
+    std::atexit([]() {
+      if (std::fflush(stdout) != 0 || std::ferror(stdout)) {
+        std::fputs("Error writing to standard output.\n", stderr);
+        _exit(EXIT_FAILURE);
+      }
+    });
+  }
+}
+
+#endif
diff --git a/src/harmonic/main.cpp b/src/harmonic/main.cpp
index 2b0b5c4..b5fb130 100644
--- a/src/harmonic/main.cpp
+++ b/src/harmonic/main.cpp
@@ -13,6 +13,7 @@
  * for the full license text.
  */
 
+#include "../general/check_output.h"
 #include "PolynomialBasis.h"
 #include <helfem.h>
 #include "FiniteElementBasis.h"
@@ -47,6 +48,8 @@ namespace {
 }
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   // Not a --verbosity driver: opt into the library's setup reporting
   // so this tool prints exactly what it always did.
   helfem::set_verbosity(true);
diff --git a/src/harmonic/morse.cpp b/src/harmonic/morse.cpp
index 1684df8..3e79895 100644
--- a/src/harmonic/morse.cpp
+++ b/src/harmonic/morse.cpp
@@ -13,6 +13,7 @@
  * for the full license text.
  */
 
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include <helfem.h>
 #include "../general/checkpoint.h"
@@ -40,6 +41,8 @@ helfem::Matrix kinetic(const helfem::polynomial_basis::FiniteElementBasis & fem,
 }
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   // Not a --verbosity driver: opt into the library's setup reporting
   // so this tool prints exactly what it always did.
   helfem::set_verbosity(true);
diff --git a/src/harmonic/softcoulomb.cpp b/src/harmonic/softcoulomb.cpp
index 88163bd..a21d0e3 100644
--- a/src/harmonic/softcoulomb.cpp
+++ b/src/harmonic/softcoulomb.cpp
@@ -13,6 +13,7 @@
  * for the full license text.
  */
 
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include <helfem.h>
 #include "../general/checkpoint.h"
@@ -55,6 +56,8 @@ namespace {
 }
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   // Not a --verbosity driver: opt into the library's setup reporting
   // so this tool prints exactly what it always did.
   helfem::set_verbosity(true);
diff --git a/src/sadatom/1e.cpp b/src/sadatom/1e.cpp
index 63a648e..5e57084 100644
--- a/src/sadatom/1e.cpp
+++ b/src/sadatom/1e.cpp
@@ -12,6 +12,7 @@
  * See the LICENSE file at the root of this source distribution
  * for the full license text.
  */
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include <helfem.h>
 #include "../general/checkpoint.h"
@@ -29,6 +30,8 @@
 using namespace helfem;
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   // Not a --verbosity driver: opt into the library's setup reporting
   // so this tool prints exactly what it always did.
   helfem::set_verbosity(true);
diff --git a/src/sadatom/aij.cpp b/src/sadatom/aij.cpp
index bccd68c..72b1575 100644
--- a/src/sadatom/aij.cpp
+++ b/src/sadatom/aij.cpp
@@ -12,6 +12,7 @@
  * See the LICENSE file at the root of this source distribution
  * for the full license text.
  */
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include "../general/constants.h"
 #include "../general/dftfuncs.h"
@@ -48,6 +49,8 @@ int consistent_lmax(int njellium) {
 }
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   // Solver-facing scalar type. The sadatom chemistry layer (TwoDBasis,
   // DFTGrid, libxc) is double-only, so this is not yet wired beyond
   // double; the libhelfem radial machinery underneath is fully
diff --git a/src/sadatom/main.cpp b/src/sadatom/main.cpp
index fc49102..f8e44fd 100644
--- a/src/sadatom/main.cpp
+++ b/src/sadatom/main.cpp
@@ -20,6 +20,7 @@
 //
 // HF (x_func == 0 && c_func == 0) is deferred; picking any HF method throws.
 
+#include "../general/check_output.h"
 #include "../general/cmdline.h"
 #include "../general/dftfuncs.h"
 #include "../general/constants.h"
@@ -200,6 +201,8 @@ static void write_profiles(
 }
 
 int main(int argc, char **argv) {
+  helfem::check_output_at_exit();
+
   cmdline::parser parser;
 
   parser.add<int>("grid", 0, "type of grid: 1 for linear, 2 for quadratic, 3 for polynomial, 4 for exponential", false, 4);
-- 
2.43.0


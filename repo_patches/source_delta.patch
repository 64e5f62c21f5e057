From 4740e6d6ba21a531b8b3aa9dce706d82069dde2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 01/58] fix: load the beam with the requested mmax, not the
 requested lmax

---
 src/conviqt_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index ebd7413..3e687f8 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -45,7 +45,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
     // mmax
     if (beammmax > 0) {
-        mmax = beamlmax;
+        mmax = beammmax;
     } else {
         mmax = std::min((int)lmax, mmax_file);
     }
-- 
2.43.0


From 4a0239dc04d17b11a767e04d94b2e33aeeecc92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 02/58] fix: keep the latitude hit map index inside the map

A sample on the equator, or a rank left without samples, indexed one bin
past the end of the hit map.
---
 src/conviqt_math.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 4d3c729..26c27d9 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -290,7 +290,8 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         if (beta > halfpi) {
             beta = pi - beta;
         }
-        long ibin = beta / wbin;
+        // beta = pi / 2 belongs to the last bin
+        long ibin = std::min(long(beta / wbin), nbin - 1);
         ++my_hits[ibin];
     }
 
@@ -306,7 +307,7 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         double divisor = cores - corenum + 1;
         double nhit_target = nhitleft / divisor;
         long bin_hit = 0;
-        while (ibin < nbin) {
+        while (ibin < nbin - 1) {
             ++ibin;
             // Skip over isolatitudes that have no hits
             if (hits[ibin] != 0) {
-- 
2.43.0


From 4399f82564b8e67f0a38faed7171eb6895e8ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 03/58] fix: accept empty buffers on both sides of a collective
 call

---
 levels/cxxsupport/mpi_support.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 21ee6b5..5aaf7c5 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -53,7 +53,11 @@ using namespace std;
 namespace {
 
 void assert_unequal (const void *a, const void *b)
-  { levels_assert (a!=b,"input and output buffers must not be identical"); }
+  {
+  // empty buffers may be null on both sides
+  levels_assert ((a!=b) || (a==0),
+    "input and output buffers must not be identical");
+  }
 
 } // unnamed namespace
 
-- 
2.43.0


From d727c32a037609a21afdafee7503b8b0184a7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 04/58] fix: take part in the sample exchange also without
 samples

A process without any samples skipped the collective calls the others
made, which mismatched or blocked all later communication.
---
 src/conviqt_math.cpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 26c27d9..e86a8ae 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1556,14 +1556,14 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Redistribute the data from pntarr2 to outpntarr
 
-    if (totsize != 0 || outBetaSegSize != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
-                        outpntarr, outBetaSeg, outOffset, outBetaSegSize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    // This is a collective call, even for a process with nothing to send or receive
+
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
+                    outpntarr, outBetaSeg, outOffset, outBetaSegSize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (totsize > 0) {
         pntarr2.dealloc();
@@ -1621,14 +1621,12 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Communicate the pointing and TOD to the original owners
 
-    if (totsize != 0 || ntod != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
-                        inBetaSeg, inOffset, 5 * totsize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
+                    inBetaSeg, inOffset, 5 * totsize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (ntod != 0) {
         outpntarr.dealloc();
-- 
2.43.0


From 8b137f389f9e72b63d89a3127ba27dd83a58c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 05/58] fix: wrap the longitude index fully when the
 interpolation order exceeds the grid

---
 src/conviqt_math.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index e86a8ae..1cfdaae 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1402,9 +1402,10 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             frac = levels::fmodulo(frac, double(nphi));
             int iphi0 = int(frac) - ioffset;
             frac -= iphi0;
-            if (iphi0 >= nphi) {
+            while (iphi0 >= nphi) {
                 iphi0 -= nphi;
-            } else if (iphi0 < 0) {
+            }
+            while (iphi0 < 0) {
                 iphi0 += nphi;
             }
             weight_ncm(frac, wgt2);
@@ -1423,7 +1424,7 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             for (int iphi = 0; iphi < npoints; ++iphi) {
                 const double weight = wgt2[iphi] * weight1;
                 long iphinew = iphi0 + iphi;
-                if (iphinew >= nphi) {
+                while (iphinew >= nphi) {
                     iphinew -= nphi;
                 }
                 const xcomplex<double> *ca = &(conviqtarr[iphinew][0]);
-- 
2.43.0


From bb8ea79bd2edd398b736f159ed1eb591ae311887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 06/58] fix: default the convolver lmax to the smaller of sky
 and beam lmax

The larger one reads past the end of the other expansion.
---
 src/conviqt_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 1cfdaae..68ac04e 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -121,7 +121,7 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     const int lmax_sky = s->get_lmax();
     const int lmax_beam = b->get_lmax();
     if (lmax < 0) {
-        this->lmax = std::max(lmax_beam, lmax_sky);
+        this->lmax = std::min(lmax_beam, lmax_sky);
     } else if (lmax > lmax_sky || lmax > lmax_beam) {
         throw std::runtime_error("Convolver lmax exceeds input expansion order.");
     }
-- 
2.43.0


From fa58a82ee887b4182a8eb917dbbe24259eca0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 07/58] fix: refuse convolver limits the data cube cannot
 represent

mmax > lmax indexed past the end of several tables, lmax = 0 raised an
exception inside a parallel region.
---
 src/conviqt_math.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 68ac04e..beeb56a 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -126,9 +126,15 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
         throw std::runtime_error("Convolver lmax exceeds input expansion order.");
     }
 
+    if (this->lmax < 1) {
+        throw std::runtime_error("Convolver lmax must be at least 1.");
+    }
+
     const int mmax_beam = b->get_mmax();
     if (beammmax < 0) {
-        this->beammmax = mmax_beam;
+        this->beammmax = std::min<long>(mmax_beam, this->lmax);
+    } else if (beammmax > this->lmax) {
+        throw std::runtime_error("Convolver mmax exceeds lmax.");
     } else if (beammmax > mmax_beam) {
         throw std::runtime_error("Convolver mmax exceeds input expansion order.");
     }
-- 
2.43.0


From 5eaa566013a29379d90b7d82daaea6ab34b0e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 08/58] fix: check the expansion orders again when convolving

---
 src/conviqt_math.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index beeb56a..3574cc9 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1499,6 +1499,15 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
     double tstart = mpiMgr.Wtime(), t1;
     ++n_convolve;
 
+    // The sky and the beam may have been replaced or read anew since construction
+
+    if (lmax > s->get_lmax() || lmax > b->get_lmax()) {
+        throw std::runtime_error("Convolver lmax exceeds input expansion order.");
+    }
+    if (beammmax > b->get_mmax()) {
+        throw std::runtime_error("Convolver mmax exceeds input expansion order.");
+    }
+
     const long totsize = pntarr.size() / 5;
 
     // Assign a running index across the communicator to the last column of pntarr
-- 
2.43.0


From 65d2f4864783900b162a83fbcf94f0c3a509be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 09/58] fix: a beam read anew is not normalized

---
 src/conviqt_io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 3e687f8..8f5f1e1 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -49,6 +49,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     } else {
         mmax = std::min((int)lmax, mmax_file);
     }
+    normalized_ = false;
     fname = infile_beam;
 
     blmT_.Set(lmax, mmax);
-- 
2.43.0


From d09cb7e7addcf1e8abcc720c40177efb5fdee7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 10/58] fix: give the members of sky, beam and detector initial
 values

---
 src/conviqt.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/conviqt.hpp b/src/conviqt.hpp
index c73594f..2ee9128 100644
--- a/src/conviqt.hpp
+++ b/src/conviqt.hpp
@@ -53,8 +53,8 @@ public :
 private :
     Alm< xcomplex<float> > blmT_, blmG_, blmC_;
     bool normalized_;
-    long lmax, mmax;
-    bool pol;
+    long lmax = -1, mmax = -1;
+    bool pol = false;
     int verbosity = 0;
     std::string fname;
 };
@@ -78,9 +78,9 @@ public :
     void remove_dipole(void);
 private :
     Alm< xcomplex<float> > slmT_, slmG_, slmC_;
-    long lmax;
-    bool pol;
-    double fwhm_deconv;
+    long lmax = -1;
+    bool pol = false;
+    double fwhm_deconv = 0;
     int verbosity = 0;
     std::string fname;
 };
@@ -113,7 +113,7 @@ public :
 private :
 
     std::string det_id_;
-    double epsilon_;
+    double epsilon_ = 0;
     int verbosity = 0;
 
 };
-- 
2.43.0


From d6073f04cff8733176bd9582a2389aa100ff6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 11/58] fix: do not convert 0 / 0 to an integer in
 get_latitude_tables

---
 src/conviqt_math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 3574cc9..78b7958 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -894,7 +894,9 @@ void convolver::get_latitude_tables(const long NThetaIndex1,
                 nassigned = 0;
                 // Adjust latitudes per core to avoid cores not
                 // having any latitudes
-                ntheta_core = ceil(nleft / double(cores - core));
+                if (nleft > 0) {
+                    ntheta_core = ceil(nleft / double(cores - core));
+                }
             }
         }
     }
-- 
2.43.0


From 8640fbc1f4b90db60767a573e05f892d58d0fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 12/58] fix: refuse an illegal colatitude on all processes

Only the process holding it raised an error, the others waited for it
forever.  A colatitude that is not a number was not noticed at all.
---
 src/conviqt_math.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 78b7958..82a01cb 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1522,15 +1522,21 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
         pntarr[5 * ii + 4] = my_offset + ii;
     }
 
-    // Check the angles for conformity
+    // Check the angles for conformity.  All processes must agree to proceed.
 
+    long nbad = 0, nbad_tot = 0;
+    std::string message = "illegal angle on another process";
     for (long i = 0; i < totsize; ++i) {
         double theta = pntarr[5 * i + 1];
-        if (theta < 0 || theta > pi) {
-            throw std::runtime_error("convolver::convolve: Illegal theta: " +
-                                     std::to_string(theta) + " not in 0..pi");
+        if (!(theta >= 0 && theta <= pi)) {
+            ++nbad;
+            message = "Illegal theta: " + std::to_string(theta) + " not in 0..pi";
         }
     }
+    mpiMgr.allreduceRaw<long>(&nbad, &nbad_tot, 1, mpiMgr.Sum);
+    if (nbad_tot != 0) {
+        throw std::runtime_error("convolver::convolve: " + message);
+    }
 
     // distribute the co-latitudes.
 
-- 
2.43.0


From fb80208587adb0ec3c1f62482bbe864dbaccb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 13/58] fix: refuse a longitude that is not finite

Its conversion to a grid index read outside the data cube.
---
 src/conviqt_math.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 82a01cb..adc6264 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1532,6 +1532,11 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
             ++nbad;
             message = "Illegal theta: " + std::to_string(theta) + " not in 0..pi";
         }
+        double phi = pntarr[5 * i];
+        if (!std::isfinite(phi)) {
+            ++nbad;
+            message = "Illegal phi: " + std::to_string(phi);
+        }
     }
     mpiMgr.allreduceRaw<long>(&nbad, &nbad_tot, 1, mpiMgr.Sum);
     if (nbad_tot != 0) {
-- 
2.43.0


From 9ec0d9485b92f4eaf1596f0ab828fd46acc49597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 14/58] fix: a failure to read a sky or a beam is raised on all
 processes

Only the reading process raised an error, the others waited for it
forever.  The polarization flag now changes along with the expansions.
---
 src/conviqt_io.cpp | 72 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 8f5f1e1..14047fb 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -19,15 +19,23 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         std::cout << "Reading " << infile_beam << " on task = " << rank << std::endl;
     }
 
-    pol = beampol;
     int lmax_file, mmax_file;
+    int failed = 0;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_beam, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_beam, lmax_file, mmax_file);
+        try {
+            if (beampol) {
+                get_almsize_pol(infile_beam, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_beam, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            failed = 1;
         }
     }
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read the size of " + infile_beam);
+    }
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // Ensure that the beam in the file has a high enough expansion order.
@@ -50,6 +58,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         mmax = std::min((int)lmax, mmax_file);
     }
     normalized_ = false;
+    pol = beampol;
     fname = infile_beam;
 
     blmT_.Set(lmax, mmax);
@@ -61,16 +70,25 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     long blmsize = (mmax + 1) * (mmax + 2) + 2 * (mmax + 1) * (lmax - mmax);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+        try {
+            if (pol) {
+                read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
+            } else {
+                read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+            }
+        } catch (...) {
+            failed = 1;
         }
         if (verbosity > 5) {
             std::cout << "Done reading beam alms on task = " << rank << std::endl;
         }
     }
 
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read " + infile_beam);
+    }
+
     mpiMgr.bcastRaw(&blmT_(0, 0).re, blmsize, 0);
     if (pol) {
         mpiMgr.bcastRaw(&blmG_(0, 0).re, blmsize, 0);
@@ -113,15 +131,23 @@ int sky::read(long skylmax, bool skypol,
         std::cout << "Reading " << infile_sky << " on task = " << rank << std::endl;
     }
 
-    pol = skypol;
     int lmax_file, mmax_file;
+    int failed = 0;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_sky, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_sky, lmax_file, mmax_file);
+        try {
+            if (skypol) {
+                get_almsize_pol(infile_sky, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_sky, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            failed = 1;
         }
     }
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read the size of " + infile_sky);
+    }
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // If user provided skylmax, ensure that the file has high enough
@@ -139,6 +165,7 @@ int sky::read(long skylmax, bool skypol,
         throw std::runtime_error("Sky mmax exceeds available expansion order.");
     }
     int mmax = lmax;
+    pol = skypol;
     fname = infile_sky;
     fwhm_deconv = fwhm_deconv_sky;
 
@@ -151,16 +178,25 @@ int sky::read(long skylmax, bool skypol,
     long slmsize = (lmax + 1) * (lmax + 2);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+        try {
+            if (pol) {
+                read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
+            } else {
+                read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+            }
+        } catch (...) {
+            failed = 1;
         }
         if (verbosity > 5) {
             std::cout << "Done reading sky alms on task = " << rank << std::endl;
         }
     }
 
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read " + infile_sky);
+    }
+
     mpiMgr.bcastRaw(&slmT_(0, 0).re, slmsize, 0);
     if (pol) {
         mpiMgr.bcastRaw(&slmG_(0, 0).re, slmsize, 0);
-- 
2.43.0


From 85e29760160f293f529d5a26caa5fd6f49f274d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 15/58] fix: do not change the limits of a sky or a beam when
 refusing to load

The limits no longer matched the stored expansion, and a later
convolution read past its end.
---
 src/conviqt_io.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 14047fb..a29952a 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -46,17 +46,14 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         throw std::runtime_error("Beam mmax exceeds available expansion order.");
     }
     // lmax
-    if (beamlmax > 0) {
-        lmax = beamlmax;
-    } else {
-        lmax = lmax_file;
-    }
+    const long new_lmax = beamlmax > 0 ? beamlmax : lmax_file;
     // mmax
-    if (beammmax > 0) {
-        mmax = beammmax;
-    } else {
-        mmax = std::min((int)lmax, mmax_file);
+    const long new_mmax = beammmax > 0 ? beammmax : std::min<long>(new_lmax, mmax_file);
+    if (new_mmax > new_lmax) {
+        throw std::runtime_error("Beam mmax exceeds lmax.");
     }
+    lmax = new_lmax;
+    mmax = new_mmax;
     normalized_ = false;
     pol = beampol;
     fname = infile_beam;
@@ -155,15 +152,12 @@ int sky::read(long skylmax, bool skypol,
     if (lmax_file < skylmax) {
         throw std::runtime_error("Sky lmax exceeds available expansion order.");
     }
-    if (skylmax > 0) {
-        lmax = skylmax;
-    } else {
-        lmax = lmax_file;
-    }
+    const long new_lmax = skylmax > 0 ? skylmax : lmax_file;
     // We require equal lmax and mmax
-    if (mmax_file < lmax) {
+    if (mmax_file < new_lmax) {
         throw std::runtime_error("Sky mmax exceeds available expansion order.");
     }
+    lmax = new_lmax;
     int mmax = lmax;
     pol = skypol;
     fname = infile_sky;
-- 
2.43.0


From fc840e23dcc53c5b6acdad8d0e661ec5445d35d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 16/58] fix: do not let exceptions escape through the C
 interface

---
 src/cconviqt.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/cconviqt.cpp b/src/cconviqt.cpp
index ee7e044..91e6a5a 100644
--- a/src/cconviqt.cpp
+++ b/src/cconviqt.cpp
@@ -189,7 +189,11 @@ extern "C" {
     void *conviqt_detector_new() { return new(std::nothrow) conviqt::detector; }
 
     void *conviqt_detector_new_with_id(char *det_id) {
-        return new(std::nothrow) conviqt::detector(det_id);
+        try {
+            return new conviqt::detector(det_id);
+        } catch (...) {
+            return NULL;
+        }
     }
 
     int conviqt_detector_del(void *ptr) {
@@ -314,9 +318,18 @@ extern "C" {
         conviqt::beam *beamref = reinterpret_cast< conviqt::beam * >(beamptr);
         conviqt::detector *detref = reinterpret_cast< conviqt::detector * >(detptr);
 
-        return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
-                                                    lmax, beammmax, order,
-                                                    verbosity, comm);
+        try {
+            return new conviqt::convolver(skyref, beamref, detref, pol,
+                                          lmax, beammmax, order,
+                                          verbosity, comm);
+        } catch (std::exception &e) {
+            std::cerr << "conviqt_convolver_new threw an exception: " << e.what()
+                      << std::endl;
+            return NULL;
+        } catch (...) {
+            std::cerr << "conviqt_convolver_new threw an exception." << std::endl;
+            return NULL;
+        }
     }
 
     int conviqt_convolver_del(void *ptr) {
@@ -376,9 +389,11 @@ extern "C" {
 #endif
 
             cnvref->convolve(*pntref, calibrate);
+        } catch (std::exception &e) {
+            std::cerr << "convolve threw an exception: " << e.what() << std::endl;
+            return -1;
         } catch (...) {
-            std::cout << "convolve threw an exception:" << std::endl;
-            throw;
+            std::cerr << "convolve threw an exception." << std::endl;
             return -1;
         }
         return 0;
-- 
2.43.0


From 78b4f167140b55e3d7b72a5cffee3299c1733a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 17/58] fix: declare conviqt_detector_set_id in the C header

---
 src/cconviqt.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cconviqt.h b/src/cconviqt.h
index 7016b11..ff6bf09 100644
--- a/src/cconviqt.h
+++ b/src/cconviqt.h
@@ -60,6 +60,8 @@ extern "C" {
 
   int conviqt_detector_get_epsilon(void *ptr, double *epsilon);
 
+  int conviqt_detector_set_id(void *ptr, char *det_id);
+
   int conviqt_detector_get_id(void *ptr, char *det_id);
 
   // Pointing
-- 
2.43.0


From 8b7bfc44e2255ab2e9245aef4ab093de178de71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 18/58] fix: raise when the convolver cannot be instantiated
 from Python

---
 python/libconviqt_wrapper/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index fd55395..1381361 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -451,7 +451,7 @@ if available:
                 verbosity,
                 encode_comm(comm),
             )
-            if self._conv == 0:
+            if not self._conv:  # ctypes translates NULL into None
                 raise RuntimeError("Failed to instantiate convolver")
 
         def __del__(self):
-- 
2.43.0


From 52ea1c6a142bc32ba3bd8fb07f0913955b3a5c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 19/58] fix: exchange data in sendrecv and sendrecv_replace

---
 levels/cxxsupport/mpi_support.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 5aaf7c5..24df48e 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -211,7 +211,6 @@ void MPI_Manager::recvRawVoid (void *data, NDT type, tsize num, tsize src) const
 void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
   tsize dest, void *recvbuf, tsize recvcnt, tsize src, NDT type) const
   {
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
   assert_unequal(sendbuf,recvbuf);
 
   MPI_Datatype dtype = ndt2mpi(type);
@@ -221,9 +220,6 @@ void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
 void MPI_Manager::sendrecv_replaceRawVoid (void *data, NDT type, tsize num,
   tsize dest, tsize src) const
   {
-  if (dest==src) return;
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
-
   MPI_Sendrecv_replace (data,num,ndt2mpi(type),dest,0,src,0,LS_COMM,
     MPI_STATUS_IGNORE);
   }
-- 
2.43.0


From b8be9e80a9164196364826439e05e2028bacc60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 20/58] fix: leave an array empty when its allocation fails

---
 levels/cxxsupport/ls_arr.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/ls_arr.h b/levels/cxxsupport/ls_arr.h
index 1caf44a..10c2c33 100644
--- a/levels/cxxsupport/ls_arr.h
+++ b/levels/cxxsupport/ls_arr.h
@@ -219,10 +219,9 @@ template <typename T, typename storageManager> class arrT: public arr_ref<T>
     void alloc (tsize sz)
       {
       if (sz==this->s) return;
-      if (own) stm.dealloc(this->d);
-      this->s = sz;
+      dealloc();
       this->d = stm.alloc(sz);
-      own = true;
+      this->s = sz;
       }
     /*! Allocates space for \a sz elements. If \a sz is the
         same as the current size, no reallocation is performed.
-- 
2.43.0


From 978b2682d9ec2077fd59c610a43054c4fc0fb8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 21/58] fix: refuse file names that do not fit the buffer in
 fitshandle::open

---
 levels/cxxsupport/fitshandle.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index bf770f7..d634970 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -304,6 +304,7 @@ void fitshandle::open (const string &fname)
   {
   clean_all();
   fitsfile *ptr=NULL;
+  levels_assert(fname.length()<FLEN_FILENAME,"file name is too long");
   // Fixed a Valgrind error by using a fixed length char array for the file name
   char fn[FLEN_FILENAME];
   std::copy(fname.begin(), fname.end(), fn);
-- 
2.43.0


From 5b882df69238620d7c706f57eb54d8a8474e59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 22/58] fix: do not use or throw from a fitshandle whose file
 failed to close

---
 levels/cxxsupport/fitshandle.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index d634970..d1489b6 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -180,8 +180,8 @@ void fitshandle::clean_all()
   if (!fptr) return;
   clean_data();
   fits_close_file (FPTR, &status);
+  fptr=0; // CFITSIO frees the structure also when closing fails
   check_errors();
-  fptr=0;
   }
 
 bool fitshandle::table_hdu (tsize col) const
@@ -298,7 +298,11 @@ fitshandle::fitshandle ()
   : status(0), fptr(0), hdutype_(INVALID), bitpix_(INVALID), nrows_(0) {}
 
 fitshandle::~fitshandle()
-  { clean_all(); }
+  {
+  try
+    { clean_all(); }
+  catch (...) {} // the error has been printed
+  }
 
 void fitshandle::open (const string &fname)
   {
-- 
2.43.0


From 0f1ffa01ea4945291c396014a6e849b95344f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 23/58] fix: count rows, not elements, after writing a vector
 column

---
 levels/cxxsupport/fitshandle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index d1489b6..02e61bf 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -279,8 +279,8 @@ void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   int64 felem = offset%repc+1;
   fits_write_col (FPTR, type2ftc(type), colnum, frow, felem, ndata,
     const_cast<void *>(data), &status);
-  nrows_ = max(nrows_,offset+ndata);
   check_errors();
+  nrows_ = max(nrows_,(offset+ndata+repc-1)/repc);
   }
 
 void fitshandle::getKeyHelper(const string &name) const
@@ -717,8 +717,8 @@ void fitshandle::write_column_raw_void
         }
       fits_write_col (FPTR, TSTRING, colnum, offset+1, 1, num,
         tdata.p0(), &status);
-      nrows_ = max(nrows_,offset+num);
       check_errors();
+      nrows_ = max(nrows_,offset+num);
       break;
       }
     default:
-- 
2.43.0


From 198d715d8e60f52f0f949a4ffb25f09b84a1e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 24/58] fix: refuse access to missing and zero-length columns

---
 levels/cxxsupport/fitshandle.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 02e61bf..f525708 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -263,6 +263,7 @@ void fitshandle::read_col (int colnum, void *data, int64 ndata, PDT type,
   {
   levels_assert(table_hdu(colnum),"incorrect FITS table access");
   int64 repc = columns_[colnum-1].repcount();
+  levels_assert(repc>0,"column has no elements");
   levels_assert (ndata<=(repc*nrows_-offset),"read_column(): array too large");
   int64 frow = offset/repc+1;
   int64 felem = offset%repc+1;
@@ -275,6 +276,7 @@ void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   {
   levels_assert(table_hdu(colnum),"incorrect FITS table access");
   int64 repc = columns_[colnum-1].repcount();
+  levels_assert(repc>0,"column has no elements");
   int64 frow = offset/repc+1;
   int64 felem = offset%repc+1;
   fits_write_col (FPTR, type2ftc(type), colnum, frow, felem, ndata,
@@ -506,7 +508,7 @@ int64 fitshandle::nelems(int i) const
   }
 int64 fitshandle::efficientChunkSize(int i) const
   {
-  levels_assert(table_hdu(1),"incorrect FITS table access");
+  levels_assert(table_hdu(i),"incorrect FITS table access");
   long int res;
   fits_get_rowsize(FPTR, &res, &status);
   levels_assert(res>=1,"bad recommended FITS chunk size");
-- 
2.43.0


From 5d53d7879857ffbd8156f36e13c500016b7f8af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 25/58] fix: refuse column names and units that do not fit the
 buffers

---
 levels/cxxsupport/fitshandle.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index f525708..a3e17f0 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -390,6 +390,8 @@ void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
 
   for (long m=0; m<ncol; ++m)
     {
+    levels_assert ((cols[m].name().size()<=68) && (cols[m].unit().size()<=68),
+      "column name or unit does not fit into a FITS keyword");
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
@@ -411,6 +413,8 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
 
   for (long m=0; m<ncol; ++m)
     {
+    levels_assert ((cols[m].name().size()<=68) && (cols[m].unit().size()<=68),
+      "column name or unit does not fit into a FITS keyword");
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
-- 
2.43.0


From 86085620d224c2bc02a629874512aeb627fd3bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 26/58] fix: support string columns in ASCII tables

---
 levels/cxxsupport/fitshandle.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index a3e17f0..44c936f 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -209,6 +209,7 @@ void fitshandle::init_asciitab()
   {
   char ttype[81], tunit[81], tform[81];
   int ncol, typecode;
+  long width;
   fits_get_num_cols (FPTR, &ncol, &status);
   { LONGLONG tmp; fits_get_num_rowsll (FPTR, &tmp, &status); nrows_=tmp; }
   check_errors();
@@ -216,9 +217,10 @@ void fitshandle::init_asciitab()
     {
     fits_get_acolparms (FPTR, m, ttype, 0, tunit, tform,
                         0, 0, 0, 0, &status);
-    fits_ascii_tform (tform, &typecode, 0,0, &status);
+    fits_ascii_tform (tform, &typecode, &width,0, &status);
     check_errors();
-    columns_.push_back (fitscolumn (ttype,tunit,1,ftc2type(typecode)));
+    columns_.push_back (fitscolumn (ttype,tunit,typecode==TSTRING ? width : 1,
+      ftc2type(typecode)));
     }
   }
 
@@ -418,7 +420,7 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
-    if (cols[m].type()!=TSTRING)
+    if (cols[m].type()!=LEVELS_STRING)
       {
       levels_assert (cols[m].repcount()==1,"bad repcount for ASCII table");
       x << type2asciiform(cols[m].type());
-- 
2.43.0


From 59844def965d9dff2c1e9f302112d74041ed4c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 27/58] fix: refuse coefficient files with indices below one

---
 levels/Healpix_cxx/alm_fitsio.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index efc8fc5..c40a6e5 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -62,6 +62,7 @@ void get_almsize(fitshandle &inp, int &lmax, int &mmax)
 
     for (tsize i=0; i<ppix; ++i)
       {
+      levels_assert(index[i]>0,"illegal index encountered");
       int l = isqrt(index[i]-1);
       int m = index[i] - l*l - l - 1;
       if (l>lmax) lmax=l;
@@ -116,6 +117,7 @@ template<typename T> void read_Alm_from_fits
     for (tsize i=0; i<ppix; ++i)
       {
       if (index[i]>max_index) continue;
+      levels_assert(index[i]>0,"illegal index encountered");
 
       int l = isqrt(index[i]-1);
       int m = index[i] - l*l - l - 1;
-- 
2.43.0


From 3490e87dfa65dfb5ea1ebf9e2c5b6cd20d6592ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 28/58] fix: write every non-zero coefficient, and none that is
 not there, to compressed files

---
 levels/Healpix_cxx/alm_fitsio.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index c40a6e5..46eb403 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -199,6 +199,16 @@ template void write_Alm_to_fits
    int mmax, PDT datatype);
 
 
+namespace {
+
+template<typename T> bool present (const Alm<xcomplex<T> > &alms, int l, int m)
+  {
+  return (l<=alms.Lmax()) && (m<=alms.Mmax())
+    && ((alms(l,m).re!=0) || (alms(l,m).im!=0));
+  }
+
+} // unnamed namespace
+
 template<typename T> void write_compressed_Alm_to_fits
   (fitshandle &out, const Alm<xcomplex<T> > &alms, int lmax, int mmax,
   PDT datatype)
@@ -214,7 +224,7 @@ template<typename T> void write_compressed_Alm_to_fits
   int n_alms = 0;
   for (int m=0; m<=mmax; ++m)
     for (int l=m; l<=lmax; ++l)
-      if (alms(l,m).norm()>0) ++n_alms;
+      if (present(alms,l,m)) ++n_alms;
 
   int l=0, m=0;
   int real_lmax=0, real_mmax=0;
@@ -226,7 +236,7 @@ template<typename T> void write_compressed_Alm_to_fits
     re.alloc(ppix); im.alloc(ppix);
     for (tsize i=0; i<ppix; ++i)
       {
-      while (alms(l,m).norm()==0)
+      while (!present(alms,l,m))
         {
         ++m;
         if ((m>l) || (m>mmax)) { ++l; m=0; }
-- 
2.43.0


From 6f26ea3a05513326a22de74111dd53d60abf93f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 29/58] fix: refuse an lmax that overflows the coefficient
 index

---
 levels/Healpix_cxx/alm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/levels/Healpix_cxx/alm.cc b/levels/Healpix_cxx/alm.cc
index fcd3749..b247367 100644
--- a/levels/Healpix_cxx/alm.cc
+++ b/levels/Healpix_cxx/alm.cc
@@ -41,6 +41,7 @@ namespace levels {
 tsize Alm_Base::Num_Alms (int l, int m)
   {
   levels_assert(m<=l,"mmax must not be larger than lmax");
+  levels_assert(l<46340,"lmax is too large for the index arithmetic");
   return ((m+1)*(m+2))/2 + (m+1)*(l-m);
   }
 
-- 
2.43.0


From 1d1f30ba3b5867a04eb13dd40ef89c5a26179de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 30/58] fix: refuse a sky or a beam file without coefficients

---
 src/conviqt_io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index a29952a..8d99b88 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -52,6 +52,9 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     if (new_mmax > new_lmax) {
         throw std::runtime_error("Beam mmax exceeds lmax.");
     }
+    if (new_lmax < 0 || new_mmax < 0) {
+        throw std::runtime_error("No expansion in " + infile_beam);
+    }
     lmax = new_lmax;
     mmax = new_mmax;
     normalized_ = false;
@@ -157,6 +160,9 @@ int sky::read(long skylmax, bool skypol,
     if (mmax_file < new_lmax) {
         throw std::runtime_error("Sky mmax exceeds available expansion order.");
     }
+    if (new_lmax < 0) {
+        throw std::runtime_error("No expansion in " + infile_sky);
+    }
     lmax = new_lmax;
     int mmax = lmax;
     pol = skypol;
-- 
2.43.0


From 9795f71edec2abfc34c44d52898ba2e4aa11575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 31/58] fix: refuse a negative interpolation order

---
 src/conviqt_math.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index adc6264..6b83220 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -139,6 +139,10 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
         throw std::runtime_error("Convolver mmax exceeds input expansion order.");
     }
 
+    if (order < 0) {
+        throw std::runtime_error("Convolver order must not be negative.");
+    }
+
     // data cube gridding
 
     npoints = order + 1;
-- 
2.43.0


From 750b0cc09b802a62913fb9d06677facc00b514ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 32/58] fix: keep the inputs of a Python convolver alive

---
 python/libconviqt_wrapper/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 1381361..f7aa0dc 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -440,6 +440,8 @@ if available:
         def __init__(
             self, sky, beam, detector, pol, lmax, mmax, order, verbosity, comm
         ):
+            # The library only stores pointers to these objects
+            self._inputs = (sky, beam, detector)
             self._conv = _conviqt.conviqt_convolver_new(
                 sky._sky,
                 beam._beam,
-- 
2.43.0


From ae85c26a3e3ac54c0e7fc6cf65a456f1e56f0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 33/58] fix: Pointing.data() of an empty or failed allocation
 in Python

---
 python/libconviqt_wrapper/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index f7aa0dc..4248d5b 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -399,14 +399,17 @@ if available:
                 )
 
         def alloc(self, nrow):
-            self._nrow = nrow
-            err = _conviqt.conviqt_pointing_alloc(self._pnt, self._nrow * self._ncol)
+            self._nrow = 0
+            err = _conviqt.conviqt_pointing_alloc(self._pnt, nrow * self._ncol)
             if err != 0:
                 raise RuntimeError(
                     "Failed to allocate {} rows to pointing".format(nrow)
                 )
+            self._nrow = nrow
 
         def data(self):
+            if self._nrow == 0:
+                return np.zeros((0, self._ncol))
             buf = _conviqt.conviqt_pointing_data(self._pnt)
             arr = np.ctypeslib.as_array(buf, shape=(self._nrow, self._ncol))
             return arr
-- 
2.43.0


From cc5bf0fb7d6a971c780d02a4064660a18ae1ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 34/58] fix: size the buffer of Detector.get_id by the
 identifier

---
 python/libconviqt_wrapper/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 4248d5b..b741163 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -325,10 +325,13 @@ if available:
         """
 
         def __init__(self, name=None, epsilon=None):
+            self._id_size = 1024
             if name is None:
                 self._det = _conviqt.conviqt_detector_new()
             else:
-                self._det = _conviqt.conviqt_detector_new_with_id(name.encode())
+                name = name.encode()
+                self._id_size = max(self._id_size, len(name) + 1)
+                self._det = _conviqt.conviqt_detector_new_with_id(name)
             if epsilon is not None:
                 self.set_epsilon(epsilon)
 
@@ -356,7 +359,7 @@ if available:
             return eps.value
 
         def get_id(self):
-            s = ct.create_string_buffer(1024)
+            s = ct.create_string_buffer(self._id_size)
             _conviqt.conviqt_detector_get_id(self._det, s)
             return s.value
 
-- 
2.43.0


From ea0ab80ff8b66996483646a7684ebb05ce9e659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 35/58] fix: keep the pointing alive as long as its data are in
 use in Python

---
 python/libconviqt_wrapper/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index b741163..f6d5485 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -414,7 +414,10 @@ if available:
             if self._nrow == 0:
                 return np.zeros((0, self._ncol))
             buf = _conviqt.conviqt_pointing_data(self._pnt)
-            arr = np.ctypeslib.as_array(buf, shape=(self._nrow, self._ncol))
+            buf = ct.cast(buf, ct.POINTER(ct.c_double * (self._nrow * self._ncol)))
+            buf = buf.contents
+            buf._owner = self  # the data must outlive the array
+            arr = np.ctypeslib.as_array(buf).reshape(self._nrow, self._ncol)
             return arr
 
     # Convolver functions
-- 
2.43.0


From 39ee69180a8ac844f401b282b104571418e6a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 36/58] fix: keep the expansion of a sky or a beam when reading
 a new one fails

A file whose size can be read but whose data cannot (cut off, illegal
index, ...) left the object with the limits of the new file and
coefficients that were never read, on which convolvers went on working.
---
 src/conviqt_io.cpp | 93 ++++++++++++++++++++++++++--------------------
 1 file changed, 53 insertions(+), 40 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 8d99b88..d90a1c7 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -55,26 +55,22 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     if (new_lmax < 0 || new_mmax < 0) {
         throw std::runtime_error("No expansion in " + infile_beam);
     }
-    lmax = new_lmax;
-    mmax = new_mmax;
-    normalized_ = false;
-    pol = beampol;
-    fname = infile_beam;
-
-    blmT_.Set(lmax, mmax);
-    if (pol) {
-        blmG_.Set(lmax, mmax);
-        blmC_.Set(lmax, mmax);
+    // Do not touch the present expansion before the new one is complete
+    Alm< xcomplex<float> > newT, newG, newC;
+    newT.Set(new_lmax, new_mmax);
+    if (beampol) {
+        newG.Set(new_lmax, new_mmax);
+        newC.Set(new_lmax, new_mmax);
     }
 
-    long blmsize = (mmax + 1) * (mmax + 2) + 2 * (mmax + 1) * (lmax - mmax);
+    long blmsize = (new_mmax + 1) * (new_mmax + 2) + 2 * (new_mmax + 1) * (new_lmax - new_mmax);
 
     if (rank == 0) {
         try {
-            if (pol) {
-                read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
+            if (beampol) {
+                read_Alm_from_fits(infile_beam, newT, newG, newC, new_lmax, new_mmax);
             } else {
-                read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+                read_Alm_from_fits(infile_beam, newT, new_lmax, new_mmax);
             }
         } catch (...) {
             failed = 1;
@@ -89,12 +85,23 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         throw std::runtime_error("Failed to read " + infile_beam);
     }
 
-    mpiMgr.bcastRaw(&blmT_(0, 0).re, blmsize, 0);
-    if (pol) {
-        mpiMgr.bcastRaw(&blmG_(0, 0).re, blmsize, 0);
-        mpiMgr.bcastRaw(&blmC_(0, 0).re, blmsize, 0);
+    mpiMgr.bcastRaw(&newT(0, 0).re, blmsize, 0);
+    if (beampol) {
+        mpiMgr.bcastRaw(&newG(0, 0).re, blmsize, 0);
+        mpiMgr.bcastRaw(&newC(0, 0).re, blmsize, 0);
     }
 
+    blmT_.swap(newT);
+    if (beampol) {
+        blmG_.swap(newG);
+        blmC_.swap(newC);
+    }
+    lmax = new_lmax;
+    mmax = new_mmax;
+    normalized_ = false;
+    pol = beampol;
+    fname = infile_beam;
+
     return 0;
 }
 
@@ -163,26 +170,22 @@ int sky::read(long skylmax, bool skypol,
     if (new_lmax < 0) {
         throw std::runtime_error("No expansion in " + infile_sky);
     }
-    lmax = new_lmax;
-    int mmax = lmax;
-    pol = skypol;
-    fname = infile_sky;
-    fwhm_deconv = fwhm_deconv_sky;
-
-    slmT_.Set(lmax, lmax);
-    if (pol) {
-        slmG_.Set(lmax, mmax);
-        slmC_.Set(lmax, mmax);
+    // Do not touch the present expansion before the new one is complete
+    Alm< xcomplex<float> > newT, newG, newC;
+    newT.Set(new_lmax, new_lmax);
+    if (skypol) {
+        newG.Set(new_lmax, new_lmax);
+        newC.Set(new_lmax, new_lmax);
     }
 
-    long slmsize = (lmax + 1) * (lmax + 2);
+    long slmsize = (new_lmax + 1) * (new_lmax + 2);
 
     if (rank == 0) {
         try {
-            if (pol) {
-                read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
+            if (skypol) {
+                read_Alm_from_fits(infile_sky, newT, newG, newC, new_lmax, new_lmax);
             } else {
-                read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+                read_Alm_from_fits (infile_sky, newT, new_lmax, new_lmax);
             }
         } catch (...) {
             failed = 1;
@@ -197,19 +200,29 @@ int sky::read(long skylmax, bool skypol,
         throw std::runtime_error("Failed to read " + infile_sky);
     }
 
-    mpiMgr.bcastRaw(&slmT_(0, 0).re, slmsize, 0);
-    if (pol) {
-        mpiMgr.bcastRaw(&slmG_(0, 0).re, slmsize, 0);
-        mpiMgr.bcastRaw(&slmC_(0, 0).re, slmsize, 0);
+    mpiMgr.bcastRaw(&newT(0, 0).re, slmsize, 0);
+    if (skypol) {
+        mpiMgr.bcastRaw(&newG(0, 0).re, slmsize, 0);
+        mpiMgr.bcastRaw(&newC(0, 0).re, slmsize, 0);
     }
 
-    double fwhm = arcmin2rad * fwhm_deconv;
-    if (pol) {
-        smoothWithGauss(slmT_, slmG_, slmC_, -fwhm);
+    double fwhm = arcmin2rad * fwhm_deconv_sky;
+    if (skypol) {
+        smoothWithGauss(newT, newG, newC, -fwhm);
     } else {
-        smoothWithGauss (slmT_, -fwhm);
+        smoothWithGauss (newT, -fwhm);
     }
 
+    slmT_.swap(newT);
+    if (skypol) {
+        slmG_.swap(newG);
+        slmC_.swap(newC);
+    }
+    lmax = new_lmax;
+    pol = skypol;
+    fname = infile_sky;
+    fwhm_deconv = fwhm_deconv_sky;
+
     return 0;
 }
 
-- 
2.43.0


From 8b1d52b8394baa766272fa5c52f7ad3d6ae9e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 37/58] fix: check the limits of an Alm before computing with
 them

---
 levels/Healpix_cxx/ls_alm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/levels/Healpix_cxx/ls_alm.h b/levels/Healpix_cxx/ls_alm.h
index d3b6ad8..0068118 100644
--- a/levels/Healpix_cxx/ls_alm.h
+++ b/levels/Healpix_cxx/ls_alm.h
@@ -100,8 +100,9 @@ template<typename T> class Alm: public Alm_Base
         \a lmax and \a mmax. */
     void Set (int lmax_, int mmax_)
       {
+      tsize num = Num_Alms(lmax_,mmax_);
       Alm_Base::Set(lmax_, mmax_);
-      alm.alloc(Num_Alms(lmax,mmax));
+      alm.alloc(num);
       }
 
     /*! Deallocates the old coefficients and uses the content of \a data
-- 
2.43.0


From 169be9c89aa2da212a8998f94d5fcf9ab5705240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 38/58] fix: do not take a polarised file without coefficients
 for one with lmax 0

---
 levels/Healpix_cxx/alm_fitsio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index 46eb403..931d1f5 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -84,7 +84,7 @@ void get_almsize_pol(const string &filename, int &lmax, int &mmax)
   int tlmax, tmmax;
   fitshandle inp;
   inp.open (filename);
-  lmax=mmax=0;
+  lmax=mmax=-1;
   for (int hdu=2; hdu<=4; ++hdu)
     {
     inp.goto_hdu(hdu);
-- 
2.43.0


From a28b598e2f52864cdf574301075cf2a2bf560204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 39/58] fix: do not compute with undefined timing statistics on
 other ranks than the root

---
 src/conviqt_math.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 6b83220..540babb 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1735,20 +1735,20 @@ void convolver::report_timing() {
 }
 
 void convolver::timing_line(std::string label, double timer, long counter) {
-    double tmin, tmax;
+    double tmin = 0, tmax = 0;
     mpiMgr.reduceRaw<double>(&timer, &tmin, 1, mpiMgr.Min);
     mpiMgr.reduceRaw<double>(&timer, &tmax, 1, mpiMgr.Max);
-    double tmean, tstd;
+    double tmean, tstd = 0;
     mpiMgr.allreduceRaw<double>(&timer, &tmean, 1, mpiMgr.Sum);
     tmean /= cores;
     double tsquare = ((timer - tmean) * (timer - tmean));
     mpiMgr.reduceRaw<double>(&tsquare, &tstd, 1, mpiMgr.Sum);
     tstd = sqrt(tstd / cores);
 
-    long cmin, cmax;
+    long cmin = 0, cmax = 0;
     mpiMgr.reduceRaw<long>(&counter, &cmin, 1, mpiMgr.Min);
     mpiMgr.reduceRaw<long>(&counter, &cmax, 1, mpiMgr.Max);
-    double cmean, cstd;
+    double cmean, cstd = 0;
     double dcounter = counter;
     mpiMgr.allreduceRaw<double>(&dcounter, &cmean, 1, mpiMgr.Sum);
     cmean /= cores;
-- 
2.43.0


From 9992c79ade14b86cbc2e935c5015ff0ab0b2595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 40/58] fix: write floating-point numbers with enough digits to
 read them back

---
 levels/cxxsupport/string_utils.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/string_utils.cc b/levels/cxxsupport/string_utils.cc
index 72160c2..6a9b84a 100644
--- a/levels/cxxsupport/string_utils.cc
+++ b/levels/cxxsupport/string_utils.cc
@@ -65,13 +65,13 @@ template<> string dataToString (const string &x)
 template<> string dataToString (const float &x)
   {
   ostringstream strstrm;
-  strstrm << setprecision(8) << x;
+  strstrm << setprecision(9) << x;
   return trim(strstrm.str());
   }
 template<> string dataToString (const double &x)
   {
   ostringstream strstrm;
-  strstrm << setprecision(16) << x;
+  strstrm << setprecision(17) << x;
   return trim(strstrm.str());
   }
 template<> string dataToString (const long double &x)
-- 
2.43.0


From a58071a16d26202912446fc003451f258a76eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 41/58] fix: negate the smallest integer without overflow in
 intToString

---
 levels/cxxsupport/string_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/string_utils.cc b/levels/cxxsupport/string_utils.cc
index 6a9b84a..1da547b 100644
--- a/levels/cxxsupport/string_utils.cc
+++ b/levels/cxxsupport/string_utils.cc
@@ -96,7 +96,7 @@ string intToString(int64 x, tsize width)
   {
   ostringstream strstrm;
   (x>=0) ? strstrm << setw(width) << setfill('0') << x
-         : strstrm << "-" << setw(width-1) << setfill('0') << -x;
+         : strstrm << "-" << setw(width-1) << setfill('0') << -uint64(x);
   string res = strstrm.str();
   levels_assert(res.size()==width,"number too large");
   return trim(res);
-- 
2.43.0


From ce371ab3df62ec42cbf5c9529f80e40e1fcf9e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 42/58] fix: no overflow in isqrt for the largest arguments

---
 levels/cxxsupport/ls_math_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/ls_math_utils.h b/levels/cxxsupport/ls_math_utils.h
index 1f0bc5d..8f77853 100644
--- a/levels/cxxsupport/ls_math_utils.h
+++ b/levels/cxxsupport/ls_math_utils.h
@@ -110,9 +110,10 @@ template<typename I> struct isqrt_helper__ <I, true>
     using namespace std;
     I res = sqrt(double(arg)+0.5);
     if (arg<(int64(1)<<50)) return uint32(res);
-    if (res*res>arg)
+    // divide instead of multiplying, which could overflow
+    if (res>arg/res)
       --res;
-    else if ((res+1)*(res+1)<=arg)
+    else if ((res+1)<=arg/(res+1))
       ++res;
     return uint32(res);
     }
-- 
2.43.0


From d2d00cd90b2a7cfc4de43d4cdc9ed28a5b5ec878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 43/58] fix: extract the axis of rotations by about pi from the
 symmetric part of the matrix

---
 levels/cxxsupport/rotmatrix.cc | 58 +++++++++++++---------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/levels/cxxsupport/rotmatrix.cc b/levels/cxxsupport/rotmatrix.cc
index d56feec..94ad3b1 100644
--- a/levels/cxxsupport/rotmatrix.cc
+++ b/levels/cxxsupport/rotmatrix.cc
@@ -73,47 +73,33 @@ void rotmatrix::toAxisAngle (vec3 &axis, double &angle) const
 
   double s2 = axis.Length();
 
-  if (s2>0)
-    {
-    angle = atan2(s2,c2);
-    axis *= 1/s2;
-    return;
-    }
-
-  if (c2>=2) // angle is 0
-    {
-    axis = vec3(1,0,0);
-    angle = 0;
-    return;
-    }
-
-  angle = pi;
-
-  int choice = 0; // assume entry[0][0] is the largest
-  if ((entry[1][1]>entry[0][0]) && (entry[1][1]>entry[2][2])) choice=1;
-  if ((entry[2][2]>entry[0][0]) && (entry[2][2]>entry[1][1])) choice=2;
+  angle = atan2(s2,c2);
 
-  if (choice==0)
-    {
-    axis.x = 0.5*sqrt(entry[0][0]-entry[1][1]-entry[2][2]+1);
-    double half_inv = 0.5/axis.x;
-    axis.y = half_inv*entry[0][1];
-    axis.z = half_inv*entry[0][2];
-    return;
-    }
-  if (choice==1)
+  if (c2>=0)
     {
-    axis.y = 0.5*sqrt(entry[1][1]-entry[0][0]-entry[2][2]+1);
-    double half_inv = 0.5/axis.y;
-    axis.x = half_inv*entry[0][1];
-    axis.z = half_inv*entry[1][2];
+    if (s2>0)
+      axis *= 1/s2;
+    else // angle is 0
+      axis = vec3(1,0,0);
     return;
     }
 
-  axis.z = 0.5*sqrt(entry[2][2]-entry[0][0]-entry[1][1]+1);
-  double half_inv = 0.5/axis.z;
-  axis.x = half_inv*entry[0][2];
-  axis.y = half_inv*entry[1][2];
+  // Close to an angle of pi only the symmetric part of the matrix determines
+  // the axis; the antisymmetric part chooses its direction.
+  int i = 0; // index of the largest diagonal element
+  if (entry[1][1]>entry[i][i]) i=1;
+  if (entry[2][2]>entry[i][i]) i=2;
+  int j = (i+1)%3, k = (i+2)%3;
+
+  double ca = 0.5*c2, a[3];
+  a[i] = sqrt((entry[i][i]-ca)/(1-ca));
+  double fct = 0.5/((1-ca)*a[i]);
+  a[j] = fct*(entry[i][j]+entry[j][i]);
+  a[k] = fct*(entry[i][k]+entry[k][i]);
+
+  vec3 axis2(a[0],a[1],a[2]);
+  if (dotprod(axis,axis2)<0) axis2.Flip();
+  axis = axis2;
   }
 
 void rotmatrix::Make_Axis_Rotation_Transform (const vec3 &axis, double angle)
-- 
2.43.0


From b4d449bb1b59e0d3d09a2d418e093c30290f4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:23 +0000
Subject: [PATCH 44/58] fix: reduction of arrays does not compile on the ranks
 other than the root

---
 levels/cxxsupport/ls_mpi_support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/ls_mpi_support.h b/levels/cxxsupport/ls_mpi_support.h
index f8872af..649f128 100644
--- a/levels/cxxsupport/ls_mpi_support.h
+++ b/levels/cxxsupport/ls_mpi_support.h
@@ -198,7 +198,7 @@ class MPI_Manager
       }
     template<typename T> void reduce_s (const arr<T> &in, redOp op, int root=0)
       const
-      { reduceRaw (&in[0], 0, in.size(), op, root); }
+      { reduceRawVoid (&in[0], 0, nativeType<T>(), in.size(), op, root); }
 
     void allgatherRawVoid (const void *in, void *out, NDT type, tsize num)
       const;
-- 
2.43.0


From e627de711d09588901434412d52ee804154b3f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 45/58] fix: drop the old components when re-allocating a
 PowSpec

---
 levels/Healpix_cxx/powspec.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/levels/Healpix_cxx/powspec.cc b/levels/Healpix_cxx/powspec.cc
index a9ab576..a95c1f4 100644
--- a/levels/Healpix_cxx/powspec.cc
+++ b/levels/Healpix_cxx/powspec.cc
@@ -93,6 +93,7 @@ bool PowSpec::consistentAutoPowspec() const
 
 void PowSpec::Set(int nspec, int lmax)
   {
+  dealloc();
   num_specs=nspec;
   levels_assert ((num_specs==1) || (num_specs==4) || (num_specs==6),
     "wrong number of spectrums");
-- 
2.43.0


From b9fee0dfd9df72df20f5cecd34d36f773d0a424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 46/58] fix: realise GG and CC of multipoles without TT power

---
 levels/Healpix_cxx/alm_powspec_tools.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/levels/Healpix_cxx/alm_powspec_tools.cc b/levels/Healpix_cxx/alm_powspec_tools.cc
index 82fe4fc..e9a0351 100644
--- a/levels/Healpix_cxx/alm_powspec_tools.cc
+++ b/levels/Healpix_cxx/alm_powspec_tools.cc
@@ -105,20 +105,17 @@ template<typename T> void create_alm_pol
 
   for (int l=0; l<=lmax; ++l)
     {
-    double rms_g2 = 0;
-    double rms_cc = 0;
+    double rms_g2 = powspec.gg(l);
     if (powspec.tt(l) != 0)
+      rms_g2 -= (powspec.tg(l)/powspec.tt(l))*powspec.tg(l);
+    if (rms_g2 <= 0)
       {
-      rms_g2 = powspec.gg(l) - (powspec.tg(l)/powspec.tt(l))*powspec.tg(l);
-      if (rms_g2 <= 0)
-        {
-          levels_assert (::abs(rms_g2) <= 1e-8*::abs(powspec.gg(l)),
-          "Inconsistent TT, GG and TG spectra at l="+dataToString(l));
-        rms_g2 = 0;
-        }
-      rms_g2 = ::sqrt(rms_g2);
-      rms_cc = ::sqrt(powspec.cc(l));
+      levels_assert (::abs(rms_g2) <= 1e-8*::abs(powspec.gg(l)),
+        "Inconsistent TT, GG and TG spectra at l="+dataToString(l));
+      rms_g2 = 0;
       }
+    rms_g2 = ::sqrt(rms_g2);
+    double rms_cc = ::sqrt(powspec.cc(l));
     almG(l,0) += T(rng.rand_gauss()*rms_g2);
     almC(l,0)  = T(rng.rand_gauss()*rms_cc);
 
-- 
2.43.0


From ae97990c0d6b6bae5fd915071096e671c1dae04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 47/58] fix: fitshandle refuses pieces of images beyond the
 image

---
 levels/cxxsupport/fitshandle.cc   | 14 ++++++++++++++
 levels/cxxsupport/ls_fitshandle.h |  1 +
 2 files changed, 15 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 44c936f..1466723 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -192,6 +192,13 @@ bool fitshandle::table_hdu (tsize col) const
   }
 bool fitshandle::image_hdu () const
   { return hdutype_==IMAGE_HDU; }
+int64 fitshandle::image_size () const
+  {
+  if (axes_.empty()) return 0;
+  int64 result=1;
+  for (tsize m=0; m<axes_.size(); ++m) result*=axes_[m];
+  return result;
+  }
 
 void fitshandle::init_image()
   {
@@ -751,6 +758,8 @@ void fitshandle::write_subimage_void (const void *data, PDT type, tsize sz,
   int64 offset)
   {
   levels_assert(image_hdu(),"not connected to an image");
+  levels_assert((offset>=0) && (offset+int64(sz)<=image_size()),
+    "write_subimage(): array exceeds the image");
   fits_write_img (FPTR, type2ftc(type), 1+offset, sz, const_cast<void *>(data),
     &status);
   check_errors();
@@ -788,6 +797,9 @@ template<typename T> void fitshandle::read_subimage
   {
   levels_assert(image_hdu(),"not connected to an image");
   levels_assert (axes_.size()==2, "wrong number of dimensions");
+  levels_assert ((xl>=0) && (xl+int64(data.size1())<=axes_[0])
+    && (yl>=0) && (yl+int64(data.size2())<=axes_[1]),
+    "read_subimage(): array exceeds the image");
   for (tsize m=0; m<data.size1(); ++m)
     fits_read_img (FPTR, fitsType<T>(), (xl+m)*axes_[1]+yl+1,
       data.size2(), 0, &data[m][0], 0, &status);
@@ -803,6 +815,8 @@ void fitshandle::read_subimage_void (void *data, PDT type, tsize ndata,
   int64 offset) const
   {
   levels_assert(image_hdu(),"not connected to an image");
+  levels_assert((offset>=0) && (offset+int64(ndata)<=image_size()),
+    "read_subimage(): array exceeds the image");
   fits_read_img (FPTR, type2ftc(type), 1+offset, ndata, 0, data, 0, &status);
   check_errors();
   }
diff --git a/levels/cxxsupport/ls_fitshandle.h b/levels/cxxsupport/ls_fitshandle.h
index 509c601..21ca91c 100644
--- a/levels/cxxsupport/ls_fitshandle.h
+++ b/levels/cxxsupport/ls_fitshandle.h
@@ -89,6 +89,7 @@ class fitshandle
     bool connected() const { return (hdutype_!=INVALID); }
     bool table_hdu (tsize col) const;
     bool image_hdu () const;
+    int64 image_size () const;
 
     void init_image();
     void init_asciitab();
-- 
2.43.0


From 9914db268cd21d1ddecb9a567fa49293b5ccfe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 48/58] fix: HDU operations of an unconnected fitshandle are
 refused instead of crashing

---
 levels/cxxsupport/fitshandle.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 1466723..8af7244 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -373,6 +373,7 @@ string fitshandle::fileName() const
 void fitshandle::goto_hdu (int hdu)
   {
   int curhdu;
+  levels_assert(fptr!=0,"handle not connected to a file");
   fits_get_hdu_num(FPTR,&curhdu);
   if (curhdu!=hdu)
     {
@@ -385,6 +386,7 @@ void fitshandle::goto_hdu (int hdu)
 int fitshandle::num_hdus () const
   {
   int result;
+  levels_assert(fptr!=0,"handle not connected to a file");
   fits_get_num_hdus (FPTR, &result, &status);
   check_errors();
   return result;
@@ -393,6 +395,7 @@ int fitshandle::num_hdus () const
 void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
   const string &extname)
   {
+  levels_assert(fptr!=0,"handle not connected to a file");
   clean_data();
   int ncol=cols.size();
   arr2b<char> ttype(ncol,81), tform(ncol,81), tunit(ncol,81);
@@ -416,6 +419,7 @@ void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
 void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
   const string &extname)
   {
+  levels_assert(fptr!=0,"handle not connected to a file");
   clean_data();
   int ncol=cols.size();
   arr2b<char> ttype(ncol,81), tform(ncol,81), tunit(ncol,81);
@@ -446,6 +450,7 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
 
 void fitshandle::insert_image (PDT type, const vector<int64> &Axes)
   {
+  levels_assert(fptr!=0,"handle not connected to a file");
   clean_data();
   arr<LONGLONG> tmpax(Axes.size());
   for (long m=0; m<long(Axes.size()); m++) tmpax[m]=Axes[Axes.size()-1-m];
@@ -457,6 +462,7 @@ void fitshandle::insert_image (PDT type, const vector<int64> &Axes)
 template<typename T>
   void fitshandle::insert_image (PDT type, const arr2<T> &data)
   {
+  levels_assert(fptr!=0,"handle not connected to a file");
   clean_data();
   arr<LONGLONG> tmpax(2);
   tmpax[0] = data.size2(); tmpax[1] = data.size1();
-- 
2.43.0


From e1c4327d40f06feaf7665c46ac7e18254504b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 49/58] fix: a fitshandle does not describe another HDU after a
 failed access

---
 levels/cxxsupport/fitshandle.cc | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 8af7244..27c1217 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -254,16 +254,24 @@ void fitshandle::init_data()
   clean_data();
   fits_get_hdu_type (FPTR, &hdutype_, &status);
   check_errors();
-  switch(hdutype_)
+  try
     {
-    case IMAGE_HDU:
-      init_image(); break;
-    case ASCII_TBL:
-      init_asciitab(); break;
-    case BINARY_TBL:
-      init_bintab(); break;
-    default:
-      levels_fail("init_data(): unsupported HDU type"); break;
+    switch(hdutype_)
+      {
+      case IMAGE_HDU:
+        init_image(); break;
+      case ASCII_TBL:
+        init_asciitab(); break;
+      case BINARY_TBL:
+        init_bintab(); break;
+      default:
+        levels_fail("init_data(): unsupported HDU type"); break;
+      }
+    }
+  catch (...)
+    {
+    clean_data(); // do not keep an incomplete description
+    throw;
     }
   }
 
@@ -375,9 +383,10 @@ void fitshandle::goto_hdu (int hdu)
   int curhdu;
   levels_assert(fptr!=0,"handle not connected to a file");
   fits_get_hdu_num(FPTR,&curhdu);
-  if (curhdu!=hdu)
+  if ((curhdu!=hdu) || (hdutype_==INVALID))
     {
-    fits_movabs_hdu(FPTR, hdu, &hdutype_, &status);
+    clean_data(); // stays like this when the HDU cannot be accessed
+    fits_movabs_hdu(FPTR, hdu, 0, &status);
     check_errors();
     init_data();
     }
-- 
2.43.0


From 89a0588785c6ce6358d23a48731354a85705f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 50/58] fix: writing an empty array does not change the
 reported number of table rows

---
 levels/cxxsupport/fitshandle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 27c1217..e87586c 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -299,7 +299,7 @@ void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   fits_write_col (FPTR, type2ftc(type), colnum, frow, felem, ndata,
     const_cast<void *>(data), &status);
   check_errors();
-  nrows_ = max(nrows_,(offset+ndata+repc-1)/repc);
+  if (ndata>0) nrows_ = max(nrows_,(offset+ndata+repc-1)/repc);
   }
 
 void fitshandle::getKeyHelper(const string &name) const
@@ -748,7 +748,7 @@ void fitshandle::write_column_raw_void
       fits_write_col (FPTR, TSTRING, colnum, offset+1, 1, num,
         tdata.p0(), &status);
       check_errors();
-      nrows_ = max(nrows_,offset+num);
+      if (num>0) nrows_ = max(nrows_,offset+num);
       break;
       }
     default:
-- 
2.43.0


From 0a62a0435d7303c04029d76b22aa8aadbb47c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 51/58] fix: reading a long string keyword as an integer is
 refused instead of crashing

---
 levels/cxxsupport/fitshandle.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index e87586c..3a32de2 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -620,6 +620,16 @@ void fitshandle::get_key_void (const string &name, void *value, PDT type) const
     case LEVELS_INT16:
     case LEVELS_INT32:
     case LEVELS_INT64:
+      {
+      // CFITSIO overflows a buffer when a longer string is not an integer
+      char keyval[FLEN_VALUE];
+      fits_read_keyword (FPTR, const_cast<char *>(name.c_str()), keyval, 0,
+        &status);
+      getKeyHelper(name);
+      levels_assert((keyval[0]!='\'') || (strlen(keyval)<=28),
+        "fitshandle::get_key(): key '"+name+"' is not an integer");
+      }
+      // fall through
     case LEVELS_FLOAT32:
     case LEVELS_FLOAT64:
       fits_read_key (FPTR, type2ftc(type), const_cast<char *>(name.c_str()),
-- 
2.43.0


From 0e36904be1fd6139b8d7ad809f75683320984f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 52/58] fix: logical FITS columns with other characters do not
 produce invalid bools

---
 levels/cxxsupport/fitshandle.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 3a32de2..9859d66 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -287,6 +287,12 @@ void fitshandle::read_col (int colnum, void *data, int64 ndata, PDT type,
   fits_read_col (FPTR, type2ftc(type), colnum, frow, felem, ndata, 0, data, 0,
     &status);
   check_errors();
+  if (type==LEVELS_BOOL) // CFITSIO passes on characters other than 'T' and 'F'
+    for (int64 m=0; m<ndata; ++m)
+      {
+      char &val = static_cast<char *>(data)[m];
+      val = (val!=0);
+      }
   }
 void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   PDT type, int64 offset)
-- 
2.43.0


From f9e312c990178b254c8e4619d992db87bc2046bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 53/58] fix: refuse a number of rows that does not fit the size
 argument

---
 python/libconviqt_wrapper/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index f6d5485..584c851 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -403,6 +403,10 @@ if available:
 
         def alloc(self, nrow):
             self._nrow = 0
+            if nrow < 0 or nrow > sys.maxsize // self._ncol:
+                raise RuntimeError(
+                    "Cannot allocate {} rows to pointing".format(nrow)
+                )
             err = _conviqt.conviqt_pointing_alloc(self._pnt, nrow * self._ncol)
             if err != 0:
                 raise RuntimeError(
-- 
2.43.0


From 15ebc39e4e600f9f5a4c4f4f6917962297072a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 54/58] fix: complete the cancellation step of the singular
 value decomposition (wrong results for singular and wide matrices)

---
 levels/c_utils/svd_c.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/levels/c_utils/svd_c.c b/levels/c_utils/svd_c.c
index aa3fecc..4f9d434 100644
--- a/levels/c_utils/svd_c.c
+++ b/levels/c_utils/svd_c.c
@@ -239,21 +239,21 @@ void svd_init (double **matrix, double epsilon, int m, int n,
         for (i=l; i<=k; ++i)
           {
           f = s*rv1[i];
-          if (fabs(f) + anorm != anorm)
+          rv1[i] = c*rv1[i];
+          if (fabs(f) + anorm == anorm)
+            break;
+          g = w[i];
+          h = pythag(f, g);
+          w[i] = h;
+          h = 1.0/h;
+          c = g*h;
+          s = (-f*h);
+          for (j=0; j<m; ++j)
             {
-            g = w[i];
-            h = pythag(f, g);
-            w[i] = h;
-            h = 1.0/h;
-            c = g*h;
-            s = (-f*h);
-            for (j=0; j<m; ++j)
-              {
-              y = u[nm][j];
-              z = u[i][j];
-              u[nm][j] = y*c + z*s;
-              u[i][j]  = z*c - y*s;
-              }
+            y = u[nm][j];
+            z = u[i][j];
+            u[nm][j] = y*c + z*s;
+            u[i][j]  = z*c - y*s;
             }
           }
         }
-- 
2.43.0


From eb2fefd16eaefd3efcb52522ed2ad3088409c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 55/58] fix: residentSetSize() returned an error after a
 successful read

---
 levels/c_utils/memusage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/c_utils/memusage.c b/levels/c_utils/memusage.c
index a1c25c0..ef4bed5 100644
--- a/levels/c_utils/memusage.c
+++ b/levels/c_utils/memusage.c
@@ -38,7 +38,7 @@ double residentSetSize(void)
   FILE *statm = fopen("/proc/self/statm","r");
   double res;
   if (!statm) return -1.0;
-  if (fscanf(statm,"%*f %lf",&res))
+  if (fscanf(statm,"%*f %lf",&res)!=1)
       { fclose(statm); return -1.0; }
   fclose(statm);
   return (res*4096);
-- 
2.43.0


From 67c4b9f2bba4795be3e284cf39613278d9d13fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:10 +0000
Subject: [PATCH 56/58] fix: dateandtime2planck() took the second before 1970
 for an error

---
 levels/c_utils/time_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/levels/c_utils/time_utils.c b/levels/c_utils/time_utils.c
index 065ce4b..dae15a5 100644
--- a/levels/c_utils/time_utils.c
+++ b/levels/c_utils/time_utils.c
@@ -95,8 +95,9 @@ long long dateandtime2planck (int yr, int mth, int day, int hr, int min,
   mytime.tm_mon = mth-1;
   mytime.tm_year = yr-1900;
   mytime.tm_isdst=0;
+  mytime.tm_wday=-1; /* only set on success; -1 is also a legal return value */
   tplanck = my_timegm(&mytime);
-  UTIL_ASSERT(tplanck!=-1,"error in mktime()");
+  UTIL_ASSERT(mytime.tm_wday!=-1,"error in mktime()");
   return tplanck-unixzero+SECS_1958_TO_1970;
   }
 
-- 
2.43.0


From a91cefe73d2476384716cc265890fa1ca0d01fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:06 +0000
Subject: [PATCH 57/58] fix: numbers of the signed/unsigned char types were
 converted to and from text as characters

---
 levels/cxxsupport/string_utils.cc | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/levels/cxxsupport/string_utils.cc b/levels/cxxsupport/string_utils.cc
index 1da547b..72c8c83 100644
--- a/levels/cxxsupport/string_utils.cc
+++ b/levels/cxxsupport/string_utils.cc
@@ -81,8 +81,12 @@ template<> string dataToString (const long double &x)
   return trim(strstrm.str());
   }
 
-template string dataToString (const signed char &x);
-template string dataToString (const unsigned char &x);
+// the stream operators would treat these types as characters
+template<> string dataToString (const signed char &x)
+  { return dataToString(int(x)); }
+template<> string dataToString (const unsigned char &x)
+  { return dataToString(int(x)); }
+
 template string dataToString (const short &x);
 template string dataToString (const unsigned short &x);
 template string dataToString (const int &x);
@@ -138,8 +142,25 @@ template<> void stringToData (const string &x, bool &value)
   levels_fail("conversion error in stringToData<bool>(\""+x+"\")");
   }
 
-template void stringToData (const string &x, signed char &value);
-template void stringToData (const string &x, unsigned char &value);
+namespace {
+
+// the stream operators would treat these types as characters
+template<typename T> void smallIntToData (const string &x, T &value)
+  {
+  int val;
+  stringToData(x,val);
+  levels_assert (val==int(T(val)),string("conversion error in stringToData<")
+    +type2typename<T>()+">(\""+x+"\")");
+  value=T(val);
+  }
+
+} // unnamed namespace
+
+template<> void stringToData (const string &x, signed char &value)
+  { smallIntToData(x,value); }
+template<> void stringToData (const string &x, unsigned char &value)
+  { smallIntToData(x,value); }
+
 template void stringToData (const string &x, short &value);
 template void stringToData (const string &x, unsigned short &value);
 template void stringToData (const string &x, int &value);
-- 
2.43.0


From 8e27d71d2d999c27990c77387ceed74335626482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:26 +0000
Subject: [PATCH 58/58] fix: let svd_init converge for matrices with equal
 singular values

---
 levels/c_utils/svd_c.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/levels/c_utils/svd_c.c b/levels/c_utils/svd_c.c
index 4f9d434..dfc79b2 100644
--- a/levels/c_utils/svd_c.c
+++ b/levels/c_utils/svd_c.c
@@ -33,6 +33,7 @@
    This code has not been extensively tested yet, so use at your own risk! */
 
 #include <stdio.h>
+#include <float.h>
 #include <math.h>
 #include "c_utils.h"
 #include "svd_c.h"
@@ -68,7 +69,7 @@ void svd_init (double **matrix, double epsilon, int m, int n,
   double *stmp, *rv1=RALLOC(double,n);
   double **u, **v, *w;
   int i, j, k, its, jj;
-  double anorm, g, scale, wmin, wmax;
+  double anorm, g, scale, wmin, wmax, negligible;
 
   ALLOC2D(u,double,n,m);
   ALLOC2D(v,double,n,n);
@@ -215,6 +216,9 @@ void svd_init (double **matrix, double epsilon, int m, int n,
     ++u[i][i];
     }
 
+  /* Rounding can keep off-diagonal elements of about this size from vanishing. */
+  negligible = 2*DBL_EPSILON*anorm;
+
   /* Diagonalization of the bidiagonal form. */
   for (k=n-1; 0<=k; --k) /* Loop over singular values. */
     {
@@ -224,12 +228,12 @@ void svd_init (double **matrix, double epsilon, int m, int n,
       for (l=k; 0<=l; --l) /* Test for splitting: */
         {
         nm = l - 1; /* Note that rv1[0] is always zero. */
-        if (fabs(rv1[l]) + anorm == anorm)
+        if (fabs(rv1[l]) <= negligible)
           {
           flag = 0;
           break;
           }
-        if (fabs(w[nm]) + anorm == anorm)
+        if (fabs(w[nm]) <= negligible)
           break;
         }
       if (flag)
@@ -240,7 +244,7 @@ void svd_init (double **matrix, double epsilon, int m, int n,
           {
           f = s*rv1[i];
           rv1[i] = c*rv1[i];
-          if (fabs(f) + anorm == anorm)
+          if (fabs(f) <= negligible)
             break;
           g = w[i];
           h = pythag(f, g);
-- 
2.43.0


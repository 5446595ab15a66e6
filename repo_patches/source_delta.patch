From b2d031cc5a90fa80825a5a3e480f1a03d5611633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 01/29] fix: copying or assigning a Set must not leave its
 subsets on the source's site tables

Subsets of a copied Set pointed to the site tables (and Set) of the original,
so re-making or destroying the original changed or invalidated the copy.
---
 include/qdp_subset.h | 3 +++
 lib/qdp_subset.cc    | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/qdp_subset.h b/include/qdp_subset.h
index 38aa4e9..11b29a6 100644
--- a/include/qdp_subset.h
+++ b/include/qdp_subset.h
@@ -101,6 +101,9 @@ public:
   //! Constructor from a function object
   Set(const SetFunc& fn) {make(fn);}
 
+  //! Copy constructor
+  Set(const Set& s) {*this = s;}
+
   //! Constructor from a function object
   void make(const SetFunc& fn);
 
diff --git a/lib/qdp_subset.cc b/lib/qdp_subset.cc
index 68913b7..53afc2c 100644
--- a/lib/qdp_subset.cc
+++ b/lib/qdp_subset.cc
@@ -162,6 +162,12 @@ namespace QDP
     sub = s.sub;
     lat_color = s.lat_color;
     sitetables = s.sitetables;
+
+    // The subsets must refer to this set and its own site tables
+    for(int cb=0; cb < sub.size(); ++cb)
+      sub[cb].make(sub[cb].ordRep, sub[cb].startSite, sub[cb].endSite,
+		   &(sitetables[cb]), sub[cb].sub_index, this);
+
     return *this;
   }
 
-- 
2.43.0


From a26e2360db0773b44dda08334dd356f77d22fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:35 +0000
Subject: [PATCH 02/29] fix: advance the random seed the same way whatever the
 subset

random() on a subset took the new global seed from the last site a thread
visited.  With no site in the subset (or, for OpenMP, in a thread's share) the
seed was uninitialised memory; on several nodes, those without a site of the
subset kept the old seed and went out of step with the rest.
---
 include/qdp_parscalar_specific.h | 18 +++++++++---------
 include/qdp_scalar_specific.h    | 13 ++++++++-----
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index 7e91f24..b86d5bb 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -525,7 +525,7 @@ random(OLattice<T>& d, const Subset& s)
 		Seed seed;
 		Seed skewed_seed;
 
-#pragma omp for // need the barrier to avoid that RNG::ran_seed is changed too early!
+#pragma omp for
 		for(int j=0; j < nodeSites; ++j)
 		{
 			int i = tab[j];
@@ -534,15 +534,15 @@ random(OLattice<T>& d, const Subset& s)
 			skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
 			fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
 		}
-
-		int myId = qdpThreadNum();
-		if( myId < nodeSites ) {
-#pragma omp critical (random)
-		{
-			RNG::ran_seed = seed;	 // The seed from any site is the same as the new global seed
-		}
-		}
 	}
+
+	// The seed from any site is the same as the new global seed. Do not take it from
+	// one of the sites above: this node may have no site in the subset.
+	T dummy;
+	Seed seed = RNG::ran_seed;
+	Seed skewed_seed = RNG::ran_seed;
+	fill_random(dummy, seed, skewed_seed, RNG::ran_mult_n);
+	RNG::ran_seed = seed;
 }
 
 
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index fe40026..f4935b2 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -346,7 +346,7 @@ random(OLattice<T>& d, const Subset& s)
     Seed seed;
     Seed skewed_seed;
 
-#pragma omp for // need the barrier to avoid that RNG::ran_seed is changed too early
+#pragma omp for
     for(int j=0; j < s.numSiteTable(); ++j) {
       int i = tab[j];
       seed = RNG::ran_seed;
@@ -354,12 +354,15 @@ random(OLattice<T>& d, const Subset& s)
       fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
     }
 
-#pragma omp critical (random)
-    {
-      RNG::ran_seed = seed;  // The seed from any site is the same as the new global seed
-    }
   }
 
+  // The seed from any site is the same as the new global seed. Do not take it from
+  // one of the sites above: the subset, or the share of a thread, may be empty.
+  T dummy;
+  Seed seed = RNG::ran_seed;
+  Seed skewed_seed = RNG::ran_seed;
+  fill_random(dummy, seed, skewed_seed, RNG::ran_mult_n);
+  RNG::ran_seed = seed;
 }
 
 
-- 
2.43.0


From 62114ad1d6ec38599496d11ef688acd3cf17a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:35 +0000
Subject: [PATCH 03/29] fix: RANNYU keeps the low bits of the most significant
 word

The top word was shifted by 12 instead of masked, so the state left the range
of 12 bit words, the sequence was not the documented congruential one modulo
2^48, and random() could return values of 1 and above.
---
 lib/qdp_rannyu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index a7d294a..75a28ee 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -47,7 +47,7 @@ namespace QDP
 	ll[2] = ii[2] & 4095;
 	ii[1] = ii[1] + (ii[2] >> 12);
 	ll[1] = ii[1] & 4095;
-	ll[0] = (ii[0] + (ii[1] >> 12)) >> 12;
+	ll[0] = (ii[0] + (ii[1] >> 12)) & 4095;
 	ran = twom12*((double)ll[0] + twom12*((double)ll[1] + twom12*((double)ll[2] + twom12*((double)ll[3]))));
       }
     }
-- 
2.43.0


From f8a2cc69bb001e3768693a8c5f959fc32b043bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:35 +0000
Subject: [PATCH 04/29] fix: RANNYU honours a seed set, and returns one, before
 the first draw

setrn() before the first random() was overwritten by the default seed, and
savern() before it returned an empty array.
---
 lib/qdp_rannyu.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index 75a28ee..8f955a5 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -29,6 +29,19 @@ namespace QDP
       bool inited = false;
       
       double twom12 = 1/4096.0;
+
+      // Initialize the global seed if needed
+      void initDefaultSeed()
+      {
+	if (! inited)
+	{
+	  ran_seed.resize(4);
+	  for(int i=0; i < 4; ++i)
+	    ran_seed[i] = __default_seed[i];
+
+	  inited = true;
+	}
+      }
     }
 
     // Hide the actual RNG
@@ -58,16 +71,7 @@ namespace QDP
     {
       double ran;
 
-      // Initialize the global seed if needed
-      if (! inited)
-      {
-	ran_seed.resize(4);
-	for(int i=0; i < 4; ++i)
-	  ran_seed[i] = __default_seed[i];
-
-	inited = true;
-      }
-
+      initDefaultSeed();
       __rand(ran, ran_seed);
       return ran;
     }
@@ -83,12 +87,14 @@ namespace QDP
       }
 	
       ran_seed = iseed;
+      inited = true;
     }
 
 
     //! Recover the seed
     multi1d<int> savern()
     {
+      initDefaultSeed();
       return ran_seed;
     }
 
-- 
2.43.0


From 0cee77e9a5bd7a9b4d7e798cfad2ec99355d018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:06 +0000
Subject: [PATCH 05/29] fix: opening a binary buffer starts its checksum

The constructors taking a string, and open(), left the checksum of the buffer
readers and writers uninitialised (or running on), unlike those of the files.
---
 lib/qdp_io.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 7b434db..0fc5fe1 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -923,6 +923,8 @@ namespace QDP
 
   void BinaryBufferReader::open(const std::string& s)
   {
+    checksum = 0;
+
     if (Layout::primaryNode())
       f.str(s);
   }
@@ -1353,6 +1355,8 @@ namespace QDP
 
   void BinaryBufferWriter::open(const std::string& s)
   {
+    checksum = 0;
+
     if (Layout::primaryNode())
       f.str(s);
   }
@@ -1546,6 +1550,8 @@ namespace QDP
 
   void BinaryBufferReaderWriter::open(const std::string& s)
   {
+    checksum = 0;
+
     if (Layout::primaryNode())
       f.str(s);
   }
-- 
2.43.0


From fe09ee6b72cf0a40a931c9e03e6edbba62cbef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 06/29] fix: the lexicographic order runs x fastest in the 3d
 checkerboard layout too

crtesn and local_site were redefined with t fastest for the memory order of this
layout, which also changed the order of lattice and archive files, broke time
slice I/O and, when t is split over nodes, wrote the wrong sites.
---
 lib/qdp_layout.cc           | 10 ++++------
 lib/qdp_parscalar_layout.cc |  8 ++++++--
 lib/qdp_scalar_layout.cc    |  8 ++++++--
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/qdp_layout.cc b/lib/qdp_layout.cc
index 711aa62..243de5e 100644
--- a/lib/qdp_layout.cc
+++ b/lib/qdp_layout.cc
@@ -67,8 +67,9 @@ namespace QDP {
 
 
 #if QDP_USE_CB3D_LAYOUT == 1
+	// Order of the sites of a checkerboard in memory -- t fastest
 
-	multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size)
+	multi1d<int> crtesn_cb3d(int ipos, const multi1d<int>& latt_size)
 	{
 		multi1d<int> coord(latt_size.size());
 		int Ndim=latt_size.size() - 1; // Last elem latt size
@@ -99,7 +100,7 @@ namespace QDP {
 	* Nothing specific about the actual lattice size, can be used for 
 	* any kind of latt size 
 	*/
-	int local_site(const multi1d<int>& coord, const multi1d<int>& latt_size)
+	int local_site_cb3d(const multi1d<int>& coord, const multi1d<int>& latt_size)
 	{
 		int order = 0;
 
@@ -117,9 +118,8 @@ namespace QDP {
 
 		return order;
 	}
+#endif
 
-
-#else
 	// Usual lattice decomposition -- x fastest, t slowest
 	//! Decompose a lexicographic site into coordinates
 	multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size)
@@ -162,8 +162,6 @@ namespace QDP {
 		return order;
 	}
 
-#endif
-
 
 
 } // namespace QDP;
diff --git a/lib/qdp_parscalar_layout.cc b/lib/qdp_parscalar_layout.cc
index 8f925a3..85e47d7 100644
--- a/lib/qdp_parscalar_layout.cc
+++ b/lib/qdp_parscalar_layout.cc
@@ -547,6 +547,10 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout")
 
 QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
 
+  // The order of the sites of one checkerboard
+  multi1d<int> crtesn_cb3d(int ipos, const multi1d<int>& latt_size);
+  int local_site_cb3d(const multi1d<int>& coord, const multi1d<int>& latt_size);
+
   namespace Layout
   {
     //! The linearized site index for the corresponding coordinate
@@ -568,7 +572,7 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
       for(int i=1; i < Nd; ++i)
 	subgrid_cb_coord[i] = coord[i] % subgrid_cb_nrow[i];
     
-      return local_site(subgrid_cb_coord, subgrid_cb_nrow) + cb*subgrid_vol_cb;
+      return local_site_cb3d(subgrid_cb_coord, subgrid_cb_nrow) + cb*subgrid_vol_cb;
     }
 
 
@@ -606,7 +610,7 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
       coord *= Layout::subgridLattSize();
     
       int cb = linearsite / subgrid_vol_cb;
-      multi1d<int> tmp_coord = crtesn(linearsite % subgrid_vol_cb, subgrid_cb_nrow);
+      multi1d<int> tmp_coord = crtesn_cb3d(linearsite % subgrid_vol_cb, subgrid_cb_nrow);
 
       
 
diff --git a/lib/qdp_scalar_layout.cc b/lib/qdp_scalar_layout.cc
index 61dc62a..2d9be55 100644
--- a/lib/qdp_scalar_layout.cc
+++ b/lib/qdp_scalar_layout.cc
@@ -359,6 +359,10 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout")
 
 QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running fastest")
 
+  // The order of the sites of one checkerboard
+  multi1d<int> crtesn_cb3d(int ipos, const multi1d<int>& latt_size);
+  int local_site_cb3d(const multi1d<int>& coord, const multi1d<int>& latt_size);
+
   namespace Layout
   {
 
@@ -380,7 +384,7 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
       int cb = linearsite / vol_cb;
 
       // This now uses crtesn with the t running fastest
-      multi1d<int> coord = crtesn(linearsite % vol_cb, cb_nrow);
+      multi1d<int> coord = crtesn_cb3d(linearsite % vol_cb, cb_nrow);
 
       int cbb = cb;
       for(int m=1; m<coord.size()-1; ++m) // Nd-1 checkerboard
@@ -412,7 +416,7 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
       cb = cb & 1;
 
       // Use funky local site 
-      return local_site(cb_coord, cb_nrow) + cb*vol_cb;
+      return local_site_cb3d(cb_coord, cb_nrow) + cb*vol_cb;
     }
   }
 
-- 
2.43.0


From cf7cc5502c5fcf9e7e0d0da3e1b2f354aefb5165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 07/29] fix: a truncated NERSC archive is refused on parallel
 machines too

---
 lib/qdp_parscalar_specific.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/qdp_parscalar_specific.cc b/lib/qdp_parscalar_specific.cc
index 3298c3b..54d6fd7 100644
--- a/lib/qdp_parscalar_specific.cc
+++ b/lib/qdp_parscalar_specific.cc
@@ -1060,6 +1060,9 @@ namespace QDP {
 
     delete[] recv_buf;
 
+    if (cfg_in.fail())
+      QDP_error_exit("Error reading configuration");
+
     QDPInternal::broadcast(checksum);
 
     // Reconstruct the gauge field
-- 
2.43.0


From 5399b46d585124a276339b9b8ef143ac900964da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 08/29] fix: the checksum of a NERSC archive header is
 hexadecimal, as it is written

---
 lib/qdp_iogauge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index 6706acf..b482ee0 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -156,7 +156,7 @@ void read(XMLReader& xml, const std::string& path, ArchivGauge_t& header)
     std::string chk;
     read(paramtop, "checksum", chk);
     std::istringstream s(chk);
-    s >> header.checksum;
+    s >> std::hex >> header.checksum;
   }
 }
 
-- 
2.43.0


From 14e332725d894a8e769ee8767cf3990e0130754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 09/29] fix: NERSC archive headers spell boundary conditions
 PERIODIC or ANTIPERIODIC

---
 lib/qdp_iogauge.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index b482ee0..f2caaf3 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -420,6 +420,17 @@ static void readArchivHeader(BinaryReader& cfg_in, ArchivGauge_t& header)
       
       header.boundary[dd-1] = itmp;
     }
+    else if ( sscanf(line.c_str(), "BOUNDARY_%d", &dd) == 1 && 
+	      (value == std::string("PERIODIC") || value == std::string("ANTIPERIODIC")) )
+    {
+      if (dd < 1 || dd > Nd)
+      {
+	QDPIO::cerr << __func__ << ": dimension number out of bounds" << std::endl;
+	QDP_abort(1);
+      }
+
+      header.boundary[dd-1] = (value == std::string("PERIODIC")) ? 1 : -1;
+    }
 
     if( token == std::string("FLOATING_POINT") )
     {
-- 
2.43.0


From 7df4e39d6d5ace6fad5cc77e99b8821f07dc0d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 10/29] fix: a NERSC archive holding 3x3 matrices says so in
 its header

---
 lib/qdp_iogauge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_iogauge.cc b/lib/qdp_iogauge.cc
index f2caaf3..d3196ee 100644
--- a/lib/qdp_iogauge.cc
+++ b/lib/qdp_iogauge.cc
@@ -632,7 +632,7 @@ static void writeArchivHeader(BinaryWriter& cfg_out, const ArchivGauge_t& header
   head << "LINK_TRACE = " << header.link << "\n"
        << "PLAQUETTE = " << header.w_plaq << "\n";
 
-  head << "DATATYPE = 4D_SU3_GAUGE\n"
+  head << "DATATYPE = " << (header.mat_size == 18 ? "4D_SU3_GAUGE_3x3" : "4D_SU3_GAUGE") << "\n"
        << "HDR_VERSION = 1.0\n"
        << "STORAGE_FORMAT = 1.0\n";
 
-- 
2.43.0


From 288298a5a9e03a2c77875d41d35a8c6ad2d8723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 11/29] fix: assigning a multi2d .. multi5d or multiNd to
 itself keeps its elements

---
 include/qdp_multi.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 0034bdd..733fa1f 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -680,6 +680,9 @@ public:
   //! Equal operator uses underlying = of T
   multi2d<T>& operator=(const multi2d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size2(), s1.size1());   // always resize
 
       for(int i=0; i < sz; ++i)
@@ -779,6 +782,9 @@ public:
   //! Equal operator uses underlying = of T
   multi3d<T>& operator=(const multi3d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size3(), s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -874,6 +880,9 @@ public:
   //! Equal operator uses underlying = of T
   multi4d<T>& operator=(const multi4d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -971,6 +980,9 @@ public:
   //! Equal operator uses underlying = of T
   multi5d<T>& operator=(const multi5d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -1072,6 +1084,9 @@ public:
   //! Equal operator uses underlying = of T
   multiNd<T>& operator=(const multiNd<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size());
 
       for(int i=0; i < sz; ++i)
-- 
2.43.0


From dc7023c6f9e6c54865c16d7308366ca63e482feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 12/29] fix: multiNd's operator() uses the row-major strides of
 operator[]

---
 include/qdp_multi.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 733fa1f..4db1f2c 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1142,7 +1142,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return const ref to an element
@@ -1154,7 +1154,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return ref to an element
@@ -1166,7 +1166,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return const ref to an element
@@ -1178,7 +1178,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return ref to an element
@@ -1190,7 +1190,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return const ref to an element
@@ -1202,7 +1202,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return ref to an element via indices packed in a multi1d array
-- 
2.43.0


From 2076d50521ae2613b8a488d1cba2b3f8e3587777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 13/29] fix: a default-constructed multiNd has no elements and
 can be copied

---
 include/qdp_multi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 4db1f2c..978c03a 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1037,7 +1037,7 @@ private:
 template<class T> class multiNd
 {
 public:
-  multiNd() {F=0;}
+  multiNd() {sz=0;F=0;}
   explicit multiNd(const multi1d<int>& _nz) {F=0;resize(_nz);}
   ~multiNd() {delete[] F;}
 
@@ -1055,7 +1055,7 @@ public:
     {
       delete[] F; 
       nz = _nz;
-      sz = nz[0];
+      sz = (nz.size() > 0) ? nz[0] : 0;
       for(int i=1; i < nz.size(); ++i)
 	sz *= nz[i];
       F = new(std::nothrow) T[sz];
-- 
2.43.0


From cb6db140a9d4ff8649e0a47f947506501ead56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 14/29] fix: concat works for arrays of any element type

---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 978c03a..6e24d2f 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -291,7 +291,7 @@ private:
 template<typename T>
 inline multi1d<T> concat(const multi1d<T>& l, const multi1d<T>& r)
 {
-  multi1d<int> nz(l.size() + r.size());
+  multi1d<T> nz(l.size() + r.size());
   int j = 0;
   for(int i=0; i < l.size(); ++i)
     nz[j++] = l[i];
-- 
2.43.0


From 3b3370395abc930e922ff484c3859ad69948eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 15/29] fix: multi5d's sizing constructor takes five sizes

---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 6e24d2f..f741adc 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -938,7 +938,7 @@ template<class T> class multi5d
 public:
   multi5d() {F=0;n1=n2=n3=n4=n5=sz=0;copymem=false;}
   multi5d(T *f, int ns5, int ns4, int ns3, int ns2, int ns1) {F=f; n1=ns1; n2=ns2; n3=ns3; n4=ns4; n5=ns5; sz=n1*n2*n3*n4*n5; copymem=true;}
-  explicit multi5d(int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns4,ns3,ns2,ns1);}
+  explicit multi5d(int ns5, int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns5,ns4,ns3,ns2,ns1);}
   ~multi5d() {if (! copymem) {delete[] F;}}
 
   //! Copy constructor
-- 
2.43.0


From 8168bd0d2346ae21556f830b1d7b35a91c6a870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 16/29] fix: scalar - Array compiles

---
 include/qdp_multi.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index f741adc..29b54d3 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -440,8 +440,9 @@ template< typename T>
 inline
 multi1d<T> operator-(const T& s, const multi1d<T>& a)
 {
-  multi1d<T> c(-a); 
-  c+=s;
+  multi1d<T> c(a.size());
+  c = s;
+  c-=a;
   return c;
 }
 //! Array - scalar
-- 
2.43.0


From b517f5d4e918a4691d448b7d2c04c063ecac8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 17/29] fix: two empty arrays are equal

---
 include/qdp_multi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 29b54d3..646df57 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -306,7 +306,7 @@ inline multi1d<T> concat(const multi1d<T>& l, const multi1d<T>& r)
 template<typename T>
 inline bool operator==(const multi1d<T>& n1, const multi1d<T>& n2)
 {
-  if (n1.size() == 0 || n1.size() != n2.size())
+  if (n1.size() != n2.size())
     return false;
     
   for(int i=0; i < n1.size(); ++i)
-- 
2.43.0


From 6893f950290fa34297dba2d86272e80641b97d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 18/29] fix: disk map positions are converted without dividing
 by zero

---
 include/qdp_map_obj_disk.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 480da10..b8201b2 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -8,7 +8,8 @@
 #define __qdp_map_obj_disk_h__
 
 #include "qdp_map_obj.h"
-#include <limits>
+#include <array>
+#include <cstdint>
 #include <unordered_map>
 
 namespace QDP
@@ -210,9 +211,9 @@ namespace QDP
   typename MapObjectDisk<K,V>::priv_pos_type_t
   MapObjectDisk<K,V>::convertToPrivate(const pos_type& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
-    uint64_t less = uint64_t(input % max_uint64);
-    uint64_t more = input / max_uint64;
+    // A stream offset fits in 64 bits, so that the most significant word is always zero
+    uint64_t less = uint64_t(off_type(input));
+    uint64_t more = 0;
     // NOTE comment on priv_pos_type_t
     return (QDPUtil::big_endian() ? priv_pos_type_t{more, less} : priv_pos_type_t{less, more});
   }
@@ -222,12 +223,8 @@ namespace QDP
   typename MapObjectDisk<K,V>::pos_type 
   MapObjectDisk<K,V>::convertFromPrivate(const priv_pos_type_t& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
     // NOTE comment on priv_pos_type_t
-    if (!QDPUtil::big_endian())
-      return pos_type(input[0]) + pos_type(input[1]) * max_uint64;
-    else
-      return pos_type(input[1]) + pos_type(input[0]) * max_uint64;
+    return pos_type(off_type(QDPUtil::big_endian() ? input[1] : input[0]));
   }
 
 
-- 
2.43.0


From 3c689e0aecec785ad95e4363e9564681bec27992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 19/29] fix: closing a disk map forgets its keys

---
 include/qdp_map_obj_disk.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index b8201b2..bdb58d6 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -419,6 +419,9 @@ namespace QDP
       break;
     }
 
+    // The keys and positions belong to the closed file
+    src_map.clear();
+
     state = INIT;
   }
   
-- 
2.43.0


From dd4be9884f225419514841fbfe54ae70d83de8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 20/29] fix: a disk map writes new records at the end of its
 file

---
 include/qdp_map_obj_disk.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index bdb58d6..5183aab 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -583,6 +583,10 @@ namespace QDP
       else {
 	// Key does not exist
 
+	// New records go at the end of the file: a read, or an update of an
+	// existing record, may have moved the current position elsewhere
+	streamer.seekEnd(0);
+
 	// Make note of current writer position
 	pos_type pos = streamer.currentPosition();
       
-- 
2.43.0


From 879936d94ce942b2527ebb79f6db9616dff9687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 21/29] fix: readDesc does not use a length it could not read

---
 lib/qdp_io.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 0fc5fe1..c3fa7ec 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -612,16 +612,25 @@ namespace QDP
     if (Layout::primaryNode())
     {
       // Get the length
-      int n;
+      int n = 0;
       readArrayPrimaryNode((char*)&n, sizeof(int), 1);
-    
-      // Read
-      char* str = new char[n];
-      readArrayPrimaryNode(str, sizeof(char), n);
 
-      input.assign(str, n);
+      // A length that could not be read, or is not one, is no reason to read on
+      if (n < 0)
+	getIstream().setstate(std::ios_base::failbit);
+
+      input.clear();
+      if (! getIstream().fail())
+      {
+	// Read
+	char* str = new char[n];
+	readArrayPrimaryNode(str, sizeof(char), n);
+
+	if (! getIstream().fail())
+	  input.assign(str, n);
 
-      delete[] str;
+	delete[] str;
+      }
     }
 
     QDPInternal::broadcast(input);
-- 
2.43.0


From ec9eec214b3d80bca7bd3391d78a77117dafe67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 22/29] fix: a disk map refuses files that end too early

---
 include/qdp_map_obj_disk.h | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 5183aab..1f28645 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -697,9 +697,14 @@ namespace QDP
 	}
 
 	QDPUtil::n_uint32_t calc_checksum=streamer.getChecksum();
-	QDPUtil::n_uint32_t read_checksum;
+	QDPUtil::n_uint32_t read_checksum = 0;
 	read(streamer, read_checksum);
 
+	if (streamer.fail()) {
+	  QDPIO::cerr << "MapObjectDisk: incomplete record in file " << filename << std::endl;
+	  QDP_abort(1);
+	}
+
 	if (level >= 2) {
 	  QDPIO::cout << " Record checksum: " << read_checksum << "  Current Position: " << streamer.currentPosition() << std::endl;
 	}
@@ -821,6 +826,11 @@ namespace QDP
       // Read MD location
       streamer.readArray((char *)&md_position, sizeof(priv_pos_type_t), 1);
 
+      if (streamer.fail()) {
+	QDPIO::cerr << "MapObjectDisk: incomplete header in file " << filename << std::endl;
+	QDP_abort(1);
+      }
+
       if (level >= 2) {
 	QDPIO::cout << "Read MD Location. Current position: " << streamer.currentPosition() << std::endl;
       }
@@ -885,7 +895,7 @@ namespace QDP
       QDPIO::cout << "Sought start of metadata. Current position: " << streamer.currentPosition() << std::endl;
     }
     
-    unsigned int num_records;
+    unsigned int num_records = 0;
     read(streamer, num_records);
 
     if (level >= 2) {
@@ -899,6 +909,11 @@ namespace QDP
       readDesc(streamer, key_str);
       
       streamer.readArray((char *)&rpos, sizeof(priv_pos_type_t),1);
+
+      if (streamer.fail()) {
+	QDPIO::cerr << "MapObjectDisk: incomplete key/fileposition data in file " << filename << std::endl;
+	QDP_abort(1);
+      }
       
       if (level >= 2) {
 	QDPIO::cout << "Read Key/Position pair. Current position: " << streamer.currentPosition() << std::endl;
@@ -907,9 +922,14 @@ namespace QDP
       src_map.insert(std::make_pair(key_str,rpos));
     }
     QDPUtil::n_uint32_t calc_checksum = streamer.getChecksum();
-    QDPUtil::n_uint32_t read_checksum;
+    QDPUtil::n_uint32_t read_checksum = 0;
     read(streamer, read_checksum);
 
+    if (streamer.fail()) {
+      QDPIO::cerr << "MapObjectDisk: incomplete key/fileposition data in file " << filename << std::endl;
+      QDP_abort(1);
+    }
+
     if (level >= 2) {
       QDPIO::cout << "Read Map checksum: " << read_checksum << "  Current Position: " << streamer.currentPosition();
     }
-- 
2.43.0


From 784a9e1b9870d9eae672b38813742ac36c77c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 23/29] fix: creating the lattice again releases the old random
 number multipliers

---
 lib/qdp_random.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/qdp_random.cc b/lib/qdp_random.cc
index 34bff2d..91ea8fa 100644
--- a/lib/qdp_random.cc
+++ b/lib/qdp_random.cc
@@ -151,6 +151,9 @@ namespace RNG
       aa = aamult;
     }
 
+    // The lattice may be created again: release the multipliers of the last one
+    finalizeRNG();
+
     lattice_ran_mult = new LatticeSeed;
     if( lattice_ran_mult == 0x0 ) { 
       QDP_error_exit("Unable to allocate ran_mult\n");
@@ -170,6 +173,8 @@ namespace RNG
   {
     if (lattice_ran_mult)
        delete lattice_ran_mult;
+
+    lattice_ran_mult = 0x0;
   }
 
 
-- 
2.43.0


From 6cf09981e418f7b6cf330c50812c82591ca123d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 24/29] fix: threads' shares of very many sites do not overflow

---
 include/qdp_dispatch.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qdp_dispatch.h b/include/qdp_dispatch.h
index fa38077..f70efbf 100644
--- a/include/qdp_dispatch.h
+++ b/include/qdp_dispatch.h
@@ -39,14 +39,15 @@ void dispatch_to_threads(int numSiteTable, Arg a, void (*func)(int,int,int, Arg*
       int active_threads_num = threads_num > numSiteTable ? numSiteTable : threads_num;
 
       if( myId < numSiteTable ) {
-    	  int low = (numSiteTable*myId)/active_threads_num;
+    	  // The products need more bits than an int once there are many sites and threads
+    	  int low = static_cast<int>((static_cast<long long>(numSiteTable)*myId)/active_threads_num);
 
       	  // NB: high can never be too high since for the last thread
       	  // myId + 1 = (threads_num - 1) + 1 = threads_num.
       	  // So numSiteTable*(myId+1) will always be a strict multiple of threads_num
       	  // and so truncation issues will not bite.
       	  // I am addig in the parentheses tho to force the precedence
-      	  int high =(numSiteTable*(myId+1))/active_threads_num;
+      	  int high = static_cast<int>((static_cast<long long>(numSiteTable)*(myId+1))/active_threads_num);
  
       	  func(low, high, myId, &a);
       }
-- 
2.43.0


From 621a5740ad784a534dcd885b7eb7e9441d724ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 25/29] fix: long messages do not overrun the buffers of the
 error routines

---
 lib/qdp_util.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/qdp_util.cc b/lib/qdp_util.cc
index 21cb785..da1940d 100644
--- a/lib/qdp_util.cc
+++ b/lib/qdp_util.cc
@@ -50,11 +50,11 @@ QDP_info (const char* format, ...)
   gethostname (hostname, sizeof (hostname) - 1);
   int rank = Layout::nodeNumber();
   int size = Layout::numNodes();
-  sprintf (info, "QDP m%d,n%d@%s info: ", 
+  snprintf (info, sizeof (info), "QDP m%d,n%d@%s info: ", 
 	   rank, size, hostname);
 
   va_start (argp, format);
-  int status = vsprintf (buffer, format, argp);
+  int status = vsnprintf (buffer, sizeof (buffer), format, argp);
   va_end (argp);
 
   fprintf (stdout, "%s %s\n", info, buffer);
@@ -76,10 +76,10 @@ QDP_error (const char* format, ...)
   gethostname (hostname, sizeof (hostname) - 1);
   int rank = Layout::nodeNumber();
   int size = Layout::numNodes();
-  sprintf (info, "QDP m%d,n%d@%s error: ", rank, size, hostname);
+  snprintf (info, sizeof (info), "QDP m%d,n%d@%s error: ", rank, size, hostname);
 	   
   va_start (argp, format);
-  int status = vsprintf (buffer, format, argp);
+  int status = vsnprintf (buffer, sizeof (buffer), format, argp);
   va_end (argp);
 
   fprintf (stderr, "%s %s\n", info, buffer);
@@ -100,10 +100,10 @@ QDP_error_exit (const char* format, ...)
   gethostname (hostname, sizeof (hostname) - 1);
   int rank = Layout::nodeNumber();
   int size = Layout::numNodes();
-  sprintf (info, "QDP m%d,n%d@%s fatal error: ", rank, size, hostname);
+  snprintf (info, sizeof (info), "QDP m%d,n%d@%s fatal error: ", rank, size, hostname);
 	   
   va_start (argp, format);
-  vsprintf (buffer, format, argp);
+  vsnprintf (buffer, sizeof (buffer), format, argp);
   va_end (argp);
 
   fprintf (stderr, "%s %s\n", info, buffer);
-- 
2.43.0


From b60975611b0faabdd691f19c79796e582af32384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 26/29] fix: finalising twice does not release the reduction
 buffers twice

---
 lib/qdp_scalar_init.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/qdp_scalar_init.cc b/lib/qdp_scalar_init.cc
index ae96ea7..1c447f7 100644
--- a/lib/qdp_scalar_init.cc
+++ b/lib/qdp_scalar_init.cc
@@ -138,10 +138,12 @@ void QDP_finalize()
 
   if ( ThreadReductions::norm2_results != 0x0 ) { 
    delete [] ThreadReductions::norm2_results;
+   ThreadReductions::norm2_results = 0x0;
   }
 
   if ( ThreadReductions::innerProd_results != 0x0 ) { 
    delete [] ThreadReductions::innerProd_results;
+   ThreadReductions::innerProd_results = 0x0;
   }
 
    
-- 
2.43.0


From 82bde5d20fe5f0fb7a31eb425225b596b0d38260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 27/29] fix: an option without its argument ends in the error
 message

---
 lib/qdp_parscalar_init.cc | 18 ++++++++++++------
 lib/qdp_scalar_init.cc    |  7 ++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/qdp_parscalar_init.cc b/lib/qdp_parscalar_init.cc
index d8b520f..dc99612 100644
--- a/lib/qdp_parscalar_init.cc
+++ b/lib/qdp_parscalar_init.cc
@@ -125,13 +125,14 @@ namespace QDP {
 			else if (strcmp((*argv)[i], "-p")==0) 
 			{
 				int lev;
-				sscanf((*argv)[++i], "%d", &lev);
-				setProgramProfileLevel(lev);
+				if (++i < *argc && sscanf((*argv)[i], "%d", &lev) == 1)
+					setProgramProfileLevel(lev);
 			}
 #endif
 			else if ( strcmp((*argv)[i],"-poolsize")==0)
 			{
-				sscanf((*argv)[++i], "%f", &pool_size_in_gb);
+				if (++i < *argc)
+					sscanf((*argv)[i], "%f", &pool_size_in_gb);
 
 			}
 			else if (strcmp((*argv)[i], "-geom")==0) 
@@ -140,7 +141,9 @@ namespace QDP {
 				for(int j=0; j < Nd; j++) 
 				{
 					int uu;
-					sscanf((*argv)[++i], "%d", &uu);
+					if (++i >= *argc)
+						break;
+					sscanf((*argv)[i], "%d", &uu);
 					logical_geom[j] = uu;
 				}
 			}
@@ -150,14 +153,17 @@ namespace QDP {
 				for(int j=0; j < Nd; j++) 
 				{
 					int uu;
-					sscanf((*argv)[++i], "%d", &uu);
+					if (++i >= *argc)
+						break;
+					sscanf((*argv)[i], "%d", &uu);
 					logical_iogeom[j] = uu;
 				}
 			}
 			else if (strcmp((*argv)[i], "-bind")==0) 
 			{
 				threadbind = true;
-				sscanf((*argv)[++i], "%d:%d", &n_cores, &n_threads_per_core);
+				if (++i < *argc)
+					sscanf((*argv)[i], "%d:%d", &n_cores, &n_threads_per_core);
 			}
 #ifdef USE_REMOTE_QIO
 			else if (strcmp((*argv)[i], "-cd")==0) 
diff --git a/lib/qdp_scalar_init.cc b/lib/qdp_scalar_init.cc
index 1c447f7..2d87823 100644
--- a/lib/qdp_scalar_init.cc
+++ b/lib/qdp_scalar_init.cc
@@ -106,13 +106,14 @@ void QDP_initialize(int *argc, char ***argv)
     if (strcmp((*argv)[i], "-p")==0) 
     {
       int lev;
-      sscanf((*argv)[++i], "%d", &lev);
-      setProgramProfileLevel(lev);
+      if (++i < *argc && sscanf((*argv)[i], "%d", &lev) == 1)
+	setProgramProfileLevel(lev);
     }
 #endif
     if ( strcmp((*argv)[i],"-poolsize")==0)
       {
-	sscanf((*argv)[++i], "%f", &pool_size_in_gb);
+	if (++i < *argc)
+	  sscanf((*argv)[i], "%f", &pool_size_in_gb);
 	
       }
 
-- 
2.43.0


From 8afb3478d8e186778beed0fd0581482e6a9330ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 28/29] fix: lattices that do not fit the layout or the machine
 are refused

---
 lib/qdp_parscalar_layout.cc | 10 ++++++--
 lib/qdp_scalar_layout.cc    | 49 +++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/lib/qdp_parscalar_layout.cc b/lib/qdp_parscalar_layout.cc
index 85e47d7..2e1d135 100644
--- a/lib/qdp_parscalar_layout.cc
+++ b/lib/qdp_parscalar_layout.cc
@@ -267,7 +267,7 @@ namespace QDP
       // Another sanity check - if the specified lattice size is not a multiple
       // of the minimal size, then barf
       for(int i=0; i < Nd; ++i)
-	if (_layout.nrow[i] % min_dim[i] != 0)
+	if (_layout.nrow[i] < 1 || _layout.nrow[i] % min_dim[i] != 0)
 	  QDP_error_exit("Layout::create - Error: problem size not multiple of smallest size allowed for this type of layout");
 
 
@@ -278,7 +278,8 @@ namespace QDP
 	nrow[i] = _layout.nrow[i] / min_dim[i];
 
       int* nrow_slice=const_cast<int*>(nrow.slice());
-      QMP_layout_grid(nrow_slice, Nd);
+      if (QMP_layout_grid(nrow_slice, Nd) != QMP_SUCCESS)
+	QDP_error_exit("Layout::create - cannot lay out the problem on this machine");
 
 
       // Pull out useful stuff
@@ -295,6 +296,11 @@ namespace QDP
       {
 	_layout.logical_coord[i] = phys_coord[i];
 	_layout.logical_size[i] = phys_size[i];
+
+	// The machine may have been laid out before, for another lattice
+	if (nrow[i] % _layout.logical_size[i] != 0)
+	  QDP_error_exit("Layout::create - problem size not divisible by the logical machine size");
+
 	_layout.subgrid_nrow[i] = _layout.nrow[i] / _layout.logical_size[i];
 
 	_layout.subgrid_vol *= _layout.subgrid_nrow[i];
diff --git a/lib/qdp_scalar_layout.cc b/lib/qdp_scalar_layout.cc
index 2d9be55..a56fda0 100644
--- a/lib/qdp_scalar_layout.cc
+++ b/lib/qdp_scalar_layout.cc
@@ -156,6 +156,9 @@ namespace QDP
       return _layout.iogrid;
     }
 	  
+    //! Return the smallest lattice size allowed
+    multi1d<int> minimalLayoutMapping();
+
     //! Initializer for layout
     void init() {}
 
@@ -193,6 +196,13 @@ namespace QDP
       if (_layout.nrow.size() != Nd)
 	QDP_error_exit("dimension of lattice size not the same as the default");
 
+      // If the specified lattice size is not a (positive) multiple of the
+      // minimal size, then barf
+      multi1d<int> min_dim = minimalLayoutMapping();
+      for(int i=0; i < Nd; ++i)
+	if (_layout.nrow[i] < 1 || _layout.nrow[i] % min_dim[i] != 0)
+	  QDP_error_exit("Layout::create - Error: problem size not multiple of smallest size allowed for this type of layout");
+
       _layout.vol=1;
 
       for(int i=0; i < Nd; ++i) 
@@ -295,6 +305,15 @@ QDPXX_MESSAGE("Using a lexicographic layout")
     {
       return local_site(coord, lattSize());
     }
+
+    //! Return the smallest lattice size allowed
+    multi1d<int> minimalLayoutMapping()
+    {
+      multi1d<int> dim(Nd);
+      dim = 1;
+
+      return dim;
+    }
   }
 
 
@@ -349,6 +368,16 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout")
 
       return local_site(cb_coord, cb_nrow) + cb*vol_cb;
     }
+
+    //! Return the smallest lattice size allowed
+    multi1d<int> minimalLayoutMapping()
+    {
+      multi1d<int> dim(Nd);
+      dim = 1;
+      dim[0] = 2;       // must have multiple length 2 for cb
+
+      return dim;
+    }
   }
 
 
@@ -418,6 +447,16 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
       // Use funky local site 
       return local_site_cb3d(cb_coord, cb_nrow) + cb*vol_cb;
     }
+
+    //! Return the smallest lattice size allowed
+    multi1d<int> minimalLayoutMapping()
+    {
+      multi1d<int> dim(Nd);
+      dim = 1;
+      dim[0] = 2;       // must have multiple length 2 for cb
+
+      return dim;
+    }
   }
 
 
@@ -491,6 +530,16 @@ QDPXX_MESSAGE("Using a 32 checkerboard layout")
 
       return local_site(cb_coord, cb_nrow) + subl*vol_cb;
     }
+
+    //! Return the smallest lattice size allowed
+    multi1d<int> minimalLayoutMapping()
+    {
+      multi1d<int> dim(Nd);
+      dim = 2;          // must have multiple length 2 for hypercube
+      dim[0] = 4;       // must have multiple length 2 for cb and hypercube
+
+      return dim;
+    }
   }
 
 #else
-- 
2.43.0


From 3a66c7d26c52d0ba11327605d42d53ad431e6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 29/29] fix: errors before the standard streams are set up do
 not crash

---
 lib/qdp_parscalar_init.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/qdp_parscalar_init.cc b/lib/qdp_parscalar_init.cc
index dc99612..68a9082 100644
--- a/lib/qdp_parscalar_init.cc
+++ b/lib/qdp_parscalar_init.cc
@@ -45,6 +45,11 @@ namespace QDP {
 			QDP_abort(1);
 		}
 		
+		// initialize the global streams, the errors below go there
+		QDPIO::cin.init(&std::cin);
+		QDPIO::cout.init(&std::cout);
+		QDPIO::cerr.init(&std::cerr);
+
 		//
 		// Process command line
 		//
@@ -310,11 +315,6 @@ namespace QDP {
 		}
 		
 		
-		// initialize the global streams
-		QDPIO::cin.init(&std::cin);
-		QDPIO::cout.init(&std::cout);
-		QDPIO::cerr.init(&std::cerr);
-
 #ifdef QDP_USE_OMP_THREADS
   		if ( threadbind ) {
 		  QDPIO::cout  << "Attempting to bind threads: " << n_cores << " cores with " << n_threads_per_core << " threads per core" << std::endl;
@@ -335,7 +335,9 @@ namespace QDP {
 	{
 		if ( ! QDP_isInitialized() )
 		{
-			QDPIO::cerr << "QDP is not inited" << std::endl;
+			// the global streams are not there yet
+			if ( Layout::primaryNode() )
+				fprintf(stderr,"QDP is not inited\n");
 			QDP_abort(1);
 		}
 		
-- 
2.43.0


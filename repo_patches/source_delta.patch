From 8a08fdc33505a261f6f6c819f52db5df5baa52c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 01/84] fix: astcheck: use every sampled byte in the catalogue
 checksum

The checksum loop indexed the sample buffer with the outer loop variable,
so only four bytes of the catalogue counted.  A regenerated mpcorb.sof with
the same number of objects was then taken to match old .chk files.
---
 astcheck.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 4d1cf36..8adc801 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -171,7 +171,7 @@ static FILE *get_sof_file( const char *filename)
          fseek( ifile, (long)( i * (filelen - sizeof( buff))) / 3L, SEEK_SET);
          if( fread( buff, sizeof( buff), 1, ifile))
             for( j = 0; j < sizeof( buff); j++)
-               sof_checksum = sof_checksum * big_prime + (int32_t)buff[i];
+               sof_checksum = sof_checksum * big_prime + (int32_t)buff[j];
          }
       fseek( ifile, 0L, SEEK_SET);
       if( verbose)
-- 
2.43.0


From 0b8e275ef958ff042f7d5e35353919ba93b7960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 02/84] fix: astcheck: regenerate a .chk file with an
 incomplete header

An instance killed between creating the .chk file and writing its header
left an empty file,  and every later instance for that day then exited with
'Error reading header data'.  Instances starting in that window also died.
---
 astcheck.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 8adc801..4d2f5e1 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -325,12 +325,10 @@ static AST_DATA *get_cached_day_data( const int ijd)
    ifile = get_file_from_path( filename, "rb");
    if( ifile)
       {
-      if( !fread( header, HEADER_SIZE, sizeof( int), ifile))
-         {
-         printf( "Error reading header data in '%s'\n", filename);
-         exit( -2);
-         }
-      if( header[0] == magic_version_number &&
+                  /* An incomplete header means that the file can't be used */
+                  /* and must be regenerated,  just like a mismatched one.  */
+      if( fread( header, sizeof( int32_t), HEADER_SIZE, ifile) == HEADER_SIZE &&
+                      header[0] == magic_version_number &&
                       header[1] == sof_checksum && header[2] == n_asteroids)
          {
          fseek( ifile, 0L, SEEK_END);
-- 
2.43.0


From a8113335986e33e090843bd8abe0a4228f458837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 03/84] fix: astcheck: don't use or cache day data from a
 partly read catalogue

If reading the orbits failed part way,  the positions of the remaining
objects were uninitialized memory,  which was then used and cached.
---
 astcheck.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astcheck.cpp b/astcheck.cpp
index 4d2f5e1..1431de5 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -249,6 +249,11 @@ AST_DATA *compute_day_data( const long ijd)
          counter++;
          }
       }
+   if( i != n_asteroids)
+      {
+      fprintf( stderr, "Only %d of %d orbits could be read\n", i, n_asteroids);
+      exit( -1);
+      }
    if( verbose)
       printf( "\nTime: %.1f seconds\n",
                   (clock( ) - t0) / (double)CLOCKS_PER_SEC);
-- 
2.43.0


From 96e856c79e46961e9ae8db24981aa605ca51ca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:14 +0000
Subject: [PATCH 04/84] fix: astcheck: make .chk files appear only when
 complete

Two instances creating the same .chk file truncated each other's output.
If one truncated the file while the other was half way through writing,  the
file could have its full size with a block of zeroes in it,  and a third
instance then silently used those zeroes as positions.  Also,  a write error
(e.g.,  a full disk) went unnoticed.  Write to a temporary file instead,  and
rename it when all data have been written.
---
 astcheck.cpp | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 1431de5..02d6a54 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -119,6 +119,8 @@ const char *data_path = NULL;
 char sof_header[MAX_SOF_SIZE];
 int32_t sof_checksum;
 
+static char path_used[450];      /* path to the last file opened below */
+
 static FILE *get_file_from_path( const char *filename, const char *permits)
 {
    FILE *fp = NULL;
@@ -132,9 +134,15 @@ static FILE *get_file_from_path( const char *filename, const char *permits)
          strlcat_error( buff, "/");
       strlcat_error( buff, filename);
       fp = fopen( buff, permits);
+      if( fp)
+         strlcpy_error( path_used, buff);
       }
    if( !fp)
+      {
       fp = fopen( filename, permits);
+      if( fp)
+         strlcpy_error( path_used, filename);
+      }
    return( fp);
 }
 
@@ -289,10 +297,10 @@ files now works as follows :
 The file may not exist,  or may contain outdated data (the 'sof_checksum'
 or other header data may not match what we're looking for).  If that's
 the case,  we drop through the code to the point where we generate the
-day data and create the day data file.  Right away,  we write out the
-header information and fflush() it.  That way,  the other sixteen
-processes will see a header with no data (yet) and realize that they
-should wait a bit for the data to become available.
+day data and create the day data file.  The data are written to a
+temporary file (with our process ID in its name),  which is renamed once
+it's complete.  Other processes therefore never see a partial file;  nor
+can two processes creating the same file overwrite each other's data.
 
 (2) If we read in the header and it's what we're looking for (its
 "magic number",  checksum,  and the number of asteroids match),
@@ -315,8 +323,10 @@ file size.         */
 static AST_DATA *get_cached_day_data( const int ijd)
 {
    AST_DATA *rval = NULL;
-   char filename[20];
+   char filename[20], temp_filename[40];
+   char final_path[sizeof( path_used)], temp_path[sizeof( path_used)];
    FILE *ifile, *ofile;
+   bool write_ok;
    int32_t header[HEADER_SIZE];
    const int32_t magic_version_number = 1314159266;
 
@@ -382,19 +392,33 @@ static AST_DATA *get_cached_day_data( const int ijd)
    header[1] = sof_checksum;
    header[2] = n_asteroids;
    header[3] = -1;         /* not currently used */
-   ofile = get_file_from_path( filename, "wb");
+#ifdef _WIN32
+   snprintf_err( temp_filename, sizeof( temp_filename), "%s.tmp", filename);
+#else
+   snprintf_err( temp_filename, sizeof( temp_filename), "%s.%d", filename, (int)getpid( ));
+#endif
+   ofile = get_file_from_path( temp_filename, "wb");
    if( !ofile)
       {
-      fprintf( stderr, "Couldn't open '%s'\n", filename);
+      fprintf( stderr, "Couldn't open '%s'\n", temp_filename);
       perror( "File open failure");
       exit( -1);
       }
-   fwrite( header, HEADER_SIZE, sizeof( int), ofile);
-   fflush( ofile);
+   strlcpy_error( temp_path, path_used);
+   strlcpy_error( final_path, path_used);
+   final_path[strlen( final_path) - strlen( temp_filename) + strlen( filename)] = '\0';
+   write_ok = (fwrite( header, sizeof( int32_t), HEADER_SIZE, ofile) == HEADER_SIZE);
    rval = compute_day_data( ijd);
-   fwrite( rval, n_asteroids, sizeof( AST_DATA), ofile);
-   fclose( ofile);
-
+   if( !rval || fwrite( rval, sizeof( AST_DATA), n_asteroids, ofile) != (size_t)n_asteroids)
+      write_ok = false;
+   if( fclose( ofile))
+      write_ok = false;
+#ifdef _WIN32
+   if( write_ok)
+      remove( final_path);
+#endif
+   if( !write_ok || rename( temp_path, final_path))
+      remove( temp_path);
    return( rval);
 }
 
-- 
2.43.0


From aa16477688b5e9ab88b8e666fb2a1ad6c62ed7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:14 +0000
Subject: [PATCH 05/84] fix: astcheck: check for errors reading astrometry and
 reopening .chk files

A read error in the input astrometry looked like the end of the file,  so
the remaining observations were silently ignored.
---
 astcheck.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/astcheck.cpp b/astcheck.cpp
index 02d6a54..8aa34b3 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -380,6 +380,11 @@ static AST_DATA *get_cached_day_data( const int ijd)
                Sleep( 1000);        /* 1000 milliseconds = 1 second */
 #endif
                ifile = get_file_from_path( filename, "rb");
+               if( !ifile)
+                  {
+                  fprintf( stderr, "Couldn't reopen '%s'\n", filename);
+                  exit( -3);
+                  }
                fseek( ifile, 16 + 4L * n_read, SEEK_SET);
                }
             }
@@ -763,6 +768,11 @@ int main( const int argc, const char **argv)
          ilines[n_ilines - 1] = (char *)malloc( strlen( buff) + 1);
          strcpy( ilines[n_ilines - 1], buff);
          }
+   if( ferror( ifile))
+      {
+      fprintf( stderr, "Error reading '%s'\n", argv[1]);
+      return( -3);
+      }
    fclose( ifile);
    free_ades2mpc_context( ades_context);
    if( is_list_file)
-- 
2.43.0


From 4fe6e0efdaa01d98d0a6f0f5dbb45d04e06f8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 06/84] fix: astcheck: compute the checksum for catalogues
 under 450 bytes

Nothing was read from such small catalogues,  so all had the same checksum.
---
 astcheck.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 8aa34b3..5dbb37d 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -176,10 +176,14 @@ static FILE *get_sof_file( const char *filename)
          {
          const int32_t big_prime = 1234567891;
 
-         fseek( ifile, (long)( i * (filelen - sizeof( buff))) / 3L, SEEK_SET);
-         if( fread( buff, sizeof( buff), 1, ifile))
-            for( j = 0; j < sizeof( buff); j++)
-               sof_checksum = sof_checksum * big_prime + (int32_t)buff[j];
+         const long max_offset = (filelen > (int)sizeof( buff) ?
+                                    filelen - (long)sizeof( buff) : 0L);
+         size_t n_read;
+
+         fseek( ifile, (long)i * max_offset / 3L, SEEK_SET);
+         n_read = fread( buff, 1, sizeof( buff), ifile);
+         for( j = 0; j < n_read; j++)
+            sof_checksum = sof_checksum * big_prime + (int32_t)buff[j];
          }
       fseek( ifile, 0L, SEEK_SET);
       if( verbose)
-- 
2.43.0


From e571b0954e2b17ebcd4218df7f8a869ee6b38be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:39 +0000
Subject: [PATCH 07/84] fix: eop_prec: report a read error instead of keeping a
 truncated table

---
 eop_prec.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index fae169f..e7e3106 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -166,8 +166,9 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
             if( file_date && buff[16] == 'I')
                *file_date = atoi( buff + 7);
             }
-         if( i < 16371)    /* as of 2016 Oct 29,  should be _at least_ */
-            rval = EOP_FILE_WRONG_FORMAT;           /* this many lines */
+         if( i < 16371     /* as of 2016 Oct 29,  should be _at least_ */
+                  || ferror( ifile))                /* this many lines */
+            rval = EOP_FILE_WRONG_FORMAT;
          if( rval)   /* slightly tricky method to free up eop_data,  if */
             load_earth_orientation_params( NULL, NULL);  /* it's been alloced */
          else                            /* get MJD for preceding day */
-- 
2.43.0


From 0a254663a2f17aa543e48b90cb933491ff364f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:39 +0000
Subject: [PATCH 08/84] fix: eop_prec: return the MJD of the last day when no
 blank line follows it

---
 eop_prec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index e7e3106..e08c565 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -171,8 +171,8 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
             rval = EOP_FILE_WRONG_FORMAT;
          if( rval)   /* slightly tricky method to free up eop_data,  if */
             load_earth_orientation_params( NULL, NULL);  /* it's been alloced */
-         else                            /* get MJD for preceding day */
-            rval = atoi( buff + 7) - 1;
+         else                            /* get MJD for last day read */
+            rval = (int)( eop_jd0 - 2400000.499) + i - 1;
          }
       if( ifile)
          fclose( ifile);
-- 
2.43.0


From 32353efa2bbdf818e9dc664dc2d30b2b01ba19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:52 +0000
Subject: [PATCH 09/84] fix: cospar: report failure to read or allocate the
 orientation data

---
 cospar.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index b5ffb1b..952451e 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -113,11 +113,19 @@ static int get_cospar_data_from_text_file( int object_number,
                line++;
                }
             }
-         if( !pass)     /* we've counted lines & bytes; now alloc memory */
-            {
+         if( !pass && !ferror( ifile))
+            {           /* we've counted lines & bytes; now alloc memory */
             cospar_text = (char **)malloc( (size_t)(line + 1) * sizeof( char *)
                         + bytes_read);
-            cospar_text[0] = (char *)(cospar_text + line + 1);
+            if( cospar_text)
+               cospar_text[0] = (char *)(cospar_text + line + 1);
+            }
+         if( !cospar_text || ferror( ifile))
+            {           /* out of memory or couldn't read the file */
+            free( cospar_text);
+            cospar_text = NULL;
+            fclose( ifile);
+            return( -1);
             }
          }
       cospar_text[line] = NULL;
-- 
2.43.0


From 50a5c7a02807d09c130aa6a05675b6abcb5378a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:53 +0000
Subject: [PATCH 10/84] fix: cospar: planet_radii( ) as the very first call now
 gives the radii

---
 cospar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.cpp b/cospar.cpp
index 952451e..32dd8c0 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -130,7 +130,7 @@ static int get_cospar_data_from_text_file( int object_number,
          }
       cospar_text[line] = NULL;
       fclose( ifile);
-      if( !omega)        /* just loading coefficients;  not actually */
+      if( !is_retrograde)  /* just loading coefficients;  not actually */
          return( 0);       /* computing orientations quite yet (see    */
       }                    /* load_cospar_file( ) below)               */
    *is_retrograde = false;
-- 
2.43.0


From c303321bee616d73d848831793a2a19636dcb8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:53 +0000
Subject: [PATCH 11/84] fix: cospar: results cached for other or missing
 orientation data are no longer reused

---
 cospar.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index 32dd8c0..0d0dba8 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -34,6 +34,11 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 
 const char *cospar_filename = "cospar.txt";
 
+         /* Object for which the most recent rotation rate and orientation */
+         /* were computed.  Reset if the orientation data are (re)loaded.  */
+static int prev_rate_planet_no = NO_OBJECT_SELECTED;
+static int prev_orientation_planet_no = NO_OBJECT_SELECTED;
+
 /* Mostly complete code to compute COSPAR planetary,  satellite,  and
 asteroid orientations using data extracted from 'cospar.txt'.  Thus far,
 it can take the Guide-style object number and a JD and compute the pole
@@ -298,6 +303,7 @@ int DLL_FUNC load_cospar_file( const char *filename)
    const char *temp_name = cospar_filename;
    int rval, pass;
 
+   prev_rate_planet_no = prev_orientation_planet_no = NO_OBJECT_SELECTED;
    cospar_filename = filename;
    for( pass = 0; pass < (filename ? 2 : 1); pass++)
       rval = get_cospar_data_from_text_file( (pass ? 0 : FREE_INTERNAL_DATA),
@@ -310,17 +316,18 @@ double DLL_FUNC planet_rotation_rate( const int planet_no, const int system_no)
 {
    const double dummy_tdt = 2451545.;     /* not really used */
    bool is_retrograde;
-   static int prev_planet_no = -99, prev_system_no;
+   static int prev_system_no;
    static double omega;
 
-   if( planet_no != prev_planet_no || system_no != prev_system_no)
+   if( planet_no != prev_rate_planet_no || system_no != prev_system_no)
       {
       const int rval = get_cospar_data_from_text_file( planet_no, system_no,
               dummy_tdt, NULL, NULL, &omega, NULL, &is_retrograde);
 
       if( rval)
          omega = 0.;
-      prev_planet_no = planet_no;
+                /* don't remember failures;  data may become available later */
+      prev_rate_planet_no = (rval ? NO_OBJECT_SELECTED : planet_no);
       prev_system_no = system_no;
       }
    return( omega);
@@ -355,22 +362,21 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
                   const double jd, double *matrix)
 #endif
 {
-   static int prev_planet_no = NO_OBJECT_SELECTED;
-   static int prev_system_no = NO_OBJECT_SELECTED, prev_rval = 0;
+   static int prev_system_no = NO_OBJECT_SELECTED;
    static double prev_jd = -1.;
    static double prev_matrix[9];
    int i, rval;
-   bool is_retrograde;
-   double pole_ra, pole_dec, omega, tdt;
+   bool is_retrograde = false;
+   double pole_ra = 0., pole_dec = 0., omega = 0., tdt;
 
-   if( planet_no == prev_planet_no && system_no == prev_system_no
+   if( planet_no == prev_orientation_planet_no && system_no == prev_system_no
                            && jd == prev_jd)
       {
       memcpy( matrix, prev_matrix, 9 * sizeof( double));
-      return( prev_rval);
+      return( 0);
       }
 
-   prev_planet_no = planet_no;
+   prev_orientation_planet_no = planet_no;
    prev_system_no = system_no;
    prev_jd = jd;
    tdt = jd + td_minus_ut( jd) / seconds_per_day;
@@ -387,7 +393,6 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
       for( i = 3; i < 6; i++)
          matrix[i] = -matrix[i];
       memcpy( prev_matrix, matrix, 9 * sizeof( double));
-      prev_rval = 0;
       return( 0);
       }
 
@@ -404,7 +409,8 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
       for( i = 3; i < 6; i++)
          matrix[i] *= -1.;
    memcpy( prev_matrix, matrix, 9 * sizeof( double));
-   prev_rval = rval;
+   if( rval)      /* don't remember failures;  data may become available later */
+      prev_orientation_planet_no = NO_OBJECT_SELECTED;
    return( rval);
 }
 
-- 
2.43.0


From 0d352c0da2b2a4279435d991cc7c645631ec88de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:00 +0000
Subject: [PATCH 12/84] fix: cospar: orientations computed before Delta-T or
 EOPs changed are no longer reused

---
 cospar.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index 0d0dba8..cf1f5b1 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -363,14 +363,18 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
 #endif
 {
    static int prev_system_no = NO_OBJECT_SELECTED;
-   static double prev_jd = -1.;
+   static double prev_tdt = -1.;
    static double prev_matrix[9];
    int i, rval;
    bool is_retrograde = false;
    double pole_ra = 0., pole_dec = 0., omega = 0., tdt;
 
+               /* Delta-T may have changed since the previous call,  e.g.,  */
+               /* because EOPs were loaded.  For the earth,  polar motion   */
+               /* may have changed as well.                                 */
+   tdt = jd + td_minus_ut( jd) / seconds_per_day;
    if( planet_no == prev_orientation_planet_no && system_no == prev_system_no
-                           && jd == prev_jd)
+                           && tdt == prev_tdt && planet_no != 3)
       {
       memcpy( matrix, prev_matrix, 9 * sizeof( double));
       return( 0);
@@ -378,8 +382,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
 
    prev_orientation_planet_no = planet_no;
    prev_system_no = system_no;
-   prev_jd = jd;
-   tdt = jd + td_minus_ut( jd) / seconds_per_day;
+   prev_tdt = tdt;
 
    if( planet_no == 3)        /* handle earth with "normal" precession: */
       {
-- 
2.43.0


From 7186f036eb4241ae5cdb11e5ce4c9c32f93fc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 13/84] fix: de_plan: a partly read PS-1996 series is an error,
 not garbage coefficients

---
 de_plan.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/de_plan.cpp b/de_plan.cpp
index 613f197..895ed5c 100644
--- a/de_plan.cpp
+++ b/de_plan.cpp
@@ -148,14 +148,13 @@ void * DLL_FUNC load_ps1996_series( FILE *ifile, double jd, int planet_no)
       close_file = 1;
       }
 
-   fseek( ifile, (long)(planet_no - 1) * (long)sizeof( int32_t), SEEK_SET);
-   if( !fread( &offset, 1, sizeof( int32_t), ifile))
+   if( fseek( ifile, (long)(planet_no - 1) * (long)sizeof( int32_t), SEEK_SET)
+            || fread( &offset, sizeof( int32_t), 1, ifile) != 1
+            || fseek( ifile, offset, SEEK_SET)
+            || fread( &header, sizeof( POISSON_HEADER), 1, ifile) != 1)
       read_error = -1;
-   fseek( ifile, offset, SEEK_SET);
-   if( !fread( &header, sizeof( POISSON_HEADER), 1, ifile))
-      read_error = -1;
-   block = (int)floor( (jd - header.tzero) / header.dt);
-   if( block < 0 || block >= header.n_blocks || read_error)
+   block = (read_error ? -1 : (int)floor( (jd - header.tzero) / header.dt));
+   if( block < 0 || block >= header.n_blocks)
       {
       if( close_file)
          fclose( ifile);
@@ -179,16 +178,22 @@ void * DLL_FUNC load_ps1996_series( FILE *ifile, double jd, int planet_no)
       }
    p.fqs = (double *)( rval + 1);
    p.terms = p.fqs + header.total_fqs;
-   if( !fread( p.fqs, (size_t)header.total_fqs, sizeof( double), ifile))
+   if( fread( p.fqs, sizeof( double), (size_t)header.total_fqs, ifile)
+                              != (size_t)header.total_fqs)
       read_error = -3;
-   if( !fread( block_sizes, (size_t)header.n_blocks, sizeof( int16_t), ifile))
+   else if( fread( block_sizes, sizeof( int16_t), (size_t)header.n_blocks, ifile)
+                              != (size_t)header.n_blocks)
       read_error = -4;
-   for( i = 0; i < block; i++)
-      jump += (long) block_sizes[i];
-   fseek( ifile, jump, SEEK_CUR);
-   tbuff = (char *)malloc( (size_t)block_sizes[block]);
-   if( tbuff && !fread( tbuff, (size_t)block_sizes[block], 1, ifile))
-      read_error = -5;
+   tbuff = NULL;
+   if( !read_error)
+      {
+      for( i = 0; i < block; i++)
+         jump += (long) block_sizes[i];
+      tbuff = (char *)malloc( (size_t)block_sizes[block]);
+      if( tbuff && (fseek( ifile, jump, SEEK_CUR)
+                  || !fread( tbuff, (size_t)block_sizes[block], 1, ifile)))
+         read_error = -5;
+      }
    if( !tbuff || read_error)
       {
       free( rval);
-- 
2.43.0


From 8f969c1ec59948975d2bdfe3d43e1e9dc78072c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 14/84] fix: big_vsop: detect partial reads, close the file and
 drop the cache on errors

---
 big_vsop.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index f99adcb..4f6affc 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -123,7 +123,7 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
 {
    static int16_t cache[19];
    static int curr_planet = 99;
-   int close_it = 0, value;
+   int close_it = 0, value, error_code = 0;
 
    ovals[0] = ovals[1] = ovals[2] = 0.;
    if( !planet)
@@ -137,32 +137,38 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
       return( -1);                              /* ...then give up. */
    if( curr_planet != planet)
       {                             /* reload the cache */
-      fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
-      if( !fread( cache, 3 * 6 + 1, sizeof( int16_t), ifile))
-         return( -2);
-      curr_planet = planet;
+      curr_planet = 99;             /* cache is invalid until fully read */
+      if( fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET)
+               || fread( cache, sizeof( int16_t), 3 * 6 + 1, ifile) != 3 * 6 + 1)
+         error_code = -2;
+      else
+         curr_planet = planet;
       }
 
    t /= 10.;         /* convert to julian millennia */
-   for( value = 0; value < 3; value++)
+   for( value = 0; value < 3 && !error_code; value++)
       {
       double sum, rval = 0., power = 1., prec = prec0;
       int16_t *loc = cache + value * 6;
       int i, j;
 
-      fseek( ifile, 290L + (size_t)loc[0] * 24L, SEEK_SET);
+      if( fseek( ifile, 290L + (size_t)loc[0] * 24L, SEEK_SET))
+         error_code = -3;
       if( prec < 0.)
          prec = -prec;
 
-      for( i = 6; i; i--, loc++)
+      for( i = 6; i && !error_code; i--, loc++)
          {
          double idata[3];
 
          sum = 0.;
          for( j = loc[1] - loc[0]; j; j--)
             {
-            if( !fread( idata, 3, sizeof( double), ifile))
-               return( -3);
+            if( fread( idata, sizeof( double), 3, ifile) != 3)
+               {
+               error_code = -3;
+               break;
+               }
             if( idata[0] > prec || idata[0] < -prec)
                {
                double argument = idata[1] + idata[2] * t;
@@ -181,6 +187,11 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
    if( close_it)
       fclose( ifile);
 
+   if( error_code)
+      {
+      ovals[0] = ovals[1] = ovals[2] = 0.;
+      return( error_code);
+      }
    ovals[0] = fmod( ovals[0], 2. * PI);
    if( ovals[0] < 0.)
       ovals[0] += 2. * PI;
-- 
2.43.0


From f16fd19233e2ea004e2238f499558039a82a18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:31 +0000
Subject: [PATCH 15/84] fix: elp82dat: report failed and partial reads and
 allocations, free the buffer at the precision cutoff

---
 elp82dat.cpp | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/elp82dat.cpp b/elp82dat.cpp
index 3ef9df5..9fd70ce 100644
--- a/elp82dat.cpp
+++ b/elp82dat.cpp
@@ -131,7 +131,8 @@ static void compute_lunar_polynomials( const double t_cen, double *fund,
 #define CHUNK_SIZE 10000
 
 static double add_in_series( FILE *ifile, const int series_no,
-                 const double *fund, const double prec, long n_terms)
+                 const double *fund, const double prec, long n_terms,
+                 int *error_code)
 {
    double rval = 0.;
    char *tptr, *ibuff;
@@ -168,28 +169,35 @@ static double add_in_series( FILE *ifile, const int series_no,
       chunk_size = (size_t)n_terms;
    ibuff = tptr = (char *)calloc( (size_t)chunk_size, term_size);
    if( !ibuff)
-#ifdef TEST_CODE
       {
+#ifdef TEST_CODE
       printf( "Failed to alloc %u * %u bytes\n", chunk_size, term_size);
       printf( "n_terms: %ld\n", n_terms);
-      }
-#else
-      return( 0.);
 #endif
+      *error_code = -1;
+      return( 0.);
+      }
    while( n_terms--)
       {
       long amplitude;
       double angle;
 
       if( ibuff == tptr)
-         if( !fread( ibuff, chunk_size, term_size, ifile))
+         {
+         size_t n_to_read = (size_t)n_terms + 1;
+
+         if( n_to_read > chunk_size)
+            n_to_read = chunk_size;
+         if( fread( ibuff, term_size, n_to_read, ifile) != n_to_read)
             {
+            *error_code = -3;
             free( ibuff);
             return( 0.);
             }
+         }
       amplitude = *(int32_t *)tptr;
       if( amplitude < lprec && amplitude > -lprec)
-         return( rval * 1.e-5);
+         break;
       switch( series_type)
          {
          case 0:        /* main problem */
@@ -269,7 +277,7 @@ ELP_DATA_HEADER
 static int get_elp_values( FILE *ifile, const double t_cen,
                      const double prec0, double *ovals)
 {
-   int i;
+   int i, rval = 0;
    double addition;
    double fund[N_FUND_COEFFS];
    ELP_DATA_HEADER *hdr = (ELP_DATA_HEADER *)malloc( sizeof( ELP_DATA_HEADER));
@@ -287,7 +295,7 @@ static int get_elp_values( FILE *ifile, const double t_cen,
    ovals[0] = fund[0] + (22639.58578 * PI / 180.) * sin( fund[7]) / 3600.;
    ovals[1] = 0.;
    ovals[2] = 385000.52719;
-   for( i = 0; i < 36; i++)
+   for( i = 0; i < 36 && !rval; i++)
       {
       double prec = prec0;
       int series_type = i / 3;
@@ -299,10 +307,11 @@ static int get_elp_values( FILE *ifile, const double t_cen,
          else                       /* angular term: cvt to arcseconds */
             prec *= (180. * 3600. / PI);
          }
-      fseek( ifile, hdr->offsets[i + i], SEEK_SET);
-      if( hdr->offsets[i + i + 1])
+      if( fseek( ifile, hdr->offsets[i + i], SEEK_SET))
+         rval = -3;
+      if( hdr->offsets[i + i + 1] && !rval)
          addition = add_in_series( ifile, i, fund, prec,
-                                               hdr->offsets[i + i + 1]);
+                                               hdr->offsets[i + i + 1], &rval);
       else
          addition = 0.;
       if( series_type == 2 || series_type == 4 ||
@@ -316,7 +325,7 @@ static int get_elp_values( FILE *ifile, const double t_cen,
          ovals[i % 3] += addition * (PI / 180.) / 3600.;
       }
    free( hdr);
-   return( 0);
+   return( rval);
 }
 
                /* Laskar's coeffs for precession,  p. 12: */
@@ -345,8 +354,10 @@ int DLL_FUNC compute_elp_xyz( FILE *ifile, const double t_cen,
          return( -1);
       close_file = 1;
       }
-   fseek( ifile, 0L, SEEK_SET);
-   rval = get_elp_values( ifile, adjusted_t_cen, prec, uvr);
+   if( fseek( ifile, 0L, SEEK_SET))
+      rval = -2;
+   else
+      rval = get_elp_values( ifile, adjusted_t_cen, prec, uvr);
    if( rval)
       for( i = 0; i < 4; i++)
          *ecliptic_xyz_2000++ = 0.;
-- 
2.43.0


From ab13f845ba62a99eca308293d1757301a977acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:51 +0000
Subject: [PATCH 16/84] fix: cgi_func: accept lowercase percent-encoding,
 report malformed data

---
 cgi_func.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 6d95d16..40ef8a6 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -129,8 +129,13 @@ static int get_urlencoded_piece( const char **idata,
                c += c1 - '0';
             else if( c1 >= 'A' && c1 <= 'F')
                c += c1 - 'A' + 10;
+            else if( c1 >= 'a' && c1 <= 'f')
+               c += c1 - 'a' + 10;
             else                    /* wasn't an hex digit: */
-               return( -1);         /* not supposed to happen */
+               {                    /* not supposed to happen */
+               *buff = '\0';
+               return( -1);
+               }
             }
          }
       *buff++ = (char)c;
@@ -151,6 +156,8 @@ int get_urlencoded_form_data( const char **idata,
    if( get_urlencoded_piece( idata, field, max_field, '=') != '=')
       return( -1);
    c = get_urlencoded_piece( idata, buff, max_buff, '&');
+   if( c < 0)              /* malformed data */
+      return( -1);
    return( c != '&' && c > 13);
 }
 
-- 
2.43.0


From f9ac7aabafce1f9487edeb640a96c39ff655947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:51 +0000
Subject: [PATCH 17/84] fix: cgi_func: report missing, impossible or cut-off
 POST data and failed allocations; release everything once

---
 cgi_func.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 40ef8a6..8870beb 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -17,7 +17,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 
 #include <stdio.h>
 #include <string.h>
-#include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "cgi_func.h"
 #include "watdefs.h"
@@ -264,17 +264,28 @@ int initialize_cgi_reading( void)
       else
          return( -2);
       eptr = getenv( "CONTENT_LENGTH");
-      assert( eptr);
-      ilen = atoi( eptr);
-      assert( ilen);
+      ilen = (eptr ? atoi( eptr) : 0);
+      if( ilen <= 0 || ilen == INT_MAX)
+         {
+         method = 0;
+         return( -4);
+         }
       ibuff = (char *)malloc( ilen + 1);
-      if( !fgets( ibuff, ilen + 1, stdin))
+      if( !ibuff || !fgets( ibuff, ilen + 1, stdin) || feof( stdin))
+         {
+         method = 0;          /* out of memory,  or less data than promised */
          return( -3);
+         }
       if( method == METHOD_PUT_URL)
          url_pointer = ibuff;
       else           /* must be multipart */
          {
          boundary = (char *)malloc( strlen( ibuff) + 1);
+         if( !boundary)
+            {
+            method = 0;
+            return( -3);
+            }
          strcpy( boundary, ibuff);
          }
       }
@@ -313,4 +324,8 @@ void free_cgi_data( void)
 {
    if( ibuff)
       free( ibuff);
+   if( boundary)
+      free( boundary);
+   ibuff = boundary = NULL;
+   method = 0;
 }
-- 
2.43.0


From 9301ccb3ab0fd47ee90fb6ef1072145850a84851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:51 +0000
Subject: [PATCH 18/84] fix: cgi_func: no overlong field names, report cut-off
 multipart values

---
 cgi_func.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 8870beb..27a2dcf 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -162,12 +162,14 @@ int get_urlencoded_form_data( const char **idata,
 }
 
 #define OVERRUN         -3
+#define MAX_FIELD_LEN   30
 
 int get_multipart_form_data( const char *boundary, char *field,
                 char *buff, char *filename, const size_t max_len)
 {
    char *tptr, *endptr;
    size_t bytes_read = 0, blen = 0;
+   int got_boundary = 0;
 
    if( filename)
       *filename = '\0';
@@ -182,6 +184,8 @@ int get_multipart_form_data( const char *boundary, char *field,
       if( strlen( buff) == max_len - 1)
          return( OVERRUN);
       *endptr = '\0';
+      if( strlen( tptr + 6) >= MAX_FIELD_LEN)
+         return( OVERRUN);
       strcpy( field, tptr + 6);
       if( filename && filename_ptr
              && (endptr = strchr( filename_ptr + 10, '"')) != NULL)
@@ -193,11 +197,15 @@ int get_multipart_form_data( const char *boundary, char *field,
          {
          if( strlen( buff) == max_len - 1)
             return( OVERRUN);
-         while( bytes_read < max_len - 1 &&
-                 fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin)
-                 && memcmp( buff + bytes_read, boundary, blen))
-            bytes_read += strlen( buff + bytes_read);
+         while( !got_boundary && bytes_read < max_len - 1 &&
+                 fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin))
+            if( !strncmp( buff + bytes_read, boundary, blen))
+               got_boundary = 1;
+            else
+               bytes_read += strlen( buff + bytes_read);
          }
+      if( !got_boundary)         /* too much data,  or it ended early */
+         return( OVERRUN);
       }
    else
       return( -1);
@@ -295,7 +303,7 @@ int initialize_cgi_reading( void)
 int get_cgi_data( char *field, char *data, char *filename, const size_t max_data)
 {
    int rval;
-   const size_t max_field = 30;
+   const size_t max_field = MAX_FIELD_LEN;
 
    switch( method)
       {
-- 
2.43.0


From 7d7c156377106bff1cc815b1a4a6dcaeaa884e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 19/84] fix: cgicheck: each request gets its own observation
 file; report requests without observations and failed writes

---
 cgicheck.cpp | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/cgicheck.cpp b/cgicheck.cpp
index 1de27f4..7896afd 100644
--- a/cgicheck.cpp
+++ b/cgicheck.cpp
@@ -18,6 +18,9 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#ifndef _WIN32
+   #include <unistd.h>
+#endif
 #include "cgi_func.h"
 #include "watdefs.h"
 #include "stringex.h"
@@ -45,8 +48,8 @@ int main( const int unused_argc, const char **unused_argv)
    const size_t max_buff_size = 40000;       /* room for 500 obs */
    char *buff;
    char boundary[100], field[30];
-   const char *temp_obs_filename = "temp_obs.txt";
-   int argc = 2;
+   char temp_obs_filename[40];
+   int argc = 2, write_error = 0;
    FILE *lock_file = fopen( "lock.txt", "w");
    size_t bytes_written = 0;
 #ifndef _WIN32
@@ -83,6 +86,19 @@ int main( const int unused_argc, const char **unused_argv)
       return( 0);
       }
    buff = (char *)malloc( max_buff_size + 100);
+   if( !buff)
+      {
+      printf( "<b> Out of memory</b>\n");
+      printf( "</pre> </body> </html>");
+      return( 0);
+      }
+            /* Requests can run at the same time;  each needs its own file : */
+#ifdef _WIN32
+   strlcpy_error( temp_obs_filename, "temp_obs.txt");
+#else
+   snprintf_err( temp_obs_filename, sizeof( temp_obs_filename),
+                     "temp_obs%ld.txt", (long)getpid( ));
+#endif
    while( get_multipart_form_data( boundary, field, buff, NULL, max_buff_size) >= 0)
       {
       if( !strcmp( field, "TextArea") || !strcmp( field, "upfile"))
@@ -92,8 +108,16 @@ int main( const int unused_argc, const char **unused_argv)
             FILE *ofile = fopen( temp_obs_filename,
                                (bytes_written ? "ab" : "wb"));
 
-            bytes_written += fwrite( buff, 1, strlen( buff), ofile);
-            fclose( ofile);
+            if( !ofile)
+               write_error = 1;
+            else
+               {
+               if( fwrite( buff, 1, strlen( buff), ofile) != strlen( buff))
+                  write_error = 1;
+               if( fclose( ofile))
+                  write_error = 1;
+               bytes_written += strlen( buff);
+               }
             }
          }
       else if( !strcmp( field, "radius"))
@@ -115,6 +139,17 @@ int main( const int unused_argc, const char **unused_argv)
          argv[argc++] = "-u";
       }
    free( buff);
+   if( write_error || !bytes_written)
+      {
+      if( write_error)
+         printf( "<b> Couldn't store the observations on the server</b>\n");
+      else
+         printf( "<b> No observations were found in your request</b>\n");
+      if( bytes_written)
+         remove( temp_obs_filename);
+      printf( "</pre> </body> </html>");
+      return( 0);
+      }
    if( verbose)
       printf( "Searching to %f degrees;  %u bytes read from input\n",
                      search_radius, (unsigned)bytes_written);
@@ -124,6 +159,7 @@ int main( const int unused_argc, const char **unused_argv)
    argv[argc++] = field;
    argv[argc] = NULL;
    astcheck_main( argc, argv);
+   remove( temp_obs_filename);
    printf( "</pre> </body> </html>");
    return( 0);
 }
-- 
2.43.0


From b5695294b888c9140c0976b8c63a342e673cb734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:38 +0000
Subject: [PATCH 20/84] fix: add_off: no invented position for the first failed
 observation or unknown spacecraft

---
 add_off.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/add_off.c b/add_off.c
index 4658aa7..385fa27 100644
--- a/add_off.c
+++ b/add_off.c
@@ -227,9 +227,12 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
       printf( "Either it's not an MPC code,  or it's not one of the spacecraft\n");
       printf( "that this software knows about.  Check the 'add_off.c' source\n");
       printf( "code,  and/or contact the author.\n");
-      for( i = 0; i < n_offsets; i++)
+      for( i = n_offsets - 1; i >= 0; i--)
          if( !strcmp( offsets[i].mpc_code, offsets[0].mpc_code))
-            offsets[i].xyz[0] = -0.1;     /* mark as "don't try again" */
+            {
+            n_positions_failed++;
+            offsets[i].mpc_code[0] = '\0';     /* mark as "don't try again" */
+            }
       return( 0);
       }
 #ifndef _WIN32
@@ -323,7 +326,7 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
       }
          /* If some or all obs weren't set,  zero their MPC codes.  That */
          /* will keep us from making repeated failed requests for them.  */
-   for( i--; i > 0; i--)
+   for( i--; i >= 0; i--)
       if( !strcmp( offsets[i].mpc_code, offsets[0].mpc_code))
          if( !offsets[i].xyz[0])
             {
-- 
2.43.0


From 97907ff89727cd75a98686bdac2907a8f7d4cdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:38 +0000
Subject: [PATCH 21/84] fix: add_off: each instance reads only its own, current
 answer from Horizons

---
 add_off.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/add_off.c b/add_off.c
index 385fa27..3c7c24f 100644
--- a/add_off.c
+++ b/add_off.c
@@ -16,6 +16,8 @@ has worked well thus far,  but the above URL could come in handy. */
 
 #ifdef _WIN32
    #include "windows.h"
+#else
+   #include <unistd.h>
 #endif
 #include <errno.h>
 #include <stdio.h>
@@ -170,7 +172,7 @@ static int set_mpc_style_offsets( char *buff, const double *xyz)
 
 const char *cmd_start =
 #ifndef _WIN32
-    "curl -s -o /tmp/add_off.txt %s\""
+    "curl -s -o %s %s\""
 #endif
     "https://ssd.jpl.nasa.gov/horizons_batch.cgi?batch=1&COMMAND='%d'"
     "&REF_PLANE='FRAME'"
@@ -218,7 +220,7 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
 #ifdef _WIN32
    const char *outfilename = "add_off.txt";
 #else
-   const char *outfilename = "/tmp/add_off.txt";
+   char outfilename[40];
 #endif
 
    if( !horizons_idx)
@@ -235,8 +237,11 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
             }
       return( 0);
       }
-#ifndef _WIN32
-   snprintf_err( buff, sizeof( buff), cmd_start,
+#ifndef _WIN32          /* other instances may be running,  too */
+   snprintf_err( outfilename, sizeof( outfilename), "/tmp/add_off%ld.txt",
+            (long)getpid( ));
+   remove( outfilename);         /* don't use an older answer */
+   snprintf_err( buff, sizeof( buff), cmd_start, outfilename,
             (verbose ? "" : "-q "), horizons_idx);
 #else
    snprintf_err( buff, sizeof( buff), cmd_start,
@@ -314,6 +319,9 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
          else if( verbose > 1 || !memcmp( buff, "No ephemeris", 12))
             printf( "%s", buff);
       fclose( ifile);
+#ifndef _WIN32
+      remove( outfilename);
+#endif
       }
    else
       {
-- 
2.43.0


From 7dc3df28aafa5cf2cb6dccf7fa2317f954cc75d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:38 +0000
Subject: [PATCH 22/84] fix: add_off: missing or cut-off answers from Horizons
 fail instead of aborting or giving cut-off numbers

---
 add_off.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/add_off.c b/add_off.c
index 3c7c24f..02293de 100644
--- a/add_off.c
+++ b/add_off.c
@@ -277,31 +277,29 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
       {
       FILE *ifile = fopen( outfilename, "rb");
 
-      assert( ifile);
-      while( fgets( buff, sizeof( buff), ifile))
+      if( !ifile)
+         printf( "No answer received from Horizons\n");
+      while( ifile && fgets( buff, sizeof( buff), ifile))
          if( strstr( buff, " = A.D. ") && strstr( buff, " TDB"))
             {
             const double jd = atof( buff);
             const double jd_for_year_2100 = 2451545.0 + 36525.;
                      /* update the above before 2100 Jan 1 */
             double state[6];
+            bool is_valid = (jd > hst_launch_jd && jd < jd_for_year_2100);
             int j;
 
             if( verbose)
                printf( "Found locations\n%s", buff);
-            assert( jd > hst_launch_jd);
-            assert( jd < jd_for_year_2100);
-            for( j = 0; j < 6; j += 3)
-               {
-               int n_found;
-
-               if( !fgets( buff, sizeof( buff), ifile))
-                  assert( 0);
-               n_found = sscanf( buff, "%lf %lf %lf", state + j,
-                                 state + j + 1, state + j + 2);
-               assert( 3 == n_found);
-               }
-            for( j = 0; j < i; j++)
+            for( j = 0; is_valid && j < 6; j += 3)
+               if( !fgets( buff, sizeof( buff), ifile)
+                     || !strchr( buff, '\n')      /* line may be cut off */
+                     || 3 != sscanf( buff, "%lf %lf %lf", state + j,
+                                 state + j + 1, state + j + 2))
+                  is_valid = false;
+            if( !is_valid)
+               printf( "Bad data from Horizons for JD %f\n", jd);
+            for( j = 0; is_valid && j < i; j++)
                if( !strcmp( offsets[j].mpc_code, offsets[0].mpc_code)
                         && fabs( offsets[j].jd - jd) < tolerance
                         && !offsets[j].xyz[0] && !offsets[j].xyz[1]
@@ -318,7 +316,8 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
             }
          else if( verbose > 1 || !memcmp( buff, "No ephemeris", 12))
             printf( "%s", buff);
-      fclose( ifile);
+      if( ifile)
+         fclose( ifile);
 #ifndef _WIN32
       remove( outfilename);
 #endif
-- 
2.43.0


From 94dbf970c98d12b560e1ba526b701b8ca4b60cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:38 +0000
Subject: [PATCH 23/84] fix: add_off: terminate ADES times; a spacecraft's code
 doesn't apply to the next station's observations

---
 add_off.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/add_off.c b/add_off.c
index 02293de..a0f15f2 100644
--- a/add_off.c
+++ b/add_off.c
@@ -73,8 +73,13 @@ static double get_sat_obs_jd( const char *buff)
    const char *ades_time = strstr( buff, "<obsTime>");
    const char *ades_stn = strstr( buff, "<stn>");
 
-   if( ades_stn && get_horizons_idx( ades_stn + 5))
-      memcpy( mpc_code_from_ades, ades_stn + 5, 3);
+   if( ades_stn)
+      {
+      if( get_horizons_idx( ades_stn + 5))
+         memcpy( mpc_code_from_ades, ades_stn + 5, 3);
+      else
+         *mpc_code_from_ades = '\0';
+      }
    if( strlen( buff) > 80 && (buff[14] == 'S' || buff[14] == 's'))
       jd = extract_date_from_mpc_report( buff, NULL);
    if( ades_time && *mpc_code_from_ades)
@@ -83,8 +88,9 @@ static double get_sat_obs_jd( const char *buff)
       size_t i = 0;
 
       ades_time += 9;
-      while( *ades_time != 'Z' && *ades_time && i < sizeof( tbuff))
+      while( *ades_time != 'Z' && *ades_time && i < sizeof( tbuff) - 1)
          tbuff[i++] = *ades_time++;
+      tbuff[i] = '\0';
       jd = get_time_from_string( 0., tbuff, FULL_CTIME_YMD, NULL);
       }
 
-- 
2.43.0


From 2e32004626cca8d590a2e7a0c31b1c0aa96ebda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:06 +0000
Subject: [PATCH 24/84] fix: add_off: keep the original offset of an
 observation when no new one is found

---
 add_off.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/add_off.c b/add_off.c
index a0f15f2..aa3d09c 100644
--- a/add_off.c
+++ b/add_off.c
@@ -470,15 +470,18 @@ int process_file( const char *filename, FILE *ofile)
          if( !ades_posn_tag( buff))          /* unless it's an ADES posn tag */
             fprintf( ofile, "%s", buff);
          }
-      else if( buff[14] != 's' || *mpc_code_from_ades)
+      else
          {
          int idx = -1;
+         const bool is_offset_line = (buff[14] == 's' && !*mpc_code_from_ades);
          char *mpc_code = (*mpc_code_from_ades ? mpc_code_from_ades : buff + 77);
 
          for( i = 0; idx < 0 && i < n_offsets; i++)
             if( !memcmp( mpc_code, offsets[i].mpc_code, 3)
                        && fabs( jd - offsets[i].jd) < tolerance)
                idx = i;
+         if( idx >= 0 && is_offset_line)
+            continue;      /* replaced by the new offset */
          if( idx >= 0)
             {
             if( *mpc_code_from_ades)
-- 
2.43.0


From 5db06254787eba64a96ea392bb231d50c2c0046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:06 +0000
Subject: [PATCH 25/84] fix: add_off: report read, write and allocation
 failures

---
 add_off.c | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/add_off.c b/add_off.c
index aa3d09c..24acfce 100644
--- a/add_off.c
+++ b/add_off.c
@@ -414,10 +414,15 @@ int process_file( const char *filename, FILE *ofile)
    double jd;
    time_t t0 = time( NULL);
    offset_t *offsets = NULL;
-   int i, n_offsets = 0;
+   int i, n_offsets = 0, rval = 0;
    bool ades_found = false;
 
-   assert( ifile);
+   if( !ifile)
+      {
+      fprintf( stderr, "'%s' not opened : ", filename);
+      perror( NULL);
+      return( -1);
+      }
    while( fgets( buff, sizeof( buff), ifile))
       if( (jd = get_sat_obs_jd( buff)) != 0.)
          {
@@ -428,6 +433,12 @@ int process_file( const char *filename, FILE *ofile)
             n_offsets++;
             offsets = (offset_t *)realloc( offsets,
                                  n_offsets * sizeof( offset_t));
+            if( !offsets)
+               {
+               fprintf( stderr, "Out of memory\n");
+               fclose( ifile);
+               return( -1);
+               }
             memset( offsets + n_offsets - 1, 0, sizeof( offset_t));
             offsets[n_offsets - 1].jd = jd;
             if( *mpc_code_from_ades)
@@ -463,7 +474,9 @@ int process_file( const char *filename, FILE *ofile)
       }
    if( !ades_found)
       fprintf( ofile, "COM add_off ver 2024 Aug 11,  run %s", ctime( &t0));
-   fseek( ifile, 0, SEEK_SET);
+   if( ferror( ifile))
+      rval = -1;
+   rewind( ifile);
    while( fgets( buff, sizeof( buff), ifile))
       if( (jd = get_sat_obs_jd( buff)) <= 0.)    /* not an observation;  */
          {                                       /* just pass it through */
@@ -526,6 +539,10 @@ int process_file( const char *filename, FILE *ofile)
             }
          fprintf( ofile, "%s", buff);
          }
+   if( ferror( ifile))
+      rval = -1;
+   if( rval)
+      fprintf( stderr, "Error reading '%s'\n", filename);
    fclose( ifile);
    free( offsets);
    snprintf( buff, sizeof( buff),
@@ -536,7 +553,12 @@ int process_file( const char *filename, FILE *ofile)
       fprintf( ofile, "%s", buff);
    if( ofile != stdout)
       printf( "%s", buff + 4);
-   return( 0);
+   if( fflush( ofile) || ferror( ofile))
+      {
+      fprintf( stderr, "Error writing output\n");
+      rval = -1;
+      }
+   return( rval);
 }
 
 #ifdef ON_LINE_VERSION
@@ -584,7 +606,13 @@ int main( const int argc, const char **argv)
                printf( "Option '%s' unrecognized\n", argv[i]);
                break;
             }
-   return( process_file( argv[1], ofile));
+   i = process_file( argv[1], ofile);
+   if( ofile != stdout && fclose( ofile))
+      {
+      fprintf( stderr, "Error writing '%s'\n", argv[2]);
+      i = -1;
+      }
+   return( i);
 }
 
 #ifdef ON_LINE_VERSION
-- 
2.43.0


From f34dfeebb8137b11dc85d7bc3b84f4d29b2c6a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:06 +0000
Subject: [PATCH 26/84] fix: add_off: on-line requests each get their own
 observation file; report requests without observations

---
 add_off.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/add_off.c b/add_off.c
index 24acfce..0194b3e 100644
--- a/add_off.c
+++ b/add_off.c
@@ -627,8 +627,9 @@ int main( void)
    FILE *lock_file = fopen( "lock.txt", "w");
    extern char **environ;
    int cgi_status;
-   const char *temp_filename = "/tmp/add_off2.txt";
+   char temp_filename[40];
    size_t i, bytes_written = 0;
+   int write_error = 0;
 
    avoid_runaway_process( 15);
    printf( "Content-type: text/html\n\n");
@@ -651,7 +652,10 @@ int main( void)
       printf( "This isn't supposed to happen.</p>\n");
       return( 0);
       }
-   while( !get_cgi_data( field, buff, NULL, max_buff_size))
+            /* Requests can run at the same time;  each needs its own file : */
+   snprintf_err( temp_filename, sizeof( temp_filename), "/tmp/add_off2_%ld.txt",
+                     (long)getpid( ));
+   while( buff && !get_cgi_data( field, buff, NULL, max_buff_size))
       {
       if( !strcmp( field, "TextArea") || !strcmp( field, "upfile"))
          {
@@ -661,13 +665,20 @@ int main( void)
             FILE *ofile = fopen( temp_filename,
                                (bytes_written ? "ab" : "wb"));
 
-            assert( ofile);
             for( i = 1; buff[i + 1]; i++)     /* cvt Mac-style CR endings */
                if( buff[i] == 13 && buff[i + 1] != 10)   /* to LF endings */
                   buff[i] = 10;
-            bytes_written += fwrite( buff, 1, strlen( buff), ofile);
-            fprintf( ofile, "\n");
-            fclose( ofile);
+            if( !ofile)
+               write_error = 1;
+            else
+               {
+               if( fwrite( buff, 1, strlen( buff), ofile) != strlen( buff))
+                  write_error = 1;
+               fprintf( ofile, "\n");
+               if( fclose( ofile))
+                  write_error = 1;
+               bytes_written += strlen( buff);
+               }
             if( tptr)
                verbose = 1;
             }
@@ -678,7 +689,14 @@ int main( void)
    argv[0] = "add_off";
    argv[1] = temp_filename;
    argv[2] = NULL;
-   dummy_main( 2, argv);
+   if( write_error)
+      printf( "<b> Couldn't store the observations on the server</b>\n");
+   else if( !bytes_written)
+      printf( "<b> No observations were found in your request</b>\n");
+   else
+      dummy_main( 2, argv);
+   if( bytes_written)
+      remove( temp_filename);
    fprintf( lock_file, "Done\n");
    printf( "</pre> </body> </html>");
    fclose( lock_file);
-- 
2.43.0


From 96bca164973d61daddb395b858d608f09debe3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:01 +0000
Subject: [PATCH 27/84] fix: them_cat: the catalogue is replaced in one step, 
 only by a complete one;  instances don't share a temporary file

---
 them_cat.c | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/them_cat.c b/them_cat.c
index 6528264..9f89b17 100644
--- a/them_cat.c
+++ b/them_cat.c
@@ -37,25 +37,38 @@ static FILE *err_fopen( const char *filename, const char *permits)
    return( rval);
 }
 
+static int error_exit( const char *temp_filename, const char *message)
+{
+   fprintf( stderr, "%s;  old file left unchanged\n", message);
+   remove( temp_filename);
+   return( -2);
+}
+
 int main( const int argc, const char **argv)
 {
+   char temp_filename[40];       /* other instances may be running,  too */
    FILE *old_file = err_fopen( argv[1], "rb");
    FILE *new_file = err_fopen( argv[2], "rb");
-   FILE *temp_file = err_fopen( "ickywax.ugh", "wb");
+   FILE *temp_file;
    double jd0_new, end_jd_new;
    char buff[200], new_end[200];
    const time_t t0 = time( NULL);
    int i;
-   bool found_end = false;
+   bool found_end = false, write_error;
 
    assert( argc >= 3);
+   snprintf_err( temp_filename, sizeof( temp_filename), "ickywax%ld.ugh",
+                     (long)getpid( ));
+   temp_file = err_fopen( temp_filename, "wb");
    while( fgets( buff, sizeof( buff), new_file)
                   && memcmp( buff, "# Ephem range:", 14))
       ;
-   sscanf( buff + 15, "%lf %lf", &jd0_new, &end_jd_new);
+   if( ferror( new_file) || feof( new_file)
+               || sscanf( buff + 15, "%lf %lf", &jd0_new, &end_jd_new) != 2)
+      return( error_exit( temp_filename, "No ephemeris range in 'new' file"));
    for( i = 0; i < 3; i++)       /* skip lines */
       if( !fgets( buff, sizeof( buff), new_file))
-         perror( "Error reading 'new' file");
+         return( error_exit( temp_filename, "Error reading 'new' file"));
    strlcpy_error( new_end, buff);
 
    while( !found_end && fgets( buff, sizeof( buff), old_file))
@@ -71,19 +84,25 @@ int main( const int argc, const char **argv)
       if( !memcmp( buff, "# MJD ", 6) && atof( buff + 6) == jd0_new - 1.)
          found_end = true;
       }
-   assert( found_end);
+   if( !found_end)
+      return( error_exit( temp_filename, "'Old' file doesn't reach the start of the 'new' one"));
    for( i = 0; i < 3 && fgets( buff, sizeof( buff), old_file); i++)
       fputs( buff, temp_file);
+   if( i < 3)
+      return( error_exit( temp_filename, "Error reading 'old' file"));
    fclose( old_file);
    while( fgets( buff, sizeof( buff), new_file))
       fputs( buff, temp_file);
-   fclose( temp_file);
+   if( ferror( new_file))
+      return( error_exit( temp_filename, "Error reading 'new' file"));
+   write_error = (ferror( temp_file) != 0);
+   if( fclose( temp_file) || write_error)
+      return( error_exit( temp_filename, "Error writing temporary file"));
    fclose( new_file);
-#ifdef _WIN32
+#ifdef _WIN32           /* rename( ) doesn't replace files in Windows */
    _unlink( argv[1]);
-#else
-   unlink( argv[1]);
 #endif
-   rename( "ickywax.ugh", argv[1]);
+   if( rename( temp_filename, argv[1]))
+      return( error_exit( temp_filename, "Couldn't replace 'old' file"));
    return( 0);
 }
-- 
2.43.0


From d0aeb38aaf775a3438208c81d6bee7b428ebcefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:01 +0000
Subject: [PATCH 28/84] fix: mpc2sof: room for all comets;  report read, write
 and allocation failures

---
 mpc2sof.cpp | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/mpc2sof.cpp b/mpc2sof.cpp
index 4c72a89..88e6ac0 100644
--- a/mpc2sof.cpp
+++ b/mpc2sof.cpp
@@ -114,6 +114,33 @@ static FILE *err_fopen( const char *filename, const char *permits)
    return( rval);
 }
 
+static void check_read( FILE *ifile)
+{
+   if( ferror( ifile))
+      {
+      perror( "Error reading input file");
+      exit( -1);
+      }
+   fclose( ifile);
+}
+
+      /* Adds a record,  doubling the buffer when it's full */
+static char *add_record( char *obuff, const size_t n_out, const char *rec,
+                                                 const size_t reclen)
+{
+   if( !n_out || (n_out > 1 && IS_POWER_OF_TWO( n_out)))
+      {
+      obuff = (char *)realloc( obuff, (n_out ? n_out : 1) * 2 * reclen);
+      if( !obuff)
+         {
+         fprintf( stderr, "Out of memory\n");
+         exit( -1);
+         }
+      }
+   memcpy( obuff + n_out * reclen, rec, reclen);
+   return( obuff);
+}
+
 #define MAX_OUT 200
 
 int main( const int argc, const char **argv)
@@ -127,6 +154,7 @@ int main( const int argc, const char **argv)
    long epoch;
    int i;
    size_t n_out = 0, n_written;
+   bool write_error;
 
    if( !ifile)
       ifile = err_fopen( "MPCORB.DAT", "rb");
@@ -166,12 +194,9 @@ int main( const int argc, const char **argv)
                   tfirst_buff, buff + 194,             /* Tfirst, Tlast */
                   buff + 142, buff + 8, buff + 14);    /* perts, H, G */
          assert( strlen( tbuff) == reclen);
-         n_out++;
-         if( IS_POWER_OF_TWO( n_out))
-            obuff = (char *)realloc( obuff, n_out * 2 * reclen);
-         memcpy( obuff + (n_out - 1) * reclen, tbuff, reclen);
+         obuff = add_record( obuff, n_out++, tbuff, reclen);
          }
-   fclose( ifile);
+   check_read( ifile);
 
    if( argc <= 2 || strcmp( argv[2], "i"))
       {
@@ -211,14 +236,17 @@ int main( const int argc, const char **argv)
             strcat( tbuff, "           ");    /* rms, number obs */
             strcat( tbuff, "                                     \n");     /* Tlast, perts, H, G */
             assert( strlen( tbuff) == reclen);
-            memcpy( obuff + n_out * reclen, tbuff, reclen);
-            n_out++;
+            obuff = add_record( obuff, n_out++, tbuff, reclen);
             }
-      fclose( ifile);
+      check_read( ifile);
       }
    n_written = fwrite( obuff, reclen, n_out, ofile);
-   assert( n_written == n_out);
    free( obuff);
-   fclose( ofile);
+   write_error = (ferror( ofile) || n_written != n_out);
+   if( fclose( ofile) || write_error)
+      {
+      fprintf( stderr, "Error writing 'mpcorb.sof'\n");
+      return( -1);
+      }
    return( 0);
 }
-- 
2.43.0


From f38c0e1fb5e007f0b5e52f50900654c913ffffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:01 +0000
Subject: [PATCH 29/84] fix: csv2ades: report failed reads and writes

---
 csv2ades.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/csv2ades.c b/csv2ades.c
index c6c9dee..7f7debb 100644
--- a/csv2ades.c
+++ b/csv2ades.c
@@ -147,6 +147,17 @@ static void csv_to_ades( const char *ibuff, const char *header,
       }
 }
 
+      /* Any failure to read all of the data is an error */
+static void check_read( FILE *ifile)
+{
+   if( ferror( ifile))
+      {
+      perror( "Error reading input file");
+      exit( -3);
+      }
+   fclose( ifile);
+}
+
 static void error_exit( void)
 {
    fprintf( stderr, "Run as 'csv2ades (asteroid number)' for ADES data on a single\n"
@@ -214,9 +225,14 @@ int main( const int argc, const char **argv)
                else if( *buff != '#')
                   csv_to_ades( buff, header, low_num, high_num);
                }
-            fclose( ifile);
+            check_read( ifile);
             }
-   fclose( hdr_file);
+   check_read( hdr_file);
+   if( fflush( stdout) || ferror( stdout))
+      {
+      perror( "Error writing output");
+      return( -4);
+      }
    return( 0);
 }
 
-- 
2.43.0


From 88c20ae56fabc4b2b4004e4d62322c17d00d139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:01 +0000
Subject: [PATCH 30/84] fix: mms: check that the output file was opened; 
 report failed reads and writes

---
 mms.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mms.cpp b/mms.cpp
index 1240181..26f0636 100644
--- a/mms.cpp
+++ b/mms.cpp
@@ -79,7 +79,7 @@ int main( const int argc, const char **argv)
    if( argc > 2 && argv[2][0] != '-')
       {
       ofile = fopen( argv[2], "wb");
-      if( !ifile)
+      if( !ofile)
          {
          fprintf( stderr, "Couldn't open '%s' ", argv[2]);
          perror( NULL);
@@ -117,6 +117,8 @@ int main( const int argc, const char **argv)
       if( !memcmp( buff, "Spacecraft = MMS", 16))
          mms_number = buff[16];
       }
+   if( ferror( ifile))
+      error_exit( "Error reading input file\n");
    assert( mms_number >= '1' && mms_number <= '4');
    fseek( ifile, 0L, SEEK_SET);
                      /* '0,149597870.7,86400' = coords are J2000 equatorial,
@@ -138,6 +140,8 @@ int main( const int argc, const char **argv)
          n_lines++;
          }
       }
+   if( ferror( ifile))
+      error_exit( "Error reading input file\n");
    fclose( ifile);
    fprintf( ofile, "\nCreated from 'mms.cpp' (q.v.)\n");
    full_ctime( buff, jd_start, CALENDAR_JULIAN_GREGORIAN);
@@ -145,7 +149,10 @@ int main( const int argc, const char **argv)
 
    full_ctime( buff, jd_start + (n_lines / out_freq) * out_freq / 720., CALENDAR_JULIAN_GREGORIAN);
    fprintf( ofile, "Ephemeris end:   %s\n", buff);
+   if( fflush( ofile) || ferror( ofile))
+      error_exit( "Error writing output file\n");
    if( ofile != stdout)
-      fclose( ofile);
+      if( fclose( ofile))
+         error_exit( "Error writing output file\n");
    return( 0);
 }
-- 
2.43.0


From 43b24e264ca37c73585efc599b3c8e306aaff984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:01 +0000
Subject: [PATCH 31/84] fix: themis: report failed reads and writes

---
 themis.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/themis.cpp b/themis.cpp
index c35c6f0..39417ce 100644
--- a/themis.cpp
+++ b/themis.cpp
@@ -124,6 +124,8 @@ int main( const int argc, const char **argv)
          output_line++;
          }
       }
+   if( ferror( ifile))
+      error_exit( "Error reading input file\n");
    fclose( ifile);
    assert( jd_start > MIN_JD);
    assert( jd_end > MIN_JD);
@@ -133,7 +135,10 @@ int main( const int argc, const char **argv)
 
    full_ctime( buff, jd_end, CALENDAR_JULIAN_GREGORIAN);
    fprintf( ofile, "Ephemeris end:   %s\n", buff);
+   if( fflush( ofile) || ferror( ofile))
+      error_exit( "Error writing output file\n");
    if( ofile != stdout)
-      fclose( ofile);
+      if( fclose( ofile))
+         error_exit( "Error writing output file\n");
    return( 0);
 }
-- 
2.43.0


From b6ed87b795cfb8aeefa9bfb77e99a54d87014da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:01 +0000
Subject: [PATCH 32/84] fix: jpl2b32: check that the output file was opened; 
 report failed reads and writes

---
 jpl2b32.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jpl2b32.cpp b/jpl2b32.cpp
index b9ea253..63b3925 100644
--- a/jpl2b32.cpp
+++ b/jpl2b32.cpp
@@ -34,7 +34,7 @@ int main( const int argc, const char **argv)
    FILE *ifile = (argc > 1 ? fopen( argv[1], "rb") : NULL);
    FILE *ofile = NULL;
    char buff[200];
-   int n_written = 0,  pass;
+   int n_written = 0,  pass, io_error;
    const int sat_id = (argc > 1 ? atoi( argv[1]) : 0);
    double jd0 = 0., step_size = 0., jd, max_ordinate = 0;
 
@@ -59,6 +59,12 @@ int main( const int argc, const char **argv)
 
    snprintf( buff, 10, "%d.b32", sat_id);
    ofile = fopen( buff, "wb");
+   if( !ofile)
+      {
+      printf( "Couldn't open the output file '%s'\n", buff);
+      return( -3);
+      }
+   memset( buff, 0, sizeof( buff));
    fwrite( buff, 128, 1, ofile);    /* output dummy 'placeholder' buffer */
    for( pass = 0; pass < 2; pass++)
       {
@@ -101,6 +107,7 @@ int main( const int argc, const char **argv)
             }
       }
 
+   io_error = ferror( ifile);
    fclose( ifile);
    fprintf( ofile, "Ephemeris from JPL Horizons output\n");
    fprintf( ofile, "Created using 'jpl2b32', version %s\n", __DATE__);
@@ -115,7 +122,12 @@ int main( const int argc, const char **argv)
                jd0,  step_size, (long)n_written, 6,
                max_ordinate / 1.5e+9, 32, 0);
    fwrite( buff, 128, 1, ofile);
-   fclose( ofile);
+   io_error |= ferror( ofile);
+   if( fclose( ofile) || io_error)
+      {
+      printf( "Error reading or writing data;  output is incomplete\n");
+      return( -4);
+      }
    return( 0);
 }
 
-- 
2.43.0


From a2393babd7091a99759994bdfc1576802c661207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:33 +0000
Subject: [PATCH 33/84] fix: get_time: nearest weekday for times before 2000

---
 get_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index 85f8be9..6a79fd1 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -810,7 +810,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                month = ival;
             else if( (ival = day_of_week_name_to_index( str)) >= 0)
                {
-               ival -= ((long)(initial_t2k + 6.5)) % 7;
+               ival -= (int)( ((long)floorl( initial_t2k + 6.5) % 7 + 7) % 7);
                if( ival < -3)
                   ival += 7;
                else if( ival > 3)
-- 
2.43.0


From bb37fa73eaa814686cf90bbcf10afd425873c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 34/84] fix: ades2mpc: sigmas, correlation and IDs no longer
 leak into the next observation

---
 ades2mpc.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 06ec766..5809161 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -933,6 +933,14 @@ static void setup_observation( ades2mpc_t *cptr)
    cptr->id_set = 0;
    cptr->spacecraft_center = 399;      /* default to geocentric */
    cptr->full_t2k = NOT_A_VALID_TIME;
+            /* don't let anything leak over from the preceding observation : */
+   cptr->rms_ra[0] = cptr->rms_dec[0] = cptr->corr[0] = '\0';
+   cptr->rms_mag[0] = cptr->rms_time[0] = '\0';
+   cptr->full_ra[0] = cptr->full_dec[0] = cptr->full_mag[0] = '\0';
+   cptr->notes[0] = cptr->program_code[0] = '\0';
+   cptr->trk_sub[0] = cptr->obs_id[0] = cptr->trk_id[0] = '\0';
+   memset( cptr->passband, 0, sizeof( cptr->passband));
+   memset( cptr->spacecraft_vel, 0, sizeof( cptr->spacecraft_vel));
 }
 
 /* The following checks to see if the input is astrometry with "Dave
-- 
2.43.0


From 6f94fc0b461c9e009583e409181dfb46b8cb63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:24 +0000
Subject: [PATCH 35/84] fix: ades2mpc: a file ending within an XML tag was read
 forever

---
 ades2mpc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 5809161..b1f3527 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1265,8 +1265,10 @@ int fgets_with_ades_xlation( char *buff, const size_t len,
    ades2mpc_t *cptr = (ades2mpc_t *)ades_context;
    int prev_rval = cptr->prev_rval;
 
-   if( prev_rval)
+   if( prev_rval > 0)
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
+   else              /* error in preceding line;  don't parse it again */
+      prev_rval = 0;
    while( !prev_rval && fgets_trimmed( buff, (int)len, ifile))
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
    while( *buff && *buff != 10 && *buff != 13)
-- 
2.43.0


From 0f1fa215f0b250a9bcfd4e522e8656f4a19a0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:05 +0000
Subject: [PATCH 36/84] fix: ades2mpc: unclosed or unopened XML tags overran
 the tag stack

---
 ades2mpc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index b1f3527..6dc893c 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1184,14 +1184,14 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
                {
                if( tptr[1] == '/')
                   {
-                  cptr->depth--;
-                  if( cptr->depth < 0 || cptr->tags[cptr->depth] != tag_idx)
+                  if( !cptr->depth || cptr->tags[--cptr->depth] != tag_idx)
                      rval = ADES_CLOSING_UNOPENED_TAG;
                   }
                else
                   {
-                  cptr->tags[cptr->depth++] = tag_idx;
-                  if( cptr->depth == MAX_DEPTH)
+                  if( cptr->depth < MAX_DEPTH)
+                     cptr->tags[cptr->depth++] = tag_idx;
+                  else
                      rval = ADES_DEPTH_MAX;
                   }
                if( tag_idx == ADES_optical)
-- 
2.43.0


From ec0ccb9186bcc872937946ba4b7a92840eb5e2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:47 +0000
Subject: [PATCH 37/84] fix: ades2mpc: failed allocations crashed or lost the
 PSV observations

---
 ades2mpc.cpp | 20 ++++++++++++--------
 astcheck.cpp | 11 +++++++++--
 mpc_func.h   |  7 +++++++
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 6dc893c..d91eb30 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -60,7 +60,8 @@ void *init_ades2mpc( void)
 {
    ades2mpc_t *rval = (ades2mpc_t *)calloc( 1, sizeof( ades2mpc_t));
 
-   rval->full_t2k = NOT_A_VALID_TIME;
+   if( rval)
+      rval->full_t2k = NOT_A_VALID_TIME;
    return( rval);
 }
 
@@ -1016,7 +1017,8 @@ static int process_psv_line( ades2mpc_t *cptr, char *obuff, const char *ibuff)
 #define MIN_PSV_TAGS    4
 
 /* Returns either zero if the line is not a PSV header,  or the number
-of PSV fields (which equals the number of pipe separators plus one.) */
+of PSV fields (which equals the number of pipe separators plus one),
+or a negative value if memory for them could not be allocated. */
 
 static int check_for_psv_header( ades2mpc_t *cptr, const char *buff)
 {
@@ -1038,10 +1040,13 @@ static int check_for_psv_header( ades2mpc_t *cptr, const char *buff)
       }
    if( n_psv_tags < MIN_PSV_TAGS)
       return( 0);
-   cptr->n_psv_fields = n_psv_tags;
    if( cptr->psv_tags)
       free( cptr->psv_tags);
+   cptr->n_psv_fields = 0;
    cptr->psv_tags = (int *)calloc( n_psv_tags, sizeof( int));
+   if( !cptr->psv_tags)
+      return( ADES_OUT_OF_MEMORY);
+   cptr->n_psv_fields = n_psv_tags;
    tptr = buff;
    n_psv_tags = 0;
    while( tptr)
@@ -1093,10 +1098,6 @@ static int process_psv_header( ades2mpc_t *cptr, char *obuff, const char *ibuff)
    return( rval);
 }
 
-#define ADES_CLOSING_UNOPENED_TAG         (-2)
-#define ADES_DEPTH_MAX                    (-3)
-#define ADES_MALFORMED_TAG                (-4)
-
 int xlate_ades2mpc( void *context, char *obuff, const char *buff)
 {
    int rval = 0;
@@ -1114,11 +1115,14 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
       return( get_a_line( obuff, obuff_size, cptr));
    if( !cptr->depth && strstr( buff, "<optical>"))
       cptr->depth = 1;
-   if( check_for_psv_header( cptr, buff))
+   rval = check_for_psv_header( cptr, buff);
+   if( rval > 0)
       {
       cptr->depth = 1;
       return( 0);
       }
+   if( rval < 0)        /* ADES_OUT_OF_MEMORY */
+      return( rval);
    if( cptr->psv_tags)
       {
       rval = process_psv_line( cptr, (obuff == buff ? temp_obuff : obuff), buff);
diff --git a/astcheck.cpp b/astcheck.cpp
index 5dbb37d..ff61688 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -654,6 +654,7 @@ int main( const int argc, const char **argv)
    bool show_header = true;
    const char *mpcorb_extracts = "";
    void *ades_context = init_ades2mpc( );
+   int ades_rval;
 
    if( argc < 2)
       {
@@ -760,10 +761,16 @@ int main( const int argc, const char **argv)
       return( -3);
       }
 
+   if( !ades_context)
+      {
+      fprintf( stderr, "Out of memory\n");
+      return( -4);
+      }
                /* Read astrometry lines and allocate memory for them : */
    ilines = (char **)malloc( (n_ilines + 1) * sizeof( char *));
    n_ilines = 0;
-   while( fgets_with_ades_xlation( buff, sizeof( buff), ades_context, ifile))
+   while( (ades_rval = fgets_with_ades_xlation( buff, sizeof( buff),
+                        ades_context, ifile)) != 0 && ades_rval != ADES_OUT_OF_MEMORY)
       if( !get_mpc_data( buff, &jd, &ra, &dec))
          {
          n_ilines++;
@@ -772,7 +779,7 @@ int main( const int argc, const char **argv)
          ilines[n_ilines - 1] = (char *)malloc( strlen( buff) + 1);
          strcpy( ilines[n_ilines - 1], buff);
          }
-   if( ferror( ifile))
+   if( ferror( ifile) || ades_rval == ADES_OUT_OF_MEMORY)
       {
       fprintf( stderr, "Error reading '%s'\n", argv[1]);
       return( -3);
diff --git a/mpc_func.h b/mpc_func.h
index 174570f..632bbad 100644
--- a/mpc_func.h
+++ b/mpc_func.h
@@ -70,6 +70,13 @@ int lat_alt_to_parallax( const double lat, const double ht_in_meters,
             const double minor_axis_in_meters);    /* mpc_code.cpp */
 int create_mpc_packed_desig( char *packed_desig, const char *obj_name);
 
+      /* fgets_with_ades_xlation( ) and xlate_ades2mpc( ) return one of
+      the following if something is wrong with the line they got : */
+#define ADES_CLOSING_UNOPENED_TAG         (-2)
+#define ADES_DEPTH_MAX                    (-3)
+#define ADES_MALFORMED_TAG                (-4)
+#define ADES_OUT_OF_MEMORY                (-5)
+
 void *init_ades2mpc( void);
 int xlate_ades2mpc( void *context, char *obuff, const char *buff);
 int xlate_ades2mpc_in_place( void *context, char *buff);
-- 
2.43.0


From 2fd7d355438ad0d53c6bd78c90122d86b1d0cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:49 +0000
Subject: [PATCH 38/84] fix: ades2mpc: XML header text on a line of its own was
 translated over and over

---
 ades2mpc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index d91eb30..ba8977c 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1224,8 +1224,10 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
          return rval;
       tptr = skip_whitespace( tptr);
       }
-   if( rval)
+   if( cptr->getting_lines)
       get_a_line( obuff, obuff_size, cptr);
+   else if( rval == 1)       /* header line;  it's been output,  and */
+      cptr->prev_line_passed_through = 1;       /* is not to be parsed again */
    if( orig_obuff)
       strlcpy_err( orig_obuff, temp_obuff, obuff_size);
    return( rval);
-- 
2.43.0


From 265dee1feb8ba22d3ff2f4e20fdbd0f5df7e59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:52 +0000
Subject: [PATCH 39/84] fix: ades2mpc: long times overwrote the RA columns

---
 ades2mpc.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index ba8977c..6f81b1e 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -375,27 +375,34 @@ static inline void pack_mpc_reference( char *packed, const char *ref)
       }
 }
 
+/* Converts,  e.g.,  '2020-01-02T03:04:05.123Z' to 'K200102:030405123'.  The
+returned length may exceed the 17 bytes available for the time/date,  but at
+most 17 bytes are output;  the rest would go into the RA columns. */
+
 static inline size_t move_fits_time( char *optr, const char *iptr)
 {
-   char *optr0 = optr;
+   size_t len = 0;
+   const size_t max_len = 17;
 
    if( iptr[4] == '-' && iptr[7] == '-' && iptr[10] == 'T'
                && iptr[13] == ':')
       {
       const int century = iptr[0] * 10 + iptr[1] - '0' * 11;
 
-      *optr++ = int_to_mutant_hex_char( century);
+      optr[len++] = int_to_mutant_hex_char( century);
       iptr += 2;
       while( *iptr && *iptr != 'Z')
          {
-         if( *iptr >= '0' && *iptr <= '9')
-            *optr++ = *iptr;
-         else if( *iptr == 'T')
-            *optr++ = ':';
+         if( (*iptr >= '0' && *iptr <= '9') || *iptr == 'T')
+            {
+            if( len < max_len)
+               optr[len] = (*iptr == 'T' ? ':' : *iptr);
+            len++;
+            }
          iptr++;
          }
       }
-   return( optr - optr0);
+   return( len);
 }
 
 static inline int place_value( char *optr, const char *iptr, const size_t ilen,
-- 
2.43.0


From b26f02915d7fde8f725f40491ab4b1196168967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:50 +0000
Subject: [PATCH 40/84] fix: ades2mpc: unknown or truncated PSV tags aborted
 the program

---
 ades2mpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 6f81b1e..9684391 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1064,7 +1064,7 @@ static int check_for_psv_header( ades2mpc_t *cptr, const char *buff)
       while( tptr[i] != '|' && tptr[i] > ' ')
          i++;
       cptr->psv_tags[n_psv_tags] = find_tag( tptr, i);
-      assert( cptr->psv_tags[n_psv_tags] > 0);
+               /* (unrecognized or truncated tags get -1 and are ignored) */
       n_psv_tags++;
       assert( tptr);
       tptr = strchr( tptr, '|');
-- 
2.43.0


From 6a126b1cbcd708fd58e53d5bcf5d54397fd86d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 41/84] fix: ades2mpc: integer observer positions aborted the
 program

---
 ades2mpc.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 9684391..1692f32 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -738,7 +738,12 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                }
             cptr->line2[sign_loc] = *name;
             tptr2 = strchr( name, '.');
-            assert( tptr2);
+            if( !tptr2)          /* integer;  supply the decimal point */
+               {
+               tptr2 = name + strlen( name);
+               strlcat_err( name, ".", sizeof( name));
+               nlen++;
+               }
             if( cptr->line2[32] == '1')
                {
                decimal_loc = sign_loc + 6;
@@ -772,6 +777,8 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
             char *tptr2 = strchr( name, '.');
             size_t loc;
 
+            if( !tptr2)          /* integer value */
+               tptr2 = name + strlen( name);
             if( itag == ADES_pos1)     /* East longitude */
                loc = 37 - (tptr2 - name);
             else if( itag == ADES_pos2)
-- 
2.43.0


From 4aa3e68af2fb1eb330cb5ab76a1055df9234191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:02 +0000
Subject: [PATCH 42/84] fix: ades2mpc: long latitudes and longitudes ran into
 the next field

---
 ades2mpc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 1692f32..694a3d9 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -775,12 +775,15 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          else               /* roving observer */
             {
             char *tptr2 = strchr( name, '.');
-            size_t loc;
+            size_t loc, end_loc = 61;
 
             if( !tptr2)          /* integer value */
                tptr2 = name + strlen( name);
             if( itag == ADES_pos1)     /* East longitude */
+               {
                loc = 37 - (tptr2 - name);
+               end_loc = 44;
+               }
             else if( itag == ADES_pos2)
                {           /* lat _must_ be signed,  w/sign in column 46 */
                if( *name == '-' || *name == '+')
@@ -793,9 +796,12 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                else
                   cptr->line2[45] = '+';
                loc = 48 - (tptr2 - name);
+               end_loc = 55;
                }
             else           /* altitude */
                loc = 61 - len;
+            if( loc + len > end_loc)      /* don't run into the next field */
+               len = end_loc - loc;
             memcpy( cptr->line2 + loc, name, len);
             }
          break;
-- 
2.43.0


From 671fefeca43efc5decfe42af29c9409a9ddc1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:09 +0000
Subject: [PATCH 43/84] fix: big_vsop: header kept from another data file

---
 big_vsop.cpp | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index 4f6affc..8aef827 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -91,14 +91,11 @@ the final series actually ends.)
    Since each header entry is a short int,  we're looking at 290 bytes.
 
    In a possibly misguided effort to save space (well,  it _did_ make
-lots of sense back in 1993!),  I store the header data needed for
-one particular planet in RAM at a given time.  If someone asks for
-a "new planet" (in big_vsop.cpp,  'if( curr_planet != planet)'),
-then we dig through 'big_vsop.bin' for the required header data
-and store it in a static array.  That requirement is for nineteen
+lots of sense back in 1993!),  I read only the header data needed for
+the planet in question.  That requirement is for nineteen
 short integers:  there are three values to be computed (lat/lon/r)
 and six series for each of them (1, t, t^2, ...t^5),  and we need
-to know where the last of them ends.  So the static array 'cache'
+to know where the last of them ends.  So the array 'cache'
 is dimensioned for 19 shorts.
 
    We then use that data stored in 'cache' to go forth and grab
@@ -121,8 +118,7 @@ in 'big_vsop.cpp' reads as
 int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
                       double *ovals, double t, const double prec0)
 {
-   static int16_t cache[19];
-   static int curr_planet = 99;
+   int16_t cache[19];
    int close_it = 0, value, error_code = 0;
 
    ovals[0] = ovals[1] = ovals[2] = 0.;
@@ -135,15 +131,11 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
       }
    if( !ifile)
       return( -1);                              /* ...then give up. */
-   if( curr_planet != planet)
-      {                             /* reload the cache */
-      curr_planet = 99;             /* cache is invalid until fully read */
-      if( fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET)
-               || fread( cache, sizeof( int16_t), 3 * 6 + 1, ifile) != 3 * 6 + 1)
-         error_code = -2;
-      else
-         curr_planet = planet;
-      }
+                  /* The header is read for each call;  it may differ if a */
+                  /* different file is given this time.                    */
+   if( fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET)
+            || fread( cache, sizeof( int16_t), 3 * 6 + 1, ifile) != 3 * 6 + 1)
+      error_code = -2;
 
    t /= 10.;         /* convert to julian millennia */
    for( value = 0; value < 3 && !error_code; value++)
-- 
2.43.0


From c675b3a84c748a8cc027376898dbe2f2f4755eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:23 +0000
Subject: [PATCH 44/84] fix: astcheck: results that could not be written were
 reported as success

---
 astcheck.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astcheck.cpp b/astcheck.cpp
index ff61688..4ad1a69 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -1094,5 +1094,10 @@ int main( const int argc, const char **argv)
                      /* the explanation of the output :           */
    if( n_lines_printed > 40 && show_header)
       show_astcheck_info( );
+   if( fflush( stdout) || ferror( stdout))
+      {
+      fprintf( stderr, "Error writing results\n");
+      return( -6);
+      }
    return( 0);
 }
-- 
2.43.0


From 4658dca8a825c46e55c89148d2b84a633ba846c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:33 +0000
Subject: [PATCH 45/84] fix: cgicheck: form choices hid all matches, and
 repeating one overran the argument list

---
 cgicheck.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cgicheck.cpp b/cgicheck.cpp
index 7896afd..b6f7ce2 100644
--- a/cgicheck.cpp
+++ b/cgicheck.cpp
@@ -128,14 +128,10 @@ int main( const int unused_argc, const char **unused_argv)
          if( verbosity)
             verbose = atoi( verbosity + 1) + 1;
          }
-      else if( !strcmp( field, "catalog"))
-         {
-         if( buff[0] == '1')              /* use MPCORB */
-            argv[argc++] = "-M";
-         }
-      else if( !strcmp( field, "uncertainties"))
-         argv[argc++] = "-e";
-      else if( !strcmp( field, "unn_only"))
+            /* The 'catalog' and 'uncertainties' choices are ignored:  there's */
+            /* only one catalog ('mpcorb.sof') now,  and astcheck's -M and -e  */
+            /* options have come to mean something else.                       */
+      else if( !strcmp( field, "unn_only") && argc == 2)
          argv[argc++] = "-u";
       }
    free( buff);
-- 
2.43.0


From 73254868ad5b821619fb35d28ad960580d6c057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:57 +0000
Subject: [PATCH 46/84] fix: parallax: a record without a line end at the end
 of the file aborted the program

---
 parallax.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallax.cpp b/parallax.cpp
index 932152a..e34ee06 100644
--- a/parallax.cpp
+++ b/parallax.cpp
@@ -81,8 +81,8 @@ static int get_mpc_obscode_data( mpc_code_t *loc, const char *mpc_code, int pass
             else if( -1 != err_code)
                printf( "%s\n", loc->name);
             tptr = strchr( buff, 10);
-            assert( tptr);       /* remove trailing LF */
-            *tptr = '\0';
+            if( tptr)            /* remove trailing LF */
+               *tptr = '\0';
 #ifdef _WIN32                /* MS is different. */
             loc->name = _strdup( loc->name);
 #else
-- 
2.43.0


From ae268ae85209232e2734dfd704c4feac63c326fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:57 +0000
Subject: [PATCH 47/84] fix: parallax: crashed if HOME was not set

---
 parallax.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parallax.cpp b/parallax.cpp
index e34ee06..ca8baac 100644
--- a/parallax.cpp
+++ b/parallax.cpp
@@ -53,7 +53,9 @@ static int get_mpc_obscode_data( mpc_code_t *loc, const char *mpc_code, int pass
 #ifdef CGI_VERSION
       strlcpy_error( buff, "/home/projectp/public_html/cgi_bin/fo/");
 #else
-      strlcpy_error( buff, getenv( "HOME"));
+      const char *home = getenv( "HOME");
+
+      strlcpy_error( buff, home ? home : "");
       strlcat_error( buff, "/.find_orb/");
 #endif
       strlcat_error( buff, ifilename);
@@ -126,7 +128,9 @@ static void show_location( const mpc_code_t *loc)
 #ifndef CGI_VERSION
       if( !ifile)
          {
-         strlcpy_error( buff, getenv( "HOME"));
+         const char *home = getenv( "HOME");
+
+         strlcpy_error( buff, home ? home : "");
          strlcat_error( buff, "/.find_orb/geo_rect.txt");
          ifile = fopen( buff, "rb");
          }
-- 
2.43.0


From a33207c45aafa62862fd7c41537583d33b1454bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:57 +0000
Subject: [PATCH 48/84] fix: parallax: unreadable records were shown as
 longitude and latitude zero

---
 parallax.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parallax.cpp b/parallax.cpp
index ca8baac..082a4f5 100644
--- a/parallax.cpp
+++ b/parallax.cpp
@@ -71,6 +71,8 @@ static int get_mpc_obscode_data( mpc_code_t *loc, const char *mpc_code, int pass
             const int err_code = get_mpc_code_info( loc, buff);
             char *tptr;
 
+            if( -1 == err_code)     /* can't make sense of this record */
+               continue;
             if( 3 == err_code)
                {
                if( loc->lon > PI)
@@ -80,7 +82,7 @@ static int get_mpc_obscode_data( mpc_code_t *loc, const char *mpc_code, int pass
                      loc->lat * 180. / PI,
                      loc->alt, loc->name, buff);
                }
-            else if( -1 != err_code)
+            else
                printf( "%s\n", loc->name);
             tptr = strchr( buff, 10);
             if( tptr)            /* remove trailing LF */
-- 
2.43.0


From e40c8af5576cf1cbc020c6f1634fab72ed8271e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:57 +0000
Subject: [PATCH 49/84] fix: get_mpc_code_info: rovers at longitude or latitude
 zero had no parallax constants

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5a3d6c0..8441bf9 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -342,7 +342,7 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
                   cinfo->lat = cinfo->lon = cinfo->alt = 0.;
                }
             cinfo->planet = rval;
-            if( cinfo->lat && cinfo->lon)   /* i.e.,  topocentric */
+            if( cinfo->lat || cinfo->lon)   /* i.e.,  topocentric */
                _set_parallax_constants( cinfo);
             }
          }
-- 
2.43.0


From 14235d960f6f1df92859ab979c17ef15964c568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:57 +0000
Subject: [PATCH 50/84] fix: parallax: an error reading one list of
 observatories was taken as its end

---
 parallax.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parallax.cpp b/parallax.cpp
index 082a4f5..3a33984 100644
--- a/parallax.cpp
+++ b/parallax.cpp
@@ -94,6 +94,11 @@ static int get_mpc_obscode_data( mpc_code_t *loc, const char *mpc_code, int pass
 #endif
             rval = 0;
             }
+      if( rval && ferror( ifile))
+         {
+         perror( ifilename);
+         exit( -1);
+         }
       fclose( ifile);
       pass++;
       }
-- 
2.43.0


From de128f824ffead07de562fd2ea68938fdbd710a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:37 +0000
Subject: [PATCH 51/84] fix: parallax: no answer on the web for observatories
 on the equator

---
 parallax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallax.cpp b/parallax.cpp
index 3a33984..c6476e6 100644
--- a/parallax.cpp
+++ b/parallax.cpp
@@ -365,7 +365,7 @@ int main( void)
       loc.rho_cos_phi = sqrt( xyz[0] * xyz[0] + xyz[1] * xyz[1]);
       loc.rho_sin_phi = xyz[2];
       }
-   if( loc.rho_sin_phi && loc.rho_cos_phi)
+   if( loc.rho_sin_phi || loc.rho_cos_phi)
       {
       if( fabs( loc.rho_sin_phi) > 100. || fabs( loc.rho_cos_phi) > 100.)
          {           /* assume meters were entered */
-- 
2.43.0


From 435d8867c085ecc269782c46863942a1e8891b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:52 +0000
Subject: [PATCH 52/84] fix: add_off: exposures less than a second apart got
 the same position

---
 add_off.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/add_off.c b/add_off.c
index 0194b3e..55a54cd 100644
--- a/add_off.c
+++ b/add_off.c
@@ -40,7 +40,10 @@ typedef struct
    char mpc_code[4];
 } offset_t;
 
-const double tolerance = 1e-5;
+         /* Times are sent to Horizons to a microday,  so the times in its  */
+         /* answer are within half a microday (plus roundoff) of ours.      */
+         /* Anything looser would mix up exposures made in quick succession. */
+const double tolerance = 5.05e-7;
 int verbose = 0;
 int n_positions_set = 0, n_positions_failed = 0;
 
-- 
2.43.0


From 011b415a96dde8f931dc447910d6e439ca0d1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:39 +0000
Subject: [PATCH 53/84] fix: add_off: positions given in ADES were dropped when
 no new one was found

---
 add_off.c | 62 ++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/add_off.c b/add_off.c
index 55a54cd..61b6035 100644
--- a/add_off.c
+++ b/add_off.c
@@ -362,8 +362,9 @@ static char *ades_posvel( char *buff, const double value)
 
    /* When processing ADES observations,  they may already contain
    spacecraft offsets with the '<pos#>',  '<vel#>', <ctr>,  etc.  We
-   don't pass those through to the output,  since they're (we hope)
-   getting replaced. */
+   don't pass those through to the output if they're getting replaced.
+   (They won't be if we got no offset for the observation,  and positions
+   of roving observers on the ground aren't ours to replace.) */
 
 static bool ades_posn_tag( const char *buff)
 {
@@ -371,6 +372,46 @@ static bool ades_posn_tag( const char *buff)
                || strstr( buff, "<ctr>") || strstr( buff, "<sys>"));
 }
 
+static int find_offset( const offset_t *offsets, const int n_offsets,
+                           const char *mpc_code, const double jd)
+{
+   int i;
+
+   for( i = 0; i < n_offsets; i++)
+      if( !memcmp( mpc_code, offsets[i].mpc_code, 3)
+                       && fabs( jd - offsets[i].jd) < tolerance)
+         return( i);
+   return( -1);
+}
+
+   /* Looks ahead,  from a position tag within an ADES observation,  to
+   the time of that observation,  to see if we have a new offset for it. */
+
+static bool ades_posn_replaced( FILE *ifile, const offset_t *offsets,
+                                       const int n_offsets)
+{
+   const long file_loc = ftell( ifile);
+   char buff[300], saved_code[sizeof( mpc_code_from_ades)];
+   bool rval = false, done = false;
+
+   memcpy( saved_code, mpc_code_from_ades, sizeof( saved_code));
+   while( !done && fgets( buff, sizeof( buff), ifile))
+      {
+      const double jd = get_sat_obs_jd( buff);
+
+      if( jd > 0. && *mpc_code_from_ades)
+         {
+         done = true;
+         rval = (find_offset( offsets, n_offsets, mpc_code_from_ades, jd) >= 0);
+         }
+      else if( strstr( buff, "</optical>"))
+         done = true;
+      }
+   memcpy( mpc_code_from_ades, saved_code, sizeof( saved_code));
+   fseek( ifile, file_loc, SEEK_SET);
+   return( rval);
+}
+
 bool show_offsets_from_original = false;
 
 /* The following reads the input file and looks for 80-column obs from
@@ -419,6 +460,7 @@ int process_file( const char *filename, FILE *ofile)
    offset_t *offsets = NULL;
    int i, n_offsets = 0, rval = 0;
    bool ades_found = false;
+   int posn_replaced = -1;       /* not yet known */
 
    if( !ifile)
       {
@@ -483,19 +525,23 @@ int process_file( const char *filename, FILE *ofile)
    while( fgets( buff, sizeof( buff), ifile))
       if( (jd = get_sat_obs_jd( buff)) <= 0.)    /* not an observation;  */
          {                                       /* just pass it through */
-         if( !ades_posn_tag( buff))          /* unless it's an ADES posn tag */
+         bool is_old_posn = ades_posn_tag( buff);   /* unless it's an ADES */
+                                          /* posn tag that we're replacing */
+         if( strstr( buff, "<optical>") || strstr( buff, "</optical>"))
+            posn_replaced = -1;
+         if( is_old_posn && posn_replaced < 0)
+            posn_replaced = ades_posn_replaced( ifile, offsets, n_offsets);
+         if( !is_old_posn || !posn_replaced)
             fprintf( ofile, "%s", buff);
          }
       else
          {
-         int idx = -1;
          const bool is_offset_line = (buff[14] == 's' && !*mpc_code_from_ades);
          char *mpc_code = (*mpc_code_from_ades ? mpc_code_from_ades : buff + 77);
+         const int idx = find_offset( offsets, n_offsets, mpc_code, jd);
 
-         for( i = 0; idx < 0 && i < n_offsets; i++)
-            if( !memcmp( mpc_code, offsets[i].mpc_code, 3)
-                       && fabs( jd - offsets[i].jd) < tolerance)
-               idx = i;
+         if( *mpc_code_from_ades)
+            posn_replaced = (idx >= 0);
          if( idx >= 0 && is_offset_line)
             continue;      /* replaced by the new offset */
          if( idx >= 0)
-- 
2.43.0


From b18b63c45a16e21f885c6b494429586e39cafdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:59 +0000
Subject: [PATCH 54/84] fix: point_to_ellipse: distance at the poles was from
 the equatorial radius

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 8441bf9..8e09b51 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -167,7 +167,7 @@ double point_to_ellipse( const double a, const double b,
       {
       lat = PI / 2.;
       if( dist)
-         *dist = fy - a;
+         *dist = fy - b;
       }
    else
       {
-- 
2.43.0


From f520c33bf0db880d2d1b696295d41b9372aca850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:38 +0000
Subject: [PATCH 55/84] fix: astcheck: objects moving across RA 180 could be
 missed

---
 astcheck.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astcheck.cpp b/astcheck.cpp
index 4ad1a69..e91875f 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -439,6 +439,10 @@ static int is_between( int bound1, int bound2, int x, int tolerance)
 {
    int rval;
 
+   while( bound2 - bound1 > 32768)     /* bounds may lie on either side of */
+      bound2 -= 65536;                 /* the discontinuity */
+   while( bound2 - bound1 < -32768)
+      bound2 += 65536;
    bound1 -= x;
    bound2 -= x;
    while( bound1 + bound2 < -65536)
-- 
2.43.0


From d9e57decf37fbcb2a13e7e3f215af10a831e2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:40 +0000
Subject: [PATCH 56/84] fix: astcheck: matches far from the celestial equator
 could be missed

---
 astcheck.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index e91875f..5a27576 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -817,6 +817,11 @@ int main( const int argc, const char **argv)
          double jd2;
          const int16_t tolerance = (int16_t)
                           ( tolerance_in_arcsec * 65536 / (360. * 3600.));
+               /* same tolerance on the sky is a wider range in RA,  except */
+               /* on the equator;  near the poles,  it's any RA             */
+         const double ra_tolerance = (double)( tolerance + 5) / fabs( cos_dec);
+         const int int_ra_tolerance = (ra_tolerance < 65536. ?
+                                  (int)ceil( ra_tolerance) : 65536);
          char tbuff[300];
          int n_results = 0;
          int n_checked = 0;
@@ -919,12 +924,10 @@ int main( const int argc, const char **argv)
          n_lines_printed++;
          for( i = 0; i < n_asteroids; i++)
             {
-            const int16_t tolerance2 = tolerance;
-
             assert( day_data[0]);
             assert( day_data[1]);
-            if( is_between( day_data[0][i].ra, day_data[1][i].ra, int_ra, tolerance2 + 5))
-               if( is_between( day_data[0][i].dec, day_data[1][i].dec, int_dec, tolerance2 + 5))
+            if( is_between( day_data[0][i].ra, day_data[1][i].ra, int_ra, int_ra_tolerance))
+               if( is_between( day_data[0][i].dec, day_data[1][i].dec, int_dec, tolerance + 5))
                   {
                   ELEMENTS class_elem;
                   double ra1, dec1, mag;
-- 
2.43.0


From 3b7498a6aafaa59c564806bd829820b78e05fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:41 +0000
Subject: [PATCH 57/84] fix: astcheck: motion of objects crossing RA 0 was
 ignored

---
 astcheck.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 5a27576..c372960 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -501,10 +501,10 @@ static double compute_motion( const char **lines, const int n_lines,
 
          if( !get_mpc_data( lines[i], &jd1, &ra1, &dec1)
                 && fabs( jd1 - jd) < 10.   /* within ten days... */
-                && fabs( ra1 - ra) < five_degrees
+                && fabs( centralize_angle( ra1 - ra)) < five_degrees
                 && fabs( dec1 - dec) < five_degrees)
             {
-            *ra_motion = (ra1 - ra) / (jd1 - jd);
+            *ra_motion = centralize_angle( ra1 - ra) / (jd1 - jd);
             *dec_motion = (dec1 - dec) / (jd1 - jd);
             *ra_motion *= cos( dec);
                      /* cvt radians/day to arcsec/hr: */
-- 
2.43.0


From a23eaff4d87ef9aa063e611fdc3e347d65e9a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 58/84] fix: cgicheck: a search that failed was shown as one
 without matches

---
 cgicheck.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cgicheck.cpp b/cgicheck.cpp
index b6f7ce2..aa8f508 100644
--- a/cgicheck.cpp
+++ b/cgicheck.cpp
@@ -154,7 +154,8 @@ int main( const int unused_argc, const char **unused_argv)
    snprintf_err( field, sizeof( field), "-r%.2f", search_radius * 3600.);  /* cvt degrees to arcsec */
    argv[argc++] = field;
    argv[argc] = NULL;
-   astcheck_main( argc, argv);
+   if( astcheck_main( argc, argv))
+      printf( "<b> The search failed</b>\n");
    remove( temp_obs_filename);
    printf( "</pre> </body> </html>");
    return( 0);
-- 
2.43.0


From c51e655f4ef2442a5fac9670deca12ac30d30afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 59/84] fix: mms: header counted one record too few, or the end
 was a step too late

---
 mms.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mms.cpp b/mms.cpp
index 26f0636..84fa190 100644
--- a/mms.cpp
+++ b/mms.cpp
@@ -64,7 +64,7 @@ int main( const int argc, const char **argv)
    double jd_start = 0.;
    char buff[300];
    FILE *ifile, *ofile = stdout;
-   int n_lines = 0, out_freq = 72, i;
+   int n_lines = 0, n_output, out_freq = 72, i;
    int mms_number = 0;
 
    if( argc < 2)
@@ -121,10 +121,11 @@ int main( const int argc, const char **argv)
       error_exit( "Error reading input file\n");
    assert( mms_number >= '1' && mms_number <= '4');
    fseek( ifile, 0L, SEEK_SET);
+   n_output = (n_lines + out_freq - 1) / out_freq;
                      /* '0,149597870.7,86400' = coords are J2000 equatorial,
                         in km and km/s. */
    fprintf( ofile, "%.6f %.6f %d 0,149597870.7,86400 (500) Geocentric: MMS%c = 2015-011%c\n",
-            jd_start, (double)out_freq / 720., n_lines / out_freq,
+            jd_start, (double)out_freq / 720., n_output,
             mms_number, mms_number + 'A' - '1');
 
    n_lines = 0;
@@ -147,7 +148,7 @@ int main( const int argc, const char **argv)
    full_ctime( buff, jd_start, CALENDAR_JULIAN_GREGORIAN);
    fprintf( ofile, "Ephemeris start: %s\n", buff);
 
-   full_ctime( buff, jd_start + (n_lines / out_freq) * out_freq / 720., CALENDAR_JULIAN_GREGORIAN);
+   full_ctime( buff, jd_start + (n_output - 1) * out_freq / 720., CALENDAR_JULIAN_GREGORIAN);
    fprintf( ofile, "Ephemeris end:   %s\n", buff);
    if( fflush( ofile) || ferror( ofile))
       error_exit( "Error writing output file\n");
-- 
2.43.0


From b59329a53ed56fb95b354bb5e244eabd7589ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 60/84] fix: themis: record count in the header was that of
 whole days, not of the records

---
 themis.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/themis.cpp b/themis.cpp
index 39417ce..e410e76 100644
--- a/themis.cpp
+++ b/themis.cpp
@@ -41,6 +41,12 @@ static const char *get_arg( const int argc, const char **argv, const int idx)
       return( argv[idx + 1]);
 }
 
+static bool is_state_vector( const char *buff)
+{
+   return( buff[4] == '-' && buff[7] == '-'
+               && buff[10] == 'T' && buff[13] == ':');
+}
+
          /* JD 2454101.5 = 2007 Jan 1.  The THEMIS satellites were launched */
          /* early that year.  We shouldn't see ephems before this date.    */
 #define MIN_JD 2454101.5
@@ -50,7 +56,7 @@ int main( const int argc, const char **argv)
    double jd_start = 0., jd_end = 0.;
    char buff[200];
    FILE *ifile, *ofile = stdout;
-   int output_line = 0, norad_id = 0, out_freq = 144, i;
+   int output_line = 0, n_lines = 0, norad_id = 0, out_freq = 144, i;
 
    if( argc < 2)
       error_exit( NULL);
@@ -88,6 +94,12 @@ int main( const int argc, const char **argv)
                error_exit( NULL);
             }
          }
+   while( fgets( buff, sizeof( buff), ifile))
+      if( is_state_vector( buff))
+         n_lines++;
+   if( ferror( ifile))
+      error_exit( "Error reading input file\n");
+   fseek( ifile, 0L, SEEK_SET);
    while( fgets( buff, sizeof( buff), ifile))
       {
       if( !memcmp( buff, "OBJECT_ID", 9))
@@ -96,7 +108,7 @@ int main( const int argc, const char **argv)
          jd_start = get_time_from_string( 0., buff + 23, FULL_CTIME_YMD, NULL);
       if( !memcmp( buff, "STOP_TIME", 9))
          jd_end   = get_time_from_string( 0., buff + 23, FULL_CTIME_YMD, NULL);
-      if( buff[4] == '-' && buff[7] == '-' && buff[10] == 'T' && buff[13] == ':')
+      if( is_state_vector( buff))
          {
          if( !output_line)
             {
@@ -115,7 +127,7 @@ int main( const int argc, const char **argv)
 
             fprintf( ofile, "%f %f %d -1,149597870.7,86400 (500) Geocentric: ",
                            jd_start, (double)out_freq / 1440.,
-                           (int)( jd_end - jd_start) * 1440 / out_freq);
+                           (n_lines + out_freq - 1) / out_freq);
             fprintf( ofile, "NORAD %d = 2007-004%c = THEMIS %c\n",
                            norad_id, intl_letter, intl_letter);
             }
-- 
2.43.0


From 5bcc77dbf932a1af50b828e5787c840b863449ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 61/84] fix: themis: a short line after a record repeated it

---
 themis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/themis.cpp b/themis.cpp
index e410e76..be821cf 100644
--- a/themis.cpp
+++ b/themis.cpp
@@ -43,7 +43,7 @@ static const char *get_arg( const int argc, const char **argv, const int idx)
 
 static bool is_state_vector( const char *buff)
 {
-   return( buff[4] == '-' && buff[7] == '-'
+   return( strlen( buff) > 24 && buff[4] == '-' && buff[7] == '-'
                && buff[10] == 'T' && buff[13] == ':');
 }
 
-- 
2.43.0


From 19905efda222a3fbac3a283ec09d51bb2ee9d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 62/84] fix: astcheck sorts by separation also when wide
 offsets shift the columns

---
 astcheck.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index c372960..7104aff 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -630,6 +630,17 @@ static const char *get_arg( const int argc, const char **argv, const int idx)
 int snprintf( char *string, const size_t max_len, const char *format, ...);
 #endif
 
+/* The distance shown on a line of results.  Offsets of -100000 arcseconds or
+more push it to the right of its usual column. */
+
+static double result_dist( const char *result)
+{
+   double dist = 0.;
+
+   sscanf( result + 26, "%*f %*f %lf", &dist);
+   return( dist);
+}
+
 #ifdef CGI_VERSION
 int astcheck_main( const int argc, const char **argv)
 #else
@@ -1045,7 +1056,7 @@ int main( const int argc, const char **argv)
                            j = n_results;
                         else
                            for( j = 0; j < n_results
-                                     && atof( results[j] + 39) < dist; j++)
+                                     && result_dist( results[j]) < dist; j++)
                               ;
                         if( n_results > results_array_size - 2)
                            {
-- 
2.43.0


From de802ab3635fbd5e7ddb5473bffea33dae709e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 63/84] fix: unpack_unaligned_mpc_desig always ends the
 designation it returns

---
 unpack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpack.cpp b/unpack.cpp
index ddf3972..65ab695 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -377,6 +377,7 @@ int unpack_unaligned_mpc_desig( char *obuff, const char *packed)
    if( len > 12)
       {
       memcpy( obuff, packed, 12);
+      obuff[12] = '\0';
       return( OBJ_DESIG_OTHER);
       }
    memset( aligned, ' ', 12);
-- 
2.43.0


From be12b2b6508685fdebf5d69381742e9b21185b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 64/84] fix: xxx2rov needs a place, keeps the last line and
 reports I/O failures

---
 xxx2rov.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xxx2rov.c b/xxx2rov.c
index 0aceb52..3dfd329 100644
--- a/xxx2rov.c
+++ b/xxx2rov.c
@@ -40,11 +40,16 @@ int main( const int argc, const char **argv)
          }
       else if( !memcmp( buff, "COD XXX", 7))
          memcpy( buff + 4, "247", 3);
-      else if( strlen( buff) > 80 && buff[80] < ' ' && !memcmp( buff + 77, "XXX", 3))
+      else if( strlen( buff) >= 80 && buff[80] < ' ' && !memcmp( buff + 77, "XXX", 3))
          {
+         if( !cinfo.code[0])
+            {
+            fprintf( stderr, "ERROR : no lat/lon/alt line before\n%s\n", buff);
+            exit( -1);
+            }
          memcpy( buff + 77, "247", 3);
          buff[14] = 'V';
-         printf( "%s", buff);
+         printf( "%s%s", buff, (buff[80] ? "" : "\n"));
          buff[14] = 'v';
          sprintf( buff + 32, "1 %9.5f  %+9.5f   %4.0f",
                      cinfo.lon * 180. / PI, cinfo.lat * 180. / PI, cinfo.alt);
@@ -52,6 +57,11 @@ int main( const int argc, const char **argv)
          }
       printf( "%s", buff);
       }
+   if( ferror( ifile) || fflush( stdout) || ferror( stdout))
+      {
+      fprintf( stderr, "ERROR : input or output failed\n");
+      exit( -1);
+      }
    fclose( ifile);
    return( 0);
 }
-- 
2.43.0


From 0f5e8b6953521207c46ec630b689245dd8a62832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:13 +0000
Subject: [PATCH 65/84] fix: the station lister reports files it can't read and
 output it can't write

---
 mpc_code.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 8e09b51..403ba83 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -832,7 +832,11 @@ int main( const int argc, const char **argv)
                FILE *hdr_ifile = fopen_ext( argv[0], "mpc_hdr.htm", "rb");
                bool showing_lines = true;
 
-               assert( hdr_ifile);
+               if( !hdr_ifile)
+                  {
+                  fprintf( stderr, "'mpc_hdr.htm' not opened\n");
+                  return( -1);
+                  }
                google_map_links = true;
                google_offset = 3;
                while( fgets( buff, sizeof( buff), hdr_ifile))
@@ -846,6 +850,12 @@ int main( const int argc, const char **argv)
                      }
                   else if( showing_lines)
                      printf( "%s", buff);
+               if( ferror( hdr_ifile))
+                  {
+                  fprintf( stderr, "Couldn't read all of 'mpc_hdr.htm'\n");
+                  fclose( hdr_ifile);
+                  return( -1);
+                  }
                fclose( hdr_ifile);
                }
                break;
@@ -960,6 +970,12 @@ int main( const int argc, const char **argv)
          }
       else if( dump_comments)    /* dump everything,  including */
          printf( "%s", buff);    /* comments from input file */
+   if( ferror( ifile))
+      {
+      fprintf( stderr, "Couldn't read all of '%s'\n", ifilename);
+      fclose( ifile);
+      return( -1);
+      }
    fclose( ifile);
    if( !make_kml)
       printf( "%s\n", header + google_offset);
@@ -967,6 +983,11 @@ int main( const int argc, const char **argv)
       printf( "</Folder>\n</kml>\n");
    if( google_map_links)
       printf( "</pre></body></html>\n");
+   if( fflush( stdout) || ferror( stdout))
+      {
+      fprintf( stderr, "Couldn't write the list\n");
+      return( -1);
+      }
    return( 0);
 }
 #endif
-- 
2.43.0


From 2c9cae9705a29b094bda55718d035924136c565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 66/84] fix: astephem's phase correction is not divided by ln
 10

---
 astephem.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index e6b05c5..65c866a 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -39,7 +39,6 @@ J2000.0 position from EART2000.CPP are also used.
 #define ASTORB_RECORD_LEN 268
 
 #define PI 3.1415926535897932384626433832795028841971693993751058209749445923
-#define LOG_10 2.3025850929940456840179914546843642076011014886287729760333279009675726
 
 int get_earth_loc( const double t_millennia, double *results);
 
@@ -56,19 +55,17 @@ static double calc_obs_magnitude( ELEMENTS *elem, const double obj_sun,
    double magnitude;
 
    if( !elem->is_asteroid)
-      magnitude = elem->slope_param * log( obj_sun);
+      magnitude = elem->slope_param * log10( obj_sun);
    else
       {
       const double cos_phase_ang =
                   law_of_cosines( obj_sun, obj_earth, earth_sun);
       const double phase_ang = acose( cos_phase_ang);
 
-      magnitude = 5. * log( obj_sun) + phase_angle_correction_to_magnitude(
+      magnitude = 5. * log10( obj_sun) + phase_angle_correction_to_magnitude(
                                    phase_ang, elem->slope_param);
       }
-   magnitude += 5. * log( obj_earth);
-   magnitude /= LOG_10;      /* cvt from natural logs to common (base 10) */
-   magnitude += elem->abs_mag;
+   magnitude += 5. * log10( obj_earth) + elem->abs_mag;
    return( magnitude);
 }
 
-- 
2.43.0


From 494a63566488901eb47cc2244d74edeff61ae542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 67/84] fix: astephem finds the object asked for, or says that
 it is not there

---
 astephem.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index 65c866a..b68e99c 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -78,7 +78,7 @@ static int find_astorb_rec( FILE *ifile, char *obj_name, char *buff)
       if( obj_name[n_bytes] == '\0')
          {
          fseek( ifile, (long)(ast_number - 1) * ASTORB_RECORD_LEN, SEEK_SET);
-         return( fgets( buff, 300, ifile) ? 0 : -1);
+         return( fgets( buff, 300, ifile) && atoi( buff) == ast_number ? 0 : -1);
          }
    fseek( ifile, 0L, SEEK_END);
    n_recs = ftell( ifile) / ASTORB_RECORD_LEN;
@@ -94,9 +94,12 @@ static int find_astorb_rec( FILE *ifile, char *obj_name, char *buff)
          }
    fseek( ifile, loc * ASTORB_RECORD_LEN, SEEK_SET);
    strcat( obj_name, " ");
-   while( memcmp( buff + 7, obj_name, strlen( obj_name)))
+   do
+      {
       if( !fgets( buff, 300, ifile))
          return( -1);
+      }
+      while( memcmp( buff + 7, obj_name, strlen( obj_name)));
   return( 0);
 }
 
-- 
2.43.0


From f5096be40f719ada454af10960efd52741300477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 68/84] fix: astephem keeps the sign of small declinations and
 reports failed writes

---
 astephem.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index b68e99c..ef54233 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -178,6 +178,7 @@ int main( const int argc, const char **argv)
    for( i = 0; i < n_intervals; i++, t += dt)
       {
       double mag, r1, r2, r3, elong;
+      char dec_degrees[8];
 
                      /* The following function is in EART2000.CPP. */
       get_earth_loc( (t - 2451545.0) / 365250., earth_loc);
@@ -224,17 +225,25 @@ int main( const int argc, const char **argv)
       if( ra < 0.) ra += 360.;
       dec = asin( z / dist) * 180. / PI;
       ra_sec_tenths = (long)(ra * 36000. / 15.);
+                     /* (int)dec would lose the sign between -1 and 0 degrees */
+      snprintf_err( dec_degrees, sizeof( dec_degrees), "%s%d",
+                              (dec < 0. ? "-" : ""), (int)fabs( dec));
                      /* ...and show me the data:  */
       snprintf_err( tbuff, sizeof( tbuff),
-              "%2d %s %4ld:  %2ldh%02ldm%02ld.%lds   %3d %5.2f'  %6.3f  %6.3f  %4.1f %4.1f\n",
+              "%2d %s %4ld:  %2ldh%02ldm%02ld.%lds   %3s %5.2f'  %6.3f  %6.3f  %4.1f %4.1f\n",
               day, set_month_name( month, NULL), year,
               ra_sec_tenths / 36000L, (ra_sec_tenths / 600L) % 60L,
               (ra_sec_tenths / 10L) % 60L, ra_sec_tenths % 10L,
-              (int)dec, 60. * (fabs( dec) - floor( fabs( dec))), dist,
+              dec_degrees, 60. * (fabs( dec) - floor( fabs( dec))), dist,
               asteroid_loc[3], mag, elong * 180. / PI);
       if( i % 24 == 0)
          printf( "                  RA             dec     dist    radius  mag\n");
       printf( "%s", tbuff);
       }
+   if( fflush( stdout) || ferror( stdout))
+      {
+      fprintf( stderr, "Couldn't write the ephemeris\n");
+      return( -3);
+      }
    return( 0);
 }
-- 
2.43.0


From 73badde612f0a952152f38c34669a8dd350170a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 69/84] fix: an extended provisional designation with a bad
 year or number leaves nothing undefined

---
 unpack.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 65ab695..d02be1f 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -88,8 +88,12 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
       const int desig_num = get_mutant_hex_value( ibuff + 3, 4);
 
       if( year < 0 || desig_num < 0)
+         {
+         if( obuff)
+            *obuff = '\0';
          rval = -1;
-      else
+         }
+      else if( obuff)
          {
          char letter = 'A' + desig_num % 25;
 
-- 
2.43.0


From dbdad478f536ce0b05057e58d2ba55cd93f40eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 70/84] fix: unpack_mpc_desig has room for the longest
 designations it can make

---
 unpack.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index d02be1f..666f20c 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -173,7 +173,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    size_t i;
    int mask = 1, digit_mask = 0, space_mask = 0, digit;
    char provisional_desig[40];
-   const size_t obuff_size = 16;
+   const size_t obuff_size = 26;    /* room for, e.g., "(619999) = 2061 AB591673" */
 
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
@@ -255,7 +255,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             {
             snprintf_err( obuff, 11, "(%d)", num + 620000);
             if( *provisional_desig)
-               snprintf_append( obuff, 24, " %s", provisional_desig);
+               snprintf_append( obuff, obuff_size, " %s", provisional_desig);
             }
          return( OBJ_DESIG_ASTEROID_NUMBERED);
          }
@@ -283,7 +283,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
                   /* and the provisional desig.  We'd like to decipher this */
                   /* as (for the example) "304330 = 2006 SX217".            */
                if( *provisional_desig)
-                  snprintf_append( obuff, 23, " = %s", provisional_desig);
+                  snprintf_append( obuff, obuff_size, " = %s", provisional_desig);
                }
             }
          }
-- 
2.43.0


From c1623ab4e08b9a6aac557073cea5c670dcdcbe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:03 +0000
Subject: [PATCH 71/84] fix: phases: report unopened or unwritten outputs and
 lack of memory; years before -999 lost a digit of the minutes

---
 phases.cpp | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/phases.cpp b/phases.cpp
index f3dbffc..0a92239 100644
--- a/phases.cpp
+++ b/phases.cpp
@@ -69,6 +69,19 @@ static double approx_solar_dist( double t)
    return( rval);
 }
 
+static FILE *open_output( const char *filename)
+{
+   FILE *rval = fopen( filename, "wb");
+
+   if( !rval)
+      {
+      fprintf( stderr, "Couldn't open '%s'", filename);
+      perror( " ");
+      exit( -3);
+      }
+   return( rval);
+}
+
 int main( const int argc, const char **argv)
 {
    const double j2000 = 2451545.;    /* 1.5 Jan 2000 = JD 2451545 */
@@ -90,6 +103,11 @@ int main( const int argc, const char **argv)
       }
    vsop_tbuff = (char *)malloc( VSOP_CHUNK);
    vsop_data = (char *)malloc( VSOP_CHUNK * 22U);
+   if( !vsop_tbuff || !vsop_data)
+      {
+      fprintf( stderr, "Out of memory\n");
+      return( -4);
+      }
    for( i = 0; i < 22; i++)
       {
       if( !fread( vsop_tbuff, VSOP_CHUNK, 1, vsop_file))
@@ -118,10 +136,10 @@ int main( const int argc, const char **argv)
                verbose = 1;
                break;
             case 'l': case 'L':
-               log_file = fopen( argv[i] + 2, "wb");
+               log_file = open_output( argv[i] + 2);
                break;
             case 'd': case 'D':
-               data_file = fopen( argv[i] + 2, "wb");
+               data_file = open_output( argv[i] + 2);
                break;
             case 'm': case 'M':
                max_date = (atof( argv[i] + 2) - 2000.) * 365.25 + j2000;
@@ -250,7 +268,7 @@ int main( const int argc, const char **argv)
             else
                fprintf( log_file, "%s: %s\n", phase_name[i], buff);
             }
-         buff[17] = '\0';        /* trim the seconds */
+         buff[strlen( buff) - 3] = '\0';        /* trim the seconds */
          if( !chinese_calendar)
             {
             printf( "%s  ", buff);
@@ -324,9 +342,21 @@ int main( const int argc, const char **argv)
             }
          t0 += 365.25 / 12.;
          }
+   i = (fflush( stdout) || ferror( stdout));
    if( data_file)
-      fclose( data_file);
+      {
+      i |= ferror( data_file);
+      i |= fclose( data_file);
+      }
    if( log_file)
-      fclose( log_file);
+      {
+      i |= ferror( log_file);
+      i |= fclose( log_file);
+      }
+   if( i)
+      {
+      fprintf( stderr, "Error writing output;  it's incomplete\n");
+      return( -5);
+      }
    return( 0);
 }
-- 
2.43.0


From 4fb47e83c7aa634c9c48e0dc4e958cf0a8c2332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:03 +0000
Subject: [PATCH 72/84] fix: chinese: fail on malformed or unreadable input and
 unwritten output; right month lengths in years with a leap 12th month

---
 chinese.cpp | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/chinese.cpp b/chinese.cpp
index f3e7293..8495a45 100644
--- a/chinese.cpp
+++ b/chinese.cpp
@@ -88,7 +88,7 @@ static void dump_data( char *text[], const int n_found)
    if( n_found < 24 || n_found > 25)
       {
       printf( "n_found = %d\n", n_found);
-      exit( 0);
+      exit( -2);
       }
    if( !year0)               /* Remember,  we get the last month of the */
       year0 = (short)( year + 1);    /* previous year... skip it */
@@ -101,13 +101,15 @@ static void dump_data( char *text[], const int n_found)
          const long jd = atol( text[i]);
          const int prev_month = (month + 10) % 12 + 1;
          const int prev_year = year - (prev_month == 12);
+         const int is_intercalary = (n_found == 25 && !intercalary_month
+                                    && text[i + 1][8] == ' ');
 
          if( jd - prev_jd == 30L)
             if( prev_year >= year0 && prev_year < year0 + n_years)
                ydata[prev_year - year0].mask |= bitmask;
          bitmask <<= 1;
 
-         if( month == 1 && intercalary_month != 1)
+         if( month == 1 && !is_intercalary)
             {           /* it's the for-real first month of the year: */
             const long offset = jd - (year * 365L + year / 4L + 757861L);
 
@@ -116,7 +118,7 @@ static void dump_data( char *text[], const int n_found)
                ydata[year - year0].offset = (unsigned char)offset;
             }
 
-         if( n_found == 25 && !intercalary_month && text[i + 1][8] == ' ')
+         if( is_intercalary)
             {
             snprintf_err( text[i] + 31, 12, "%4di%5d\n", prev_month, prev_year);
             intercalary_month = prev_month;
@@ -141,6 +143,15 @@ static void dump_data( char *text[], const int n_found)
       }
 }
 
+static void check_alloc( const void *ptr)
+{
+   if( !ptr)
+      {
+      fprintf( stderr, "Out of memory\n");
+      exit( -6);
+      }
+}
+
 int main( const int argc, const char **argv)
 {
    char *buff, *text[30], ibuff[60];
@@ -156,9 +167,11 @@ int main( const int argc, const char **argv)
       {
       n_years = (short)atoi( argv[2]);
       ydata = (YEAR_DATA *)calloc( n_years, sizeof( YEAR_DATA));
+      check_alloc( ydata);
       printf( "Looking for %d years of data\n", n_years);
       }
    buff = (char *)malloc( 30 * 60);
+   check_alloc( buff);
    for( i = 0; i < 30; i++)
       text[i] = buff + i * 60;
    while( fgets( ibuff, 60, ifile))
@@ -179,13 +192,23 @@ int main( const int argc, const char **argv)
          printf( "ERROR in input file\n");
          for( i = 0; i < n_found; i++)
             printf( "%s", text[i]);
-         exit( 0);
+         exit( -2);
          }
       }
+   if( ferror( ifile))
+      {
+      perror( "Error reading input file");
+      return( -3);
+      }
    if( ydata)
       {
       FILE *ofile = fopen( "chinese.dat", "wb");
 
+      if( !ofile)
+         {
+         perror( "'chinese.dat' not opened");
+         return( -4);
+         }
       printf( "Writing %d years,  year0 = %d\n", n_years, year0);
       fwrite( &n_years, sizeof( short), 1, ofile);
       fwrite( &year0, sizeof( short), 1, ofile);
@@ -202,7 +225,17 @@ int main( const int argc, const char **argv)
             ydata[i].intercalary_month,
             ydata[i].mask);
          }
-      fclose( ofile);
+      i = ferror( ofile);
+      if( fclose( ofile) || i)
+         {
+         fprintf( stderr, "Error writing 'chinese.dat'\n");
+         return( -5);
+         }
+      }
+   if( fflush( stdout) || ferror( stdout))
+      {
+      fprintf( stderr, "Error writing output\n");
+      return( -5);
       }
    return( 0);
 }
-- 
2.43.0


From b3ccb4c1e6bf5e79a9e128e5b637497bddeb1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:03 +0000
Subject: [PATCH 73/84] fix: calendar: report unreadable inputs and unwritten
 output, check for a partial phase table; no overruns on odd date lines

---
 calendar.cpp | 77 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 18 deletions(-)

diff --git a/calendar.cpp b/calendar.cpp
index a4e714f..27f56b0 100644
--- a/calendar.cpp
+++ b/calendar.cpp
@@ -26,6 +26,7 @@ long integers;  replaced lots of "long"s with "int32_t"s. */
 #include <string.h>
 #include <stdint.h>
 #include <assert.h>
+#include <errno.h>
 #include <math.h>
 #include "watdefs.h"
 #include "afuncs.h"
@@ -74,6 +75,25 @@ void easter_date( const long year, int *month, int *day);
 
 FILE *ofile = stdout;
 
+static void fatal_error( const char *message)
+{
+   perror( message);
+   exit( -3);
+}
+
+      /* Some input files needn't exist.  But if they do,  we ought to be  */
+      /* able to read them.                                                */
+static FILE *open_optional_file( const char *filename)
+{
+   FILE *rval;
+
+   errno = 0;
+   rval = fopen( filename, "rb");
+   if( !rval && errno != ENOENT && errno != ENOTDIR && errno != EACCES)
+      fatal_error( filename);
+   return( rval);
+}
+
 static void show_month_text( const int month, const int year)
 {
    char buff[80];
@@ -104,9 +124,9 @@ static int get_phase_data( const double t, double *t_phases)
    FILE *phase_file;
    int rval = -1;
 
-   phase_file = fopen( phase_file_name, "rb");
+   phase_file = open_optional_file( phase_file_name);
    if( !phase_file)
-      phase_file = fopen( "phases.dat", "rb");
+      phase_file = open_optional_file( "phases.dat");
    if( phase_file)
       {
       int32_t dt[12];
@@ -116,12 +136,12 @@ static int get_phase_data( const double t, double *t_phases)
       int32_t phase0;
 
       k = floor( (t - 2451550.09765) / 29.530588853 - .5);
-      if( !fread( &phase0, 1, sizeof( int32_t), phase_file))
-         fprintf( stderr, "Error reading phase file\n");
+      if( fread( &phase0, sizeof( int32_t), 1, phase_file) != 1)
+         fatal_error( "Error reading phase file");
       offset = (4L * ((long)k - phase0) + 1L) * (long)sizeof( int32_t);
       if( !fseek( phase_file, offset, SEEK_SET))
          {
-         if( !fread( dt, 12, sizeof( int32_t), phase_file))
+         if( fread( dt, sizeof( int32_t), 12, phase_file) != 12)
             {
             fprintf( stderr, "Read error on phase file\n");
             fprintf( stderr, "phase0 = %ld; offset %ld\n", (long)phase0, offset);
@@ -233,43 +253,48 @@ static void make_postscript_substitutions( char *buff)
 
 static char **grab_dates( const int month, const int year)
 {
-   char **rval = (char **)calloc( MAX_DATES_PER_MONTH, sizeof( char *));
+            /* leave room for holidays,  lunar phases,  and a final NULL */
+   char **rval = (char **)calloc( MAX_DATES_PER_MONTH + 20, sizeof( char *));
    char file_for_year[40];
    unsigned n_found = 0, i, j, pass;
    long jd;
    double t_phases[12];
 
    if( !rval)
-      return( rval);
+      fatal_error( "Out of memory");
    snprintf_err( file_for_year, sizeof( file_for_year), "date%d.txt", year);
    for( pass = 0; pass < (kate_style ? 1u : 2u); pass++)
       {
       const char *date_filename = (kate_style ? "katedate.txt" : "dates.txt");
-      FILE *dates_file = fopen( pass ? file_for_year : date_filename, "rb");
+      FILE *dates_file = open_optional_file( pass ? file_for_year : date_filename);
 
       if( dates_file)
          {
-         char buff[80];
+         char buff[320];         /* parentheses become four bytes each */
 
-         while( fgets( buff, sizeof( buff), dates_file))
+         while( fgets( buff, 80, dates_file))
             if( !memcmp( months[month - 1], buff, 3))
                {
                unsigned loc = 7, n_days = 1;
-               unsigned days[10];
+               const unsigned max_days = 10;
+               unsigned days[max_days];
 
                days[0] = (unsigned)atoi( buff + 3);
-               if( buff[6] == '/')     /* See 'dates.txt' for an explanation */
+               if( strlen( buff) < 8)        /* no room for an event */
+                  continue;
+               if( buff[6] == '/' && buff[7] >= '0' && buff[7] <= '6') /* See 'dates.txt' for an explanation */
                   {
                   while( dmy_to_day( (int)days[0] + 1, month, year,
                               CALENDAR_JULIAN_GREGORIAN) % 7 != buff[7] - '0')
                      (days[0])++;
                   loc = 9;
                   }
-               while( buff[loc - 1] == ',')
+               while( buff[loc - 1] == ',' && n_days < max_days)
                   {
                   int bytes_scanned;
 
-                  sscanf( buff + loc, "%u%n", &days[n_days], &bytes_scanned);
+                  if( sscanf( buff + loc, "%u%n", &days[n_days], &bytes_scanned) != 1)
+                     break;
                   loc += (unsigned)bytes_scanned + 1;
                   n_days++;
                   }
@@ -277,15 +302,21 @@ static char **grab_dates( const int month, const int year)
                for( i = 0; buff[i] >= ' '; i++)
                   ;
                buff[i] = '\0';
+               if( i < loc)
+                  continue;
                for( j = 0; j < n_days; j++)
                   {
-                  rval[n_found] = (char *)malloc( i - 4);
+                  rval[n_found] = (char *)malloc( i - loc + 2);
+                  if( !rval[n_found])
+                     fatal_error( "Out of memory");
                   rval[n_found][0] = (char)days[j];
                   strcpy( rval[n_found] + 1, buff + loc);
                   n_found++;
                   assert( n_found < MAX_DATES_PER_MONTH);
                   }
                }
+         if( ferror( dates_file))
+            fatal_error( pass ? file_for_year : date_filename);
          fclose( dates_file);
          }
       }
@@ -329,6 +360,8 @@ static char **grab_dates( const int month, const int year)
             strcpy( rval[n_found] + 1, names[i]);
             n_found++;
             }
+         else
+            fatal_error( "Out of memory");
          }
       }
 
@@ -386,6 +419,8 @@ static char **grab_dates( const int month, const int year)
                strcpy( tptr, phasestr);
                n_found++;
                }
+            else
+               fatal_error( "Out of memory");
             }
          }
    return( rval);
@@ -678,7 +713,7 @@ int main( const int argc, const char **argv)
 {
    int i, month = 0, year;
 
-   if( argc == 1)
+   if( argc < 3)
       error_exit( -2);
    year = atoi( argv[1]);
    month = atoi( argv[2]);
@@ -712,7 +747,8 @@ int main( const int argc, const char **argv)
                break;
             case 'o':
                ofile = fopen( argv[i] + 2, "wb");
-               assert( ofile);
+               if( !ofile)
+                  fatal_error( argv[i] + 2);
                break;
             case 'w':
                wraparound_style = 1;
@@ -728,7 +764,7 @@ int main( const int argc, const char **argv)
       }
    xsize = (width - 60) / 7;
    if( !dollhouse)
-      return( calendar( month, year));
+      calendar( month, year);
    else
       {
       for( i = 1; i <= 12; i++)
@@ -736,5 +772,10 @@ int main( const int argc, const char **argv)
       for( i = 0; dollhouse_trailer_data[i]; i++)
          fprintf( ofile, "%s\n", dollhouse_trailer_data[i]);
       }
+   i = (fflush( ofile) || ferror( ofile));
+   if( ofile != stdout)
+      i |= fclose( ofile);
+   if( i)
+      fatal_error( "Error writing output");
    return( 0);
 }
-- 
2.43.0


From a2eab5b0c756437f01c36ea4e909a762ae6baa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:01 +0000
Subject: [PATCH 74/84] fix: get_time_from_string: dates with a decimal year,
 or a decimal day next to a named month, no longer abort

---
 get_time.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/get_time.cpp b/get_time.cpp
index 6a79fd1..0c0752f 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -742,6 +742,10 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
             {
             const int year_first = (time_format & FULL_CTIME_YEAR_FIRST);
 
+            if( year_found == day_found)     /* it was a decimal year,  */
+               day_found = 0;                /* not a decimal day       */
+            if( month_found && day_found)
+               year_found = 6 - month_found - day_found;
             if( !year_found)
                {
                if( !month_found)
-- 
2.43.0


From 74340ebc2f5a31bee687dad7a2c999850112f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:15 +0000
Subject: [PATCH 75/84] fix: dmy_to_day: a month past the last reads nothing
 beyond the month table

---
 date.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/date.cpp b/date.cpp
index 58c1b7c..24a9e4f 100644
--- a/date.cpp
+++ b/date.cpp
@@ -710,9 +710,9 @@ long DLL_FUNC dmy_to_day( const int day, const int month, const long year,
    if( !rval)
       {
       if( day == RETURN_DAYS_IN_MONTH)
-         return( mdata[month - 1]);
+         return( (month > 0 && month <= N_MONTHS) ? mdata[month - 1] : 0);
       jd = year_ends[0];
-      for( int i = 0; i < month - 1; i++)
+      for( int i = 0; i < month - 1 && i < N_MONTHS; i++)
          jd += mdata[i];
       jd += (long)day - 1;
       }
-- 
2.43.0


From dfb5f6d0243f444a9afb2ffc7f670af1adf4be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:15 +0000
Subject: [PATCH 76/84] fix: get_time_from_string: text that ends like an
 offset but is not one no longer loops forever

---
 get_time.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/get_time.cpp b/get_time.cpp
index 0c0752f..03b1d0e 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -161,6 +161,8 @@ static inline long double collect_time_offset( char *istr)
                      len--;
                   istr[len] = '\0';
                   }
+               else
+                  rval = 0.;      /* not an offset,  or more follows it */
          }
       else if( *istr == '-' || *istr == '+')  /* just add/subtract N days: */
          {
-- 
2.43.0


From 4df5d7a778de6c76a652e434e4afd4aef2f75e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:15 +0000
Subject: [PATCH 77/84] fix: get_time_from_string: spaces put between letters
 and digits stay within the buffer

---
 get_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index 03b1d0e..f425ec3 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -434,7 +434,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
              /* 'Q' is an exception to avoid '1q' becoming '1 q'.         */
    *str = (char)tolower( *time_str++);
    i = 1;
-   while( (size_t)i < sizeof( buff) - 1 && *time_str)
+   while( (size_t)i < sizeof( buff) - 2 && *time_str)
       {
       if( (isalpha( *time_str) && isdigit( time_str[-1]))
                          || (isdigit( *time_str) && isalpha( time_str[-1])))
-- 
2.43.0


From 60b8e7307d0eaf668239688b595cf799a9efb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 78/84] fix: lun_tran: the Moon's transits are found from its
 hour angle, and a cut vsop.bin is refused

The crossings were found from the azimuth, which for an observer within
28 degrees of the equator does not change sign (or jumps) at a transit.
---
 lun_tran.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lun_tran.cpp b/lun_tran.cpp
index 85f5c0d..cdac411 100644
--- a/lun_tran.cpp
+++ b/lun_tran.cpp
@@ -40,6 +40,8 @@ int get_zip_code_data( const int zip_code, double *latitude,
       char *place_name);                              /* lun_tran.cpp */
 void format_hh_mm( char *buff, const double time);    /* lun_tran.cpp */
 
+#define VSOP_BIN_SIZE 60874
+
 static double look_for_transit_time( const int planet_no,
                   double jd,
                   const double observer_lat, const double observer_lon,
@@ -55,7 +57,9 @@ static double look_for_transit_time( const int planet_no,
       fill_planet_data( &pdata, planet_no, jd,
                           observer_lat, observer_lon, vsop_data);
 
-      delta = atan2( pdata.altaz_loc[1], pdata.altaz_loc[0]);
+               /* (not the azimuth:  in the tropics,  the moon may cross */
+               /* the meridian in the north)                             */
+      delta = pdata.hour_angle;
       if( !real_transit)
          delta += pi;
       while( delta < -pi)
@@ -64,7 +68,6 @@ static double look_for_transit_time( const int planet_no,
          delta -= pi + pi;
       if( planet_no == 10)       /* moon moves a little faster */
          delta *= 30.5 / 29.5;
-      delta *= sqrt( 1. - pdata.altaz_loc[2] * pdata.altaz_loc[2]);
       jd += delta / (2. * pi);
       }
       while( fabs( delta) > .0001 && iterations--);
@@ -116,7 +119,7 @@ static int is_dst( const int minutes, const int day_of_year, const int year)
 
    Return values:
 
-      -2.         The 'vsop.bin' file wasn't found.
+      -2.         The 'vsop.bin' file wasn't found or couldn't be read.
       <0. or >=1. The event occurred slightly before or slightly after
                   that calendar day.  Lunar transits average about 25 hours
                   apart,  so this will happen about once a month for each
@@ -146,7 +149,16 @@ double get_lunar_transit_time( const int year, const int month,
    int dst_hours = (dst ? is_dst( 720, (int)day_of_year, year) : 0);
 
    if( !vsop_data)
-      vsop_data = load_file_into_memory( "vsop.bin", NULL);
+      {
+      size_t filesize;
+
+      vsop_data = load_file_into_memory( "vsop.bin", &filesize);
+      if( vsop_data && filesize < VSOP_BIN_SIZE)
+         {
+         free( vsop_data);
+         vsop_data = NULL;
+         }
+      }
    if( !vsop_data)
       return( -2.);
    jd -= (double)time_zone / 24.;      /* convert local to UT */
-- 
2.43.0


From fbe7210a038218ccf5b192790b93c4929e79deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:50 +0000
Subject: [PATCH 79/84] fix: jevent: sorting few events no longer loops
 hundreds of millions of times over nothing

---
 jevent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jevent.cpp b/jevent.cpp
index 9b2b197..7530909 100644
--- a/jevent.cpp
+++ b/jevent.cpp
@@ -190,7 +190,7 @@ static void _sort_events( EVENT *e, const size_t n_events)
       {
       size_t i, j;
 
-      for( i = 0; i < gap; i++)
+      for( i = 0; i < gap && i + gap < n_events; i++)
          for( j = i; j + gap < n_events; j += gap)
             if( e[j].t > e[j + gap].t)
                {
-- 
2.43.0


From 09a84fe5e758f17b943224c5cb72da575276e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:50 +0000
Subject: [PATCH 80/84] fix: jevent: memory, results and data files that fail
 are reported

---
 jevent.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/jevent.cpp b/jevent.cpp
index 7530909..1effab1 100644
--- a/jevent.cpp
+++ b/jevent.cpp
@@ -249,6 +249,11 @@ int main( int argc, char **argv)
       }
    vsop_tbuff = (char *)malloc( VSOP_CHUNK);
    vsop_data = (char FAR *)FMALLOC( VSOP_CHUNK * 22U);
+   if( !vsop_tbuff || !vsop_data)
+      {
+      fprintf( stderr, "Out of memory\n");
+      return( -1);
+      }
    for( i = 0; i < 22; i++)
       {
       if( !fread( vsop_tbuff, VSOP_CHUNK, 1, vsop_file))
@@ -294,9 +299,19 @@ int main( int argc, char **argv)
                break;
             case 'f': case 'F':
                ofile = fopen( argv[i] + 2, "wb");
+               if( !ofile)
+                  {
+                  perror( argv[i] + 2);
+                  return( -4);
+                  }
                break;
             case 'r': case 'R':
                data_file = fopen( argv[i] + 2, "ab");
+               if( !data_file)
+                  {
+                  perror( argv[i] + 2);
+                  return( -4);
+                  }
                printf( "Appending data to %s\n", argv[i] + 2);
                break;
             default:
@@ -337,14 +352,23 @@ int main( int argc, char **argv)
 
    if( ofile)
       {
+      int failed;
+
       for( i = 0; i < n_events; i++)
          if( e[i].t > t1 && e[i].t < t2)
             show_event( ofile, e + i);
-      fclose( ofile);
+      failed = ferror( ofile);
+      if( fclose( ofile) || failed)
+         {
+         fprintf( stderr, "Error writing the file of results\n");
+         return( -5);
+         }
       }
 
    if( data_file)
       {
+      int failed;
+
       for( i = 0; i < n_events; i++)
          if( e[i].t > t1 && e[i].t < t2)
             if( !( e[i].event_type & EVENT_UNSEEN))
@@ -359,7 +383,17 @@ int main( int argc, char **argv)
                buff[4] = (char)( (e[i].event_type & 7) | (e[i].sat << 3));
                fwrite( buff, 1, 5, data_file);
                }
-      fclose( data_file);
+      failed = ferror( data_file);
+      if( fclose( data_file) || failed)
+         {
+         fprintf( stderr, "Error writing the data file\n");
+         return( -5);
+         }
+      }
+   if( fflush( stdout) || ferror( stdout))
+      {
+      fprintf( stderr, "Error writing output\n");
+      return( -5);
       }
    return( 0);
 }
-- 
2.43.0


From db72fc6ec059106fcf9350c85ef0ac80b98c6f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 81/84] fix: add_off -d: differences for spacecraft at 60 AU
 and beyond fit their buffer

---
 add_off.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/add_off.c b/add_off.c
index 61b6035..7c63c0b 100644
--- a/add_off.c
+++ b/add_off.c
@@ -566,7 +566,7 @@ int process_file( const char *filename, FILE *ofile)
                }
             else        /* output punched-card data */
                {
-               char vel_buff[80];
+               char vel_buff[100];
 
                snprintf_err( vel_buff, sizeof( vel_buff),
                         "COM vel (km/s) %.16s%+13.7f%+13.7f%+13.7f %.3s\n",
-- 
2.43.0


From 90d619bab1df6d7340fc08b4cda0142c79746584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 82/84] fix: add_off: a summary that cannot be written is an
 error

---
 add_off.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/add_off.c b/add_off.c
index 7c63c0b..9ba7734 100644
--- a/add_off.c
+++ b/add_off.c
@@ -602,7 +602,7 @@ int process_file( const char *filename, FILE *ofile)
       fprintf( ofile, "%s", buff);
    if( ofile != stdout)
       printf( "%s", buff + 4);
-   if( fflush( ofile) || ferror( ofile))
+   if( fflush( ofile) || ferror( ofile) || fflush( stdout) || ferror( stdout))
       {
       fprintf( stderr, "Error writing output\n");
       rval = -1;
-- 
2.43.0


From eed48788a3ab6d10909b5f2b9aa1a9f8c21834d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 83/84] fix: add_off: the web page says when the request or the
 observations could not be processed

---
 add_off.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/add_off.c b/add_off.c
index 9ba7734..2d11143 100644
--- a/add_off.c
+++ b/add_off.c
@@ -704,7 +704,7 @@ int main( void)
             /* Requests can run at the same time;  each needs its own file : */
    snprintf_err( temp_filename, sizeof( temp_filename), "/tmp/add_off2_%ld.txt",
                      (long)getpid( ));
-   while( buff && !get_cgi_data( field, buff, NULL, max_buff_size))
+   while( buff && !(cgi_status = get_cgi_data( field, buff, NULL, max_buff_size)))
       {
       if( !strcmp( field, "TextArea") || !strcmp( field, "upfile"))
          {
@@ -734,16 +734,20 @@ int main( void)
          }
       }
    fprintf( lock_file, "%d bytes written\n", (int)bytes_written);
-   free( buff);
    argv[0] = "add_off";
    argv[1] = temp_filename;
    argv[2] = NULL;
-   if( write_error)
+   if( !buff)
+      printf( "<b> Out of memory</b>\n");
+   else if( write_error)
       printf( "<b> Couldn't store the observations on the server</b>\n");
+   else if( cgi_status < -1 || ferror( stdin))
+      printf( "<b> Couldn't read all of your request</b>\n");
    else if( !bytes_written)
       printf( "<b> No observations were found in your request</b>\n");
-   else
-      dummy_main( 2, argv);
+   else if( dummy_main( 2, argv))
+      printf( "<b> Couldn't process the observations</b>\n");
+   free( buff);
    if( bytes_written)
       remove( temp_filename);
    fprintf( lock_file, "Done\n");
-- 
2.43.0


From bb8c2ee46af083257f0840df705c0bb976eb1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:45 +0000
Subject: [PATCH 84/84] fix: tables: a cut vsop.bin, a missing year and a table
 that cannot be written are errors

---
 tables.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tables.cpp b/tables.cpp
index e06cfd9..23a7a8c 100644
--- a/tables.cpp
+++ b/tables.cpp
@@ -89,18 +89,26 @@ static int quadrant( double angle)
 
 int main( int argc, char **argv)
 {
-   char *vsop_data = load_file_into_memory( "vsop.bin", NULL);
-   int i, year = atoi( argv[1]);
+   const size_t vsop_size = 60874;        /* a shorter file is damaged */
+   size_t filesize = 0;
+   char *vsop_data = load_file_into_memory( "vsop.bin", &filesize);
+   int i, year = (argc > 1 ? atoi( argv[1]) : 0);
    int month_start = 1, month_end = 12, month;
    const double observer_lon = -69.90 * pi / 180.;
    const double observer_lat = 44.01 * pi / 180.;
 
-   if( !vsop_data)
+   if( !vsop_data || filesize < vsop_size)
       {
       printf( "VSOP.BIN wasn't loaded.\n");
       return( -1);
       }
 
+   if( argc < 2)
+      {
+      printf( "Usage: tables year (month)\n");
+      return( -2);
+      }
+
    if( argc > 2)        /* month specified,  rather than "entire year" */
       month_start = month_end = atoi( argv[2]);
 
@@ -192,5 +200,10 @@ int main( int argc, char **argv)
          }
       }
    free( vsop_data);
+   if( fflush( stdout) || ferror( stdout))
+      {
+      fprintf( stderr, "Error writing the table\n");
+      return( -3);
+      }
    return( 0);
 }
-- 
2.43.0


From 8bdb6527ae0715b3d10865df22f3b90e8d036da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:08 +0000
Subject: [PATCH 001/148] fix: mppnccombine -r removed a file beyond the input
 set

Without -e, nend is one past the last file of the set, but the removal
loop ran up to and including it, deleting a file that was not combined.
---
 src/mpp-nccombine/mppnccombine.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 240521a..14658f2 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -257,6 +257,7 @@ main (int argc, char *argv[])
   unsigned char removein = 0; /* Remove the ".####" decomposed input files? */
   int nstart = 0;             /* PE number of the first input netCDF file */
   int nend = (-1);            /* PE number of the last input netCDF file */
+  int endrange = 0;           /* Was the last PE number given with -e? */
   int force = 0;         /* Allows combining of incomplete input file set */
   int headerpad = 16384; /* Additional padding at the end of the header */
   int format = NC_NOCLOBBER; /* Format of new netCDF output file */
@@ -351,7 +352,10 @@ main (int argc, char *argv[])
         {
           a++;
           if (a < argc)
-            nend = atoi (argv[a]);
+            {
+              nend = atoi (argv[a]);
+              endrange = (nend > -1);
+            }
           else
             {
               usage ();
@@ -745,6 +749,9 @@ main (int argc, char *argv[])
           if (inputarg == (-1))
             {
               f = 0;
+              /* with no -e the set ends at nend-1: keep any other file */
+              if (!endrange)
+                nend--;
               for (a = nstart; a <= nend; a++)
                 {
                   // commenting line below, as it's a bug
-- 
2.43.0


From 0fead1938ba1c4c4d09eaeec47d46fbbca27d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:47 +0000
Subject: [PATCH 002/148] fix: mppnccombine crashed on input files with no
 records

A record dimension of length zero made the blocking factor zero and the
block count a division by zero.  Combine the fixed-size variables and
leave the record dimension empty instead.
---
 src/mpp-nccombine/mppnccombine.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 14658f2..4d814b1 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -1300,12 +1300,17 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
   long long int b;
   int recdimsize; /* Using a local value to correct issue when netcdf file does
                      not have a record dimension */
+  int norecs;     /* The record dimension has length zero */
   long long varbufsize;
 
   if (ncinfile->recdim < 0)
     recdimsize = 1;
   else
     recdimsize = ncinfile->dimsize[ncinfile->recdim];
+  /* With no records yet, the fixed-size variables still take one pass */
+  norecs = (recdimsize < 1);
+  if (norecs)
+    recdimsize = 1;
 
   /* Check the number of records */
   if (*nrecs == 1)
@@ -1431,6 +1436,10 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
                     instart[d], outstart[d], count[d]);
         }
 
+      /* Nothing to read for a record variable without records */
+      if (norecs && varrecdim != (-1))
+        continue;
+
       /* Prevent unnecessary reads/writes */
       if (r > 0)
         {
@@ -1824,6 +1833,9 @@ flush_decomp (struct fileinfo *ncoutfile, int nfiles, int r, int bf,
         outstart[varrecdim] = r;
       if (varrecdim == (-1) && r > 0)
         continue;
+      /* No record of this variable was read: the input has no records */
+      if (varrecdim != (-1) && varbuf[(r % bf)][v] == NULL)
+        continue;
       if (verbose > 1)
         printf ("      writing to disk\n");
       if (ncvarput (ncoutfile->ncfid, v, outstart, count, varbuf[(r % bf)][v])
-- 
2.43.0


From b18993e6d75e7043d472287135fb1939f2fac0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 003/148] fix: list_ncvars, time_average read outside short
 names and scalars

The suffix tests took a substring starting before the first character of
names shorter than the suffix, and the record-dimension test read the
dimension list of a scalar at index zero.
---
 src/list-ncvars/list_ncvars.f90 | 12 +++++++-----
 src/timeavg/time_average.f90    | 10 +++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/list-ncvars/list_ncvars.f90 b/src/list-ncvars/list_ncvars.f90
index e68fefd..a451411 100644
--- a/src/list-ncvars/list_ncvars.f90
+++ b/src/list-ncvars/list_ncvars.f90
@@ -73,14 +73,16 @@ program list_ncvars
 
       !--- skip names ending in _T1, _T2, _DT  ---
       nc = len_trim(name)
-      if (name(nc-2:nc) == '_T1' .or. name(nc-2:nc) == '_T2' .or. &
-         name(nc-2:nc) == '_DT' .or. name(nc-6:nc) == '_NITEMS') cycle
+      if (name(max(1,nc-2):nc) == '_T1' .or. name(max(1,nc-2):nc) == '_T2' .or. &
+         name(max(1,nc-2):nc) == '_DT' .or. name(max(1,nc-6):nc) == '_NITEMS') cycle
 
       !--- is there a record dimension ---
       static = .true.
-      if (dimids(ndim) == recdim) then
-         static = .false.
-         ndim = ndim-1
+      if (ndim > 0) then
+         if (dimids(ndim) == recdim) then
+            static = .false.
+            ndim = ndim-1
+         endif
       endif
 
       if (.not.list_nonstatic .and. .not.static) cycle
diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 6272f46..615b986 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -970,16 +970,16 @@ contains
       endif
 
       !--- variable has a time axis (non-static) ---
-      if (Var%axes(Var%ndim) == recdim) then ! assume last dimension is time
+      if (Var%ndim > 0 .and. Var%axes(max(1,Var%ndim)) == recdim) then ! assume last dimension is time
          Var%static = .false.
          Var%ndim = Var%ndim - 1
          ! skip certain fields that only have record dimension
          if (Var%ndim == 0) then
             nc = len_trim(Var%name)
-            if (Var%name(nc-2:nc) == '_T1' .or. &
-               Var%name(nc-2:nc) == '_T2' .or. &
-               Var%name(nc-2:nc) == '_DT' .or. &
-               Var%name(nc-6:nc) == '_NITEMS') Var%skip = .true.
+            if (Var%name(max(1,nc-2):nc) == '_T1' .or. &
+               Var%name(max(1,nc-2):nc) == '_T2' .or. &
+               Var%name(max(1,nc-2):nc) == '_DT' .or. &
+               Var%name(max(1,nc-6):nc) == '_NITEMS') Var%skip = .true.
             ! skip record dimension field
             !!!if (Var%axes(1) == recdim) Var%skip = .true.
          endif
-- 
2.43.0


From 3e5048bdf4a652a413fa9ca957794a4c13b2c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 004/148] fix: mppnccombine used an uninitialised file count

When the input lacks NumFilesInSet only a warning is given, but the
number of files in the set was then taken from an uninitialised variable
and could end a -e range early.
---
 src/mpp-nccombine/mppnccombine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 4d814b1..5f4968d 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -924,7 +924,7 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
               unsigned char missing, int deflate, int deflation, int shuffle)
 {
   struct fileinfo *ncinfile;   /* Information about an input netCDF file */
-  int nfiles2;                 /* Number of files in the decomposed domain */
+  int nfiles2 = *nfiles;       /* Number of files in the decomposed domain */
   int ncinformat, ncoutformat; /* Format of input and output netCDF files */
   int d, v, n;                 /* Loop variables */
   int dimid;                   /* ID of a dimension */
-- 
2.43.0


From 51f93693cfd8805bbf7fb99f2e10b258bc1bb868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:50 +0000
Subject: [PATCH 005/148] fix: mppncscatter --prefix also set the start number

The case fell through and replaced --start by the number the path reads as.
---
 src/mpp-ncscatter/opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpp-ncscatter/opt.c b/src/mpp-ncscatter/opt.c
index 8d165b2..42d14e1 100644
--- a/src/mpp-ncscatter/opt.c
+++ b/src/mpp-ncscatter/opt.c
@@ -126,6 +126,7 @@ int getmnsopts(int argc, char** argv, mnsopts* popts)
         len = strlen(optarg);
         popts->prefix = (char*)malloc(len+1);
         strcpy(popts->prefix, optarg);
+        break;
 
 			case 's':
 				popts->start = atoi(optarg);
-- 
2.43.0


From 82d970fe6f74fe9d14b0aa95779fe5ffe0d0a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:50 +0000
Subject: [PATCH 006/148] fix: mppncscatter overran and misread the axis
 attributes

The text of units and cartesian_axis was read into a fixed buffer without
a length check and compared without a terminator, so long attributes
overflowed and a short one was judged by the rest of the previous one.
---
 src/mpp-ncscatter/mppncscatter.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 0ad2aa8..31c4d45 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -272,6 +272,28 @@ void free_scatter_dims(ScatterDim* dims[], int ndims) {
   }
 }
 /*-------------------------------------------------------------------*/
+/*
+   Reads a text attribute, at most size-1 characters of it, as a string.
+*/
+static int get_att_string(int nc, int varid, const char *attname, char *att, size_t size)
+{
+  size_t len;
+  char *text;
+  int status = nc_inq_attlen(nc, varid, attname, &len);
+
+  att[0] = '\0';
+  if (status != NC_NOERR) return status;
+  text = XMALLOC(char, len+1);
+  status = nc_get_att_text(nc, varid, attname, text);
+  if (status == NC_NOERR) {
+    text[len] = '\0';
+    strncpy(att, text, size-1);
+    att[size-1] = '\0';
+  }
+  XFREE(text);
+  return status;
+}
+/*-------------------------------------------------------------------*/
 /*
    Sets each array element to NOSCATTER, SCATTERX, or SCATTERY.
    These tags denote if the dimension should be scattered.
@@ -343,7 +365,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
 	fprintf(stderr, "Error. Coordinate variable units attribute isn't char type for variable %s.  Checking for \"cartesian_axis\" instead.\n", name);
 	goto ENDUNITS;
       }
-      status = nc_get_att_text(nc, varid, "units", att);
+      status = get_att_string(nc, varid, "units", att, sizeof(att));
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to load units attribute for variable %s. Checking for \"cartesian_axis\" instead.\n", name);
 	goto ENDUNITS;
@@ -380,7 +402,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
 	fprintf(stderr, "Error. Coordinate variable \"cartesian_axis\" attribute isn't char type for variable %s.\n", name);
 	exit(-1);
       }
-      status = nc_get_att_text(nc, varid, "cartesian_axis", att);
+      status = get_att_string(nc, varid, "cartesian_axis", att, sizeof(att));
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to load \"cartesian_axis\" attribute for variable %s.\n", name);
 	exit(-1);
-- 
2.43.0


From 16359195671426df491a70f3daca23b3601e1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:50 +0000
Subject: [PATCH 007/148] fix: mppncscatter ignored cartesian_axis after a
 dimension found by units

The flag that units identified the axis was kept from one dimension to
the next.
---
 src/mpp-ncscatter/mppncscatter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 31c4d45..5819e9b 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -321,6 +321,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
      Coordvar is x/y based on metadata, and shares dim name. */
   for(dimid=0; dimid < ndims; ++dimid) {
     scatter_type = NOSCATTER;
+    foundunits = 0;
     dimlen = 0;
     ndiv = 0;
 
-- 
2.43.0


From 178f98ce77ca2f8b6469227545c1e64f4e35a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:50 +0000
Subject: [PATCH 008/148] fix: mppncscatter overwrote scalars that follow a
 record variable

The record test looked at the dimension list of the previous variable
when the variable has no dimensions.
---
 src/mpp-ncscatter/mppncscatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 5819e9b..bed4387 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -1034,7 +1034,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
       }
 
       /* Skip nonrecord var. */
-      if ( (dimids[0] != recid) )
+      if ( (ndimvar < 1) || (dimids[0] != recid) )
 	continue;
       ndimvar2 = ndimvar-1;
       if (ndimvar > 1) {
-- 
2.43.0


From b69499fae04898a934c2a33e5d2b4373a6a05641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:50 +0000
Subject: [PATCH 009/148] fix: mppncscatter could not copy byte variables

The text access functions refuse NC_BYTE; use the untyped ones.
---
 src/mpp-ncscatter/mppncscatter.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index bed4387..8a0633a 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -851,7 +851,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
     switch(type) {
     case NC_BYTE: case NC_CHAR:
-      status = nc_get_var_text(nc, varid, tp);
+      status = nc_get_var(nc, varid, tp);
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to get var %s char data from input file.\n", varname);
 	exit(-1);
@@ -931,7 +931,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
           switch(type) {
           case NC_BYTE: case NC_CHAR:
-            status = nc_put_vara_text(ncids[i], varid, outstart, count, otp);
+            status = nc_put_vara(ncids[i], varid, outstart, count, otp);
             if (status != NC_NOERR) {
               fprintf(stderr, "Error. Failed to put var \"%s\" char data into output file %d.\n", varname, i);
               handle_error(status);
@@ -969,7 +969,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
         } else { /* Scalar variable. */
           switch(type) {
           case NC_BYTE: case NC_CHAR:
-            status = nc_put_var_text(ncids[i], varid, tp);
+            status = nc_put_var(ncids[i], varid, tp);
             if (status != NC_NOERR) {
               fprintf(stderr, "Error. Failed to put scalar var \"%s\" text data into output file %d.\n", varname, i);
               exit(-1);
@@ -1054,7 +1054,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
       switch(type) {
       case NC_BYTE: case NC_CHAR:
-	status = nc_get_vara_text(nc, varid, instart, count, tp);
+	status = nc_get_vara(nc, varid, instart, count, tp);
 	if (status != NC_NOERR) {
 	  fprintf(stderr, "Error. Failed to get var %s char data from input file.\n", varname);
 	  exit(-1);
@@ -1140,7 +1140,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
 	  switch(type) {
 	  case NC_BYTE: case NC_CHAR:
-	    status = nc_put_vara_text(ncids[i], varid, outstart, count, otp);
+	    status = nc_put_vara(ncids[i], varid, outstart, count, otp);
 	    if (status != NC_NOERR) {
 	      fprintf(stderr, "Error. Failed to put var %s data into output file %d.\n", varname, i);
 	      exit(-1);
-- 
2.43.0


From 0c4d1d281136c37645151e48803e8d88eded49b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:13 +0000
Subject: [PATCH 010/148] fix: mppncscatter overran its name buffers

Names of the maximum netCDF length and output paths beyond 255
characters did not fit.
---
 src/mpp-ncscatter/mppncscatter.c | 22 +++++++++++++---------
 src/mpp-ncscatter/scatterdim.h   |  2 +-
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 8a0633a..844a337 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -302,7 +302,7 @@ static int get_att_string(int nc, int varid, const char *attname, char *att, siz
 void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], mnsopts *opt)
 {
   int dimid, varid, status;
-  char name[NC_MAX_NAME];
+  char name[NC_MAX_NAME+1];
   char att[256];
   nc_type type;
   size_t dimlen;
@@ -545,7 +545,7 @@ void def_dim(int nc, int *ncids, int ndims, ScatterDim *scatterdims[], mnsopts *
 {
   int dimid, xi, yi, i, status, dummy, recid;
   size_t len, newlen;
-  char name[NC_MAX_NAME];
+  char name[NC_MAX_NAME+1];
   int nx, ny;
   ScatterDim* scatdim = 0;
 
@@ -607,7 +607,7 @@ void def_var(int nc, int *ncids, int nvars, int ndims, ScatterDim *scatterdims[]
 {
   int varid, xi, yi, ifile, j, status, varidnew, natt, ndimvar;
   size_t len, newlen;
-  char varname[NC_MAX_NAME], attname[NC_MAX_NAME], dimname[NC_MAX_NAME];
+  char varname[NC_MAX_NAME+1], attname[NC_MAX_NAME+1], dimname[NC_MAX_NAME+1];
   nc_type type;
   int dimids[NC_MAX_DIMS];
   /* Scatter attribute. */
@@ -738,7 +738,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
   size_t maxsize[5] = {0,0,0,0,0}; /* Array of maxsizes for each datatype. */
   enum maxsizeindex {CHAR=0,SHORT,INT,FLOAT,DOUBLE};
 
-  char varname[NC_MAX_NAME], attname[NC_MAX_NAME], dimname[NC_MAX_NAME];
+  char varname[NC_MAX_NAME+1], attname[NC_MAX_NAME+1], dimname[NC_MAX_NAME+1];
   nc_type type;
   int dimids[NC_MAX_DIMS];
   char *tp, *otp;
@@ -1286,7 +1286,7 @@ int mppncscatter(mnsopts* opts)
   int nc; /* input file id. */
   int *ncids = NULL; /* store ncid for output files. */
   int i,j,k;
-  char output[256]; /* Temporary buffer for creating output filenames. */
+  char output[2*PATH_MAX]; /* Temporary buffer for creating output filenames. */
   char *prefix, *pchar; /* pointer to root file name (without path). */
   int format = 0; /* Create output files with same format as inputs. */
   int dummy;
@@ -1294,8 +1294,8 @@ int mppncscatter(mnsopts* opts)
   nc_type type;
   size_t len;
   ScatterDim * scatterdims[NC_MAX_DIMS];
-  char name[NC_MAX_NAME];
-  char outnameformat[256]; /* Format string for creating out filenames. */
+  char name[NC_MAX_NAME+1];
+  char outnameformat[PATH_MAX+32]; /* Format string for creating out filenames. */
   char dryrun = opts->dryrun;
   char verbose = opts->verbose;
 
@@ -1351,7 +1351,10 @@ int mppncscatter(mnsopts* opts)
   else
     i = 0;
 
-  sprintf(outnameformat, "%s%s%%s.%%0%dd", ((i>0) ? opts->prefix : ""), ((i>0) ? "/" : ""), opts->width);
+  if (snprintf(outnameformat, sizeof(outnameformat), "%s%s%%s.%%0%dd", ((i>0) ? opts->prefix : ""), ((i>0) ? "/" : ""), opts->width) >= (int)sizeof(outnameformat)) {
+    fprintf(stderr, "Error: %s/%d: Output prefix is too long. Aborting.\n", __FILE__, __LINE__);
+    return -1;
+  }
 
   /*-------------------------------------------------*/
   scatter_dims(nc, ndims, nvars, scatterdims, opts);
@@ -1360,7 +1363,8 @@ int mppncscatter(mnsopts* opts)
   ncids = XMALLOC(int, nfiles);
 
   for(i=0; i < nfiles; ++i) {
-    if (sprintf(output, outnameformat, prefix, i+opts->start) < 1) {
+    j = snprintf(output, sizeof(output), outnameformat, prefix, i+opts->start);
+    if (j < 1 || j >= (int)sizeof(output)) {
       fprintf(stderr, "Error: %s/%d: Failed to create output file name. Aborting.\n", __FILE__, __LINE__);
       return -1;
     }
diff --git a/src/mpp-ncscatter/scatterdim.h b/src/mpp-ncscatter/scatterdim.h
index 376659b..1d08d10 100644
--- a/src/mpp-ncscatter/scatterdim.h
+++ b/src/mpp-ncscatter/scatterdim.h
@@ -27,7 +27,7 @@ typedef enum {NOSCATTER, SCATTERX, SCATTERY} scatter_t;
 typedef struct ScatterDimStruct {
   int id;
   size_t len;
-  char name[NC_MAX_NAME];
+  char name[NC_MAX_NAME+1];
   
   scatter_t scatter_type;
   size_t* scatter_start;
-- 
2.43.0


From 7dabc97e5e36c6ea8550aedb66a53d8108dc2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:20 +0000
Subject: [PATCH 011/148] fix: mppncscatter wrote wrong data for variables with
 four fixed dimensions

The copy looped over the last three dimensions only, leaving the rest of
the buffer unset, and a fourth fixed dimension of a record variable
overran the index arrays.  More dimensions are now refused.
---
 src/mpp-ncscatter/mppncscatter.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 844a337..e7cc475 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -83,7 +83,7 @@ int get_num_files(mnsopts* opts) {
 */
 void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, size_t *count, int ndim, char *ti, short *si, int *ii, float *fi, double *di, char *t, short *s, int *i, float *f, double *d)
 {
-  size_t k, j;
+  size_t l, k, j;
   size_t offset=0;
   size_t i0, stridek, stridej;
 
@@ -213,12 +213,14 @@ void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, siz
     }
     break;
   case 4:
-    i0 = start[1]*dimlen[dimids[2]]*dimlen[dimids[3]] +
-      start[2]*dimlen[dimids[3]] +
-      start[3];
     stridek = dimlen[dimids[2]]*dimlen[dimids[3]];
     stridej = dimlen[dimids[3]];
 
+    for(l=0; l < count[0]; ++l) {
+    i0 = (start[0]+l)*dimlen[dimids[1]]*stridek +
+      start[1]*stridek +
+      start[2]*stridej +
+      start[3];
     switch(type) {
     case NC_BYTE: case NC_CHAR:
       for(k=0; k < count[1]; ++k) {
@@ -261,7 +263,11 @@ void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, siz
       }
       break;
     }
+    }
     break;
+  default:
+    fprintf(stderr, "Error: %s/%d: Variables with %d fixed dimensions are not supported.\n", __FILE__, __LINE__, ndim);
+    exit(-1);
   }
 }
 /*-------------------------------------------------------------------*/
@@ -730,9 +736,9 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 {
   int varid, xi, yi, i, j, status, varidnew, natt, ndimvar, recid, reci, dimi;
   size_t dimlen[NC_MAX_DIMS], size;
-  size_t instart[4];
-  size_t outstart[4] = {0,0,0,0};
-  size_t count[4], newlen;
+  size_t instart[NC_MAX_VAR_DIMS];
+  size_t outstart[NC_MAX_VAR_DIMS] = {0};
+  size_t count[NC_MAX_VAR_DIMS], newlen;
   size_t nrec = 0;
 
   size_t maxsize[5] = {0,0,0,0,0}; /* Array of maxsizes for each datatype. */
@@ -1012,7 +1018,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
   /* Process recvars. */
   for(reci=0; reci < nrec; ++reci) {
     int  ndimvar2;
-    size_t instart2[4], count2[4];
+    size_t instart2[NC_MAX_VAR_DIMS], count2[NC_MAX_VAR_DIMS];
     int dimids2[NC_MAX_DIMS];
 
     instart[0] = reci;
@@ -1020,12 +1026,10 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
     count[0] = 1;
 
     for(varid=0; varid < nvars; ++varid) {
-      instart[1] = 0;
-      instart[2] = 0;
-      instart[3] = 0;
-      instart2[0] = 0;
-      instart2[1] = 0;
-      instart2[2] = 0;
+      for(dimi=1; dimi < NC_MAX_VAR_DIMS; ++dimi) {
+	instart[dimi] = 0;
+	instart2[dimi-1] = 0;
+      }
 
       status = nc_inq_var(nc, varid, varname, &type, &ndimvar, dimids, &natt);
       if (status != NC_NOERR) {
-- 
2.43.0


From 42cf75238508e9edebe0305959cf6e760d345ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:37 +0000
Subject: [PATCH 012/148] fix: mppnccombine overran names of the maximum netCDF
 length

A name may have NC_MAX_NAME characters besides the terminator.
---
 src/mpp-nccombine/mppnccombine.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 5f4968d..6ba6d95 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -164,13 +164,13 @@ struct fileinfo
   int nvars;                              /* Number of variables */
   int ngatts;                             /* Number of global attributes */
   int recdim;                             /* ID of the record dimensions */
-  char varname[MAX_NC_VARS][MAX_NC_NAME]; /* Names of the variables */
+  char varname[MAX_NC_VARS][MAX_NC_NAME + 1]; /* Names of the variables */
   nc_type datatype[MAX_NC_VARS];          /* Data types of the variables */
   int varndims[MAX_NC_VARS]; /* Number of dimensions for each variable */
   int vardim[MAX_NC_VARS][MAX_NC_DIMS]; /* Dimensions for each variable */
   int natts[MAX_NC_VARS]; /* Number of attributes for each variable */
   unsigned char vardecomp[MAX_NC_VARS];   /* Is the variable decomposed */
-  char dimname[MAX_NC_DIMS][MAX_NC_NAME]; /* Names of the dimensions */
+  char dimname[MAX_NC_DIMS][MAX_NC_NAME + 1]; /* Names of the dimensions */
   long dimsize[MAX_NC_DIMS];     /* Sizes of the dimensions (decomposed) */
   long dimfullsize[MAX_NC_DIMS]; /* Full sizes of the dimensions */
   long dimstart[MAX_NC_DIMS];    /* Start positions within full dimensions */
@@ -933,7 +933,7 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
                  /*  #1 ending position of original dimension     */
                  /*  #2 starting position of decomposed dimension */
                  /*  #3 ending position of decomposed dimension   */
-  char attname[MAX_NC_NAME];       /* Name of a global or variable attribute */
+  char attname[MAX_NC_NAME + 1];       /* Name of a global or variable attribute */
   unsigned char ncinfileerror = 0; /* Were there any file errors? */
   size_t blksz = NC_BLKSZ;         /* netCDF block size */
 
-- 
2.43.0


From 1fa8d049df91cf742226981172d7dfae88048b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:07 +0000
Subject: [PATCH 013/148] fix: is-compressed read beyond its option table

The table had no terminator, which an unknown long option runs into.
---
 src/land_utils/is-compressed.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/land_utils/is-compressed.c b/src/land_utils/is-compressed.c
index f092562..c8111b6 100644
--- a/src/land_utils/is-compressed.c
+++ b/src/land_utils/is-compressed.c
@@ -72,7 +72,8 @@ int main(int argc, char* argv[])
    {
       {"debug", no_argument, NULL, 'd'},
       {"help", no_argument, NULL, 'h'},
-      {"version", no_argument, NULL, 'V'}
+      {"version", no_argument, NULL, 'V'},
+      {NULL, 0, NULL, 0}
    };
 
    int c;
-- 
2.43.0


From 742d8a69f45c8e2477cb76bde16e4c1709067ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:07 +0000
Subject: [PATCH 014/148] fix: decompress-ncc lost the data of all but the last
 file

With ocean_fillvalue and several input files, every file filled the
points it does not hold, including those read from the files before it.
---
 lib/libnfu/nfu_compress.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/libnfu/nfu_compress.F90 b/lib/libnfu/nfu_compress.F90
index 4d05980..542944e 100644
--- a/lib/libnfu/nfu_compress.F90
+++ b/lib/libnfu/nfu_compress.F90
@@ -200,6 +200,10 @@ function nfu_get_compressed_var_r8(ncid,varid,data,mask,start,count,ocean,ocean_
   if (isOcean) then
      do i=1,size(ocean_index)
           if (ocean_index(i) .eq. 0) then
+             ! keep what an earlier file has put there
+             if (present(mask)) then
+                if (mask(i)) cycle
+             endif
              data(i)=ocean_value
           endif
      enddo
-- 
2.43.0


From edc1cd5233a0e79e6688f1610be2c1c5afc1bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:07 +0000
Subject: [PATCH 015/148] fix: combine_restarts -n removed existing output
 files

---
 src/combine-restarts/combine_restarts.in | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/combine-restarts/combine_restarts.in b/src/combine-restarts/combine_restarts.in
index 5e63acb..e47ea47 100755
--- a/src/combine-restarts/combine_restarts.in
+++ b/src/combine-restarts/combine_restarts.in
@@ -186,7 +186,12 @@ do
             if [ -e ${f} ]
             then
                 # Remove exising output file
-                \rm -f ${f}
+                if [ $dryrun -gt 0 ]
+                then
+                    echo rm -f ${f}
+                else
+                    \rm -f ${f}
+                fi
             fi
             mppnccombine_cmd="mppnccombine $mppCombOpts ${f} ${inputFiles}"
             if [ ${verbose} -gt 1 ]
-- 
2.43.0


From aa7839232e421f251cbe250e154525ea12391631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:07 +0000
Subject: [PATCH 016/148] fix: combine_restarts mixed files of different sets

The dots of a file name were taken as wildcards when its pieces were
listed, so a.res.nc also took the pieces of a_res.nc.
---
 src/combine-restarts/combine_restarts.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/combine-restarts/combine_restarts.in b/src/combine-restarts/combine_restarts.in
index e47ea47..1396df6 100755
--- a/src/combine-restarts/combine_restarts.in
+++ b/src/combine-restarts/combine_restarts.in
@@ -119,7 +119,8 @@ do
     then
         echoerr "debug1: processing for combined file '${f}'"
     fi
-    inputFiles=$( ls -1 | @EGREP@ "^${f}${patternGrepTail}" | xargs )
+    patternFile=$( echo "${f}" | @SED@ 's/[].[*+?(){}|^$\\]/\\&/g' )
+    inputFiles=$( ls -1 | @EGREP@ "^${patternFile}${patternGrepTail}" | xargs )
     if [ $( echo ${inputFiles} | wc -w ) -gt 0 ]
     then
         # Check if file is a compressed file
-- 
2.43.0


From ca9ba187dcf017dc43b8228ed56d2a41fa87de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:21 +0000
Subject: [PATCH 017/148] fix: scatter-ncc crashed without -i and -j

---
 src/land_utils/scatter-ncc.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/land_utils/scatter-ncc.F90 b/src/land_utils/scatter-ncc.F90
index 8ee7cc6..b7173b9 100644
--- a/src/land_utils/scatter-ncc.F90
+++ b/src/land_utils/scatter-ncc.F90
@@ -115,6 +115,7 @@ program combine_res
   if(nlon==0)  call assert(.false.,'file '//trim(infile)//' does not have dimension nlon')
   if(nlat==0)  call assert(.false.,'file '//trim(infile)//' does not have dimension nlat')
 
+  if(npex_io<1 .or. npey_io<1) call assert(.false.,'the numbers of divisions (-i and -j) must be positive')
   ! make sure grid size is divisible by number of division.
   if(mod(nlon, npex_io) .NE. 0)  call assert(.false.,' nlon is not divisible by npex_io (-i)')
   if(mod(nlat, npey_io) .NE. 0)  call assert(.false.,' nlat is not divisible by npey_io (-i)')
-- 
2.43.0


From 5ba47a49f8637310a13b761e53603a0c89da93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:08 +0000
Subject: [PATCH 018/148] fix: time_average read outside the name when there
 are no time bounds

---
 src/timeavg/time_average.f90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 615b986..854a0c5 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -211,7 +211,9 @@ program time_average
          endif
          ! replace null character at end of string with space (bug fix)
          nc = len_trim(name_time_bounds)
-         if (iachar(name_time_bounds(nc:nc))==0) name_time_bounds(nc:nc)=' '
+         if (nc > 0) then
+            if (iachar(name_time_bounds(nc:nc))==0) name_time_bounds(nc:nc)=' '
+         endif
          if (verbose) then
             print *, 'time_bounds_present=',time_bounds_present
             print *, 'climo_bounds_present=',climo_bounds_present
-- 
2.43.0


From 17fd12ac480572b575c1c6013b89f50e61466d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:08 +0000
Subject: [PATCH 019/148] fix: time_average used the unset averaging interval
 of the bounds variable

---
 src/timeavg/time_average.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 854a0c5..5561fda 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -728,6 +728,7 @@ program time_average
       ! find the first avg field
       first = .true.
       do ivar = 1, nvar
+         if (trim(Vars(ivar)%name) == trim(name_time_bounds)) cycle
          if (Vars(ivar)%do_avg) then
             time_bounds(1:3) = Vars(ivar)%tavg(1:3)
             first = .false.
-- 
2.43.0


From ca3f218d25a0497f80866696bfba5d6db902d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:08 +0000
Subject: [PATCH 020/148] fix: time_average ignored missing values when the
 first file had one record

---
 src/timeavg/time_average.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 5561fda..a0dde0f 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -1183,7 +1183,7 @@ contains
       !--- allocate space for data (and data wt when necessary) ---
       allocate (Var%data_sum(shape(1),shape(2),shape(3),shape(4)))
       if (.not.Var%use_data_wt) then
-         if (ntime > 1 .and. Var%do_missval .and. .not.Var%static) then
+         if (Var%do_missval .and. .not.Var%static) then
             allocate (Var%data_wt(shape(1),shape(2),shape(3),shape(4)))
             Var%use_data_wt = .true.
          endif
-- 
2.43.0


From e91b050d73284e28efb271a9e6055349ef7a4055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:08 +0000
Subject: [PATCH 021/148] fix: time_average wrote wrong times for files without
 time bounds

---
 src/timeavg/time_average.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index a0dde0f..be08bd1 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -1058,7 +1058,7 @@ contains
       !--- get time average info for non-static variables ----
       Var%do_avg = .false.
       if (.not.Var%static) then
-         Var%do_avg = .true.
+         Var%do_avg = do_avg
       endif
    end subroutine init_variable_type
 
-- 
2.43.0


From 35e1a9ec367c469300bd637bce53d511e4516622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:08 +0000
Subject: [PATCH 022/148] fix: time_average inquired the compression of the
 wrong variable

---
 src/timeavg/time_average.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index be08bd1..367b1f2 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -445,7 +445,7 @@ program time_average
                deflate_in = 0
                deflation_in = 0
             else
-               istat = NF90_INQ_VAR_DEFLATE (ncid_in, Vars(ivar)%varid_out, shuffle_in, &
+               istat = NF90_INQ_VAR_DEFLATE (ncid_in, ivar, shuffle_in, &
                   deflate_in, deflation_in)
                if (istat /= NF90_NOERR) call error_handler &
                   ('getting NetCDF4 compression: '//trim(Vars(ivar)%name), ncode=istat)
-- 
2.43.0


From 0fa3789b36712d76acf39451255e791e86a4403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:55 +0000
Subject: [PATCH 023/148] fix: time_average -b wrote through an unset pointer
 and outside its buffer

---
 src/timeavg/time_average.f90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 367b1f2..c98ee47 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -321,7 +321,9 @@ program time_average
             Vars(ivar)%axes(1:2) = (/numdims+1,recdim/)
             Vars(ivar)%natt  = 0
             Vars(ivar)%static = .false.
-            Vars(ivar)%shape  = (/2,1,1,1/)
+            shape = (/2,1,1,1/)
+            Vars(ivar)%shape  = shape
+            max_shape(1) = max(max_shape(1), 2)
             call alloc_variable_type ( numtime, Vars(ivar) )
          endif
 
@@ -589,7 +591,6 @@ program time_average
          ivar = nvar_out
          Vars(ivar)%data_sum = 0.0
          Vars(ivar)%tavg(3)  = 0.0
-         Vars(ivar)%data_wt  = 0.0
          Vars(ivar)%data_wt_max = 1.
       endif
 
-- 
2.43.0


From 90e87e6d31b299664641c926ad463b74df1ba6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:55 +0000
Subject: [PATCH 024/148] fix: time_average -z failed on files with a scalar
 variable

---
 src/timeavg/time_average.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index c98ee47..a9a24d8 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -457,7 +457,7 @@ program time_average
 
             ! set compression
             call apply_compression_defaults (deflation_in, shuffle_in, deflation_out, shuffle_out )
-            if (deflation_out > 0) then
+            if (deflation_out > 0 .and. ndim > 0) then
                istat = NF90_DEF_VAR_DEFLATE (ncid_out, Vars(ivar)%varid_out, shuffle_out, 1, &
                   deflation_out)
                if (istat /= NF90_NOERR) call error_handler &
-- 
2.43.0


From 70161177d97549024205243002fbbcfd8647c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:55 +0000
Subject: [PATCH 025/148] fix: time_average wrote unset text in cell_methods

---
 src/timeavg/time_average.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index a9a24d8..0cd9b27 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -230,6 +230,8 @@ program time_average
             if (do_climo_avg) climo_time = 0.0
          else
             do_climo_avg = .false.
+            period_in  = ' '
+            period_out = ' '
          endif
          ! is the time bounds attribute changing from "bounds" to "climatology"?
          if (time_bounds_present .and. do_climo_avg) then
-- 
2.43.0


From 16e8ffcbb592026cd4582608ebffa9fe1162ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:55 +0000
Subject: [PATCH 026/148] fix: time_average dropped input files beyond the
 200th without an error

---
 src/timeavg/time_average.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 0cd9b27..102aed0 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -97,7 +97,8 @@ program time_average
    do i=1,len(file_name_out); file_name_out(i:i) = ' '; enddo
 
    ! read namelist
-   read  (*,input,end=1,err=1)
+   read  (*,input,end=1,iostat=istat)
+   if (istat > 0) call error_handler ('Invalid namelist, or too many input files')
 1  continue
    if (verbose) then
       ! write (*,input)
-- 
2.43.0


From 7644b8f9e2bc652346c13f194cd293637401fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:55 +0000
Subject: [PATCH 027/148] fix: time_average overran its shape array on static
 variables of five dimensions

---
 src/timeavg/time_average.f90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 102aed0..9cfdbb7 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -999,6 +999,9 @@ contains
          Var%static = .true.
       endif
 
+      if (Var%ndim > 4) call error_handler &
+         ('input field ('//trim(Var%name)//') has more than 4 axes besides time')
+
       ! check compilation precision for double precision variables
       ! skip for time_bounds and record dimension
       if (Var%xtype == NF90_REAL8) then
-- 
2.43.0


From 4e4a00bb5b182b389fd5d8c197092ae86ddcce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:24 +0000
Subject: [PATCH 028/148] fix: list_ncvars.sh exits non-zero when a file cannot
 be listed

The status of the list_ncvars program was ignored: a damaged file gave an
error text on stdout and exit status 0.
---
 src/list-ncvars/list_ncvars.sh.in | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/list-ncvars/list_ncvars.sh.in b/src/list-ncvars/list_ncvars.sh.in
index 8494262..1facf13 100644
--- a/src/list-ncvars/list_ncvars.sh.in
+++ b/src/list-ncvars/list_ncvars.sh.in
@@ -141,6 +141,7 @@ fi
 nml_name=$(mktemp nml.XXXXXX)
 
 # loop thru netcdf files
+status=0
 for file in $*
 do
     cat > $nml_name << EOF
@@ -157,8 +158,10 @@ do
 EOF
 
     # run the Fortran application
-    $pkg_libexec_dir/list_ncvars < $nml_name
+    $pkg_libexec_dir/list_ncvars < $nml_name || status=1
 done
 
 # clean up
 rm -f $nml_name
+
+exit $status
-- 
2.43.0


From 0864bd1ea44cd0a91580927086d5720489e8094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:24 +0000
Subject: [PATCH 029/148] fix: list_ncvars.sh reports requests that can list
 nothing

The checks for -s/-t and -0..-4 compared with ".false" (no final dot) and
therefore never fired; -V used a misspelled variable.
---
 src/list-ncvars/list_ncvars.sh.in | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/list-ncvars/list_ncvars.sh.in b/src/list-ncvars/list_ncvars.sh.in
index 1facf13..1003caa 100644
--- a/src/list-ncvars/list_ncvars.sh.in
+++ b/src/list-ncvars/list_ncvars.sh.in
@@ -95,7 +95,7 @@ do
             exit 0
             ;;
         V)
-            $pgk_libexec_dir/print_version $script_name
+            $pkg_libexec_dir/print_version $script_name
             exit 0
             ;;
         \?)
@@ -124,14 +124,14 @@ do
 done
 
 # Check that the user requested something
-if [ $static = ".false" -a $nonstatic = ".false." ]
+if [ $static = ".false." -a $nonstatic = ".false." ]
 then
     echoerr "${script_name}: Must request at least one of -s or -t"
     exit 1
 fi
 if [ $var0d = ".false." -a $var1d = ".false." \
-     -a $var2d = ".false" -a $var3d = ".false." \
-     -a $var4d = ".false" ]
+     -a $var2d = ".false." -a $var3d = ".false." \
+     -a $var4d = ".false." ]
 then
     echoerr "${script_name}: Must request at least one -0, -1, -2, -3 or -4"
     exit 1
-- 
2.43.0


From 216dc1e77d2240183fb75ca5669da2b661f18e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:08 +0000
Subject: [PATCH 030/148] fix: split_ncvars --cmip keeps the calendar of a time
 axis with calendar_type only

The new calendar attribute was taken from the attribute that had just been
found absent, so it was empty and the calendar was lost.
---
 src/split_ncvars/split_ncvars.pl.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index 3765783..e1b6f6d 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -842,7 +842,7 @@ sub cleanup_dim_atts {
         push @opts, "-a calendar,$dim,m,c,\"$calc\"" if ( $cal ne $calc );
     }
     elsif ($calt) {
-        my $calc = lc($cal);
+        my $calc = lc($calt);
         push @opts, "-a calendar,$dim,c,c,\"$calc\"";
     }
     push @opts, "-a calendar_type,$dim,d,," if $calt;
-- 
2.43.0


From a6b4e9de486e5cc0c1a77c3496f9c6e1bdbb3c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:49 +0000
Subject: [PATCH 031/148] fix: split_ncvars took the dimensions of a variable
 whose name ends alike

The pattern for the dimensions of u also matched tau(...): --ps then left ps,
pk and bk out of (or put them into) the wrong files.
---
 src/split_ncvars/split_ncvars.pl.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index e1b6f6d..f3b8a0a 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -590,7 +590,7 @@ sub get_variable_dimensions {
     }
 
     # Compare the cartesian coords to those of the variables
-    if ( $dump =~ /\t.*$var\((.+)\)/ ) {
+    if ( $dump =~ /\t\w+ $var\((.+)\)/ ) {
         @var_dims{ split /,\s/, $1 } = ();
         @coords = grep { exists $cartesian_coords{$_} } keys %var_dims;
     }
@@ -605,7 +605,7 @@ sub get_vertical_dimensions {
     my $dump = shift;
     my $var  = shift;
     my @vdims;
-    if ( $dump =~ /\t.*$var\((.+)\)/ ) {
+    if ( $dump =~ /\t\w+ $var\((.+)\)/ ) {
         foreach my $dim ( split /,\s/, $1 ) {
             if ( $dump =~ /\t\w+ $dim\(.+\)/ ) {
                 push @vdims, $dim if ( $dump =~ /\t\t$dim:(axis|cartesian_axis) = "Z" ;/ );
-- 
2.43.0


From f13508a30dbaec5ac70eebac85c23ca98d44622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:49 +0000
Subject: [PATCH 032/148] fix: split_ncvars mixed tile1 with tile10 and above

Only one digit of the tile number was used for the output name, so the fields
of tile10 were appended to those of tile1.
---
 src/split_ncvars/split_ncvars.pl.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index f3b8a0a..9b18c0f 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -167,7 +167,7 @@ foreach my $file (@ifiles) {
     print STDERR "Cowardly refusing to process files without a .nc filename" and next
         unless $file =~ /\.nc/;
     my ($ext)  = ( basename $file ) =~ /\.nc(.*)/;
-    my ($tile) = ( basename $file ) =~ /(\.tile\d)/;
+    my ($tile) = ( basename $file ) =~ /(\.tile\d+)/;
     if ( $Opt{idir} ) {
         if ( $dmget !~ 'false' and File::Spec->rel2abs( $Opt{idir} ) =~ m@^/arch@ ) {
             print "$dmget " . $Opt{idir} . "/$file\n" if $Opt{VERBOSE} > 2;
-- 
2.43.0


From c0ad81a214b9846b077551b02e1012a881eb43a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:11 +0000
Subject: [PATCH 033/148] fix: make_hgrid spectral_grid summed its weights from
 an unset value

sum_wts was never initialised, so the latitude bounds of a spectral grid
depended on what was on the stack.
---
 src/make-hgrid/create_lonlat_grid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-hgrid/create_lonlat_grid.c b/src/make-hgrid/create_lonlat_grid.c
index ebdec7b..4cb1c02 100644
--- a/src/make-hgrid/create_lonlat_grid.c
+++ b/src/make-hgrid/create_lonlat_grid.c
@@ -187,7 +187,7 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
   const int itermax = 10;
   const double epsln = 1e-15;
   int ni, nj, nx, ny, nxp, nyp, i, j, converge, iter;
-  double dlon, z, p1, p2, p3, z1, pp, a, b, c, d, sum_wts;
+  double dlon, z, p1, p2, p3, z1, pp, a, b, c, d, sum_wts=0.0;
   double *xb, *yb, *lon, *lonb, *lat, *latb;
   double *sin_hem, *wts_hem, *sin_lat, *wts_lat;
 
-- 
2.43.0


From 45bbe66f3798bd9561606494d9e98c897ec4f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:11 +0000
Subject: [PATCH 034/148] fix: make_hgrid spectral_grid looped forever when a
 root did not converge

The iteration count was never incremented, so the error for a root that
fails to converge in itermax iterations could not be reached.
---
 src/make-hgrid/create_lonlat_grid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-hgrid/create_lonlat_grid.c b/src/make-hgrid/create_lonlat_grid.c
index 4cb1c02..f9a5d28 100644
--- a/src/make-hgrid/create_lonlat_grid.c
+++ b/src/make-hgrid/create_lonlat_grid.c
@@ -215,7 +215,7 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
   for(j=0;j<nj/2;j++) {
     converge = 0;
     z = cos(M_PI*(j +0.75)/(nj + 0.5));
-    for(iter=1; iter<=itermax; i++){
+    for(iter=1; iter<=itermax; iter++){
       p1 = 1.0;
       p2 = 0.0;
 
-- 
2.43.0


From 3d69f0e07d47a67896be3b36c4dc0fff64a79106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:11 +0000
Subject: [PATCH 035/148] fix: make_hgrid spectral_grid left the equator row
 unset for an odd number of latitudes

---
 src/make-hgrid/create_lonlat_grid.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/make-hgrid/create_lonlat_grid.c b/src/make-hgrid/create_lonlat_grid.c
index f9a5d28..cf2199e 100644
--- a/src/make-hgrid/create_lonlat_grid.c
+++ b/src/make-hgrid/create_lonlat_grid.c
@@ -186,7 +186,7 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
 {
   const int itermax = 10;
   const double epsln = 1e-15;
-  int ni, nj, nx, ny, nxp, nyp, i, j, converge, iter;
+  int ni, nj, nh, nx, ny, nxp, nyp, i, j, converge, iter;
   double dlon, z, p1, p2, p3, z1, pp, a, b, c, d, sum_wts=0.0;
   double *xb, *yb, *lon, *lonb, *lat, *latb;
   double *sin_hem, *wts_hem, *sin_lat, *wts_lat;
@@ -204,15 +204,16 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
   lonb    = (double *) malloc((ni+1)*sizeof(double));
   lat     = (double *) malloc(nj    *sizeof(double));
   latb    = (double *) malloc((nj+1)*sizeof(double));
-  sin_hem = (double *) malloc(nj/2*sizeof(double));
-  wts_hem = (double *) malloc(nj/2*sizeof(double));
+  nh = (nj+1)/2; /* includes the equator when nj is odd */
+  sin_hem = (double *) malloc(nh*sizeof(double));
+  wts_hem = (double *) malloc(nh*sizeof(double));
   sin_lat = (double *) malloc(nj*sizeof(double));
   wts_lat = (double *) malloc(nj*sizeof(double));
   dlon = 360./ni;
   for(i=0;i< ni;i++) lon[i] = i*dlon;
   for(i=0;i<=ni;i++) lonb[i] = (i-0.5)*dlon;
 
-  for(j=0;j<nj/2;j++) {
+  for(j=0;j<nh;j++) {
     converge = 0;
     z = cos(M_PI*(j +0.75)/(nj + 0.5));
     for(iter=1; iter<=itermax; iter++){
@@ -239,7 +240,7 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
     wts_hem [j]     = 2.0/((1.0 - z*z)*pp*pp);
   }
 
-  for(j=0;j<nj/2;j++) {
+  for(j=0;j<nh;j++) {
     sin_lat[j]      = - sin_hem[j];
     sin_lat[nj-1-j] =   sin_hem[j];
     wts_lat[j]      =   wts_hem[j];
-- 
2.43.0


From 58eb9925823b5d5a54246600b39a07e9a3097281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:11 +0000
Subject: [PATCH 036/148] fix: make_hgrid tripolar_grid
 --great_circle_algorithm gave wrong cell areas

get_grid_great_circle_area takes longitudes and latitudes; it was given
cartesian coordinates.
---
 src/make-hgrid/create_lonlat_grid.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/make-hgrid/create_lonlat_grid.c b/src/make-hgrid/create_lonlat_grid.c
index cf2199e..6daf919 100644
--- a/src/make-hgrid/create_lonlat_grid.c
+++ b/src/make-hgrid/create_lonlat_grid.c
@@ -457,26 +457,18 @@ void create_tripolar_grid( int *nxbnds, int *nybnds, double *xbnds, double *ybnd
  /*calculte cell area */
   n = 0;
   if(use_great_circle_algorithm) {
-    double *cart_x=NULL, *cart_y=NULL, *cart_z=NULL;
     double *x_rad=NULL, *y_rad=NULL;
 
     /* since make_hgrid is limited to be run on 1 processor, we could assume nx = iec-isc+1 and ny=jec-jsc+1 */
-    cart_x = (double *)malloc(nxp*nyp*sizeof(double));
-    cart_y = (double *)malloc(nxp*nyp*sizeof(double));
-    cart_z = (double *)malloc(nxp*nyp*sizeof(double));
     x_rad  = (double *)malloc(nxp*nyp*sizeof(double));
     y_rad  = (double *)malloc(nxp*nyp*sizeof(double));
     for(i=0; i<nxp*nyp; i++){
       x_rad[i] = x[i]*D2R;
       y_rad[i] = y[i]*D2R;
     }
-    latlon2xyz(nxp*nyp, x_rad, y_rad, cart_x, cart_y, cart_z);
-    get_grid_great_circle_area(&nx, &ny, cart_x, cart_y, area);
+    get_grid_great_circle_area(&nx, &ny, x_rad, y_rad, area);
     free(x_rad);
     free(y_rad);
-    free(cart_x);
-    free(cart_y);
-    free(cart_z);
   }
   else {
     for(j=*jsc;j<=*jec;j++){
-- 
2.43.0


From 90ac3f567d81cf31fccf9f6bbc28548c288416f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:11 +0000
Subject: [PATCH 037/148] fix: make_hgrid from_file read unset coordinates from
 a short ascii file

A file with fewer values than nlon+1 and nlat+1 gave a grid of uninitialised
numbers and exit status 0.
---
 src/make-hgrid/create_grid_from_file.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/make-hgrid/create_grid_from_file.c b/src/make-hgrid/create_grid_from_file.c
index 4c62895..bb852b0 100644
--- a/src/make-hgrid/create_grid_from_file.c
+++ b/src/make-hgrid/create_grid_from_file.c
@@ -262,9 +262,12 @@ void create_grid_from_text_file( char *file, int *nlon, int *nlat, double *x, do
   xb = (double *) malloc(nxp*sizeof(double));
   yb = (double *) malloc(nyp*sizeof(double));
   for(i=0;i<nxp;i++)
-    fscanf(pFile, "%lg", xb+i); /* longitude */
+    if(fscanf(pFile, "%lg", xb+i) != 1) /* longitude */
+      mpp_error("create_grid_from_file: the ascii file has fewer than nlon+1 x-direction values");
   fscanf(pFile, "%s%*[^\n]",txt); /* header line (ignored) */
-  for(j=0;j<nyp;j++) fscanf(pFile, "%lg", yb+j); /* latitude */
+  for(j=0;j<nyp;j++)
+    if(fscanf(pFile, "%lg", yb+j) != 1) /* latitude */
+      mpp_error("create_grid_from_file: the ascii file has fewer than nlat+1 y-direction values");
 
   fclose(pFile);
   n=0;
-- 
2.43.0


From 4edafcf1a1875a48d4f5911b2fdd7903d89ac585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:11 +0000
Subject: [PATCH 038/148] fix: make_hgrid cubic grids were always shifted by 10
 degrees, whatever --shift_fac said

---
 src/make-hgrid/create_gnomonic_cubic_grid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-hgrid/create_gnomonic_cubic_grid.c b/src/make-hgrid/create_gnomonic_cubic_grid.c
index addeb31..2368b10 100644
--- a/src/make-hgrid/create_gnomonic_cubic_grid.c
+++ b/src/make-hgrid/create_gnomonic_cubic_grid.c
@@ -342,7 +342,7 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   // Operate only on the 6 parent tiles
   for(n=0; n<ntiles*nip*nip; n++) {
     /* This will result in the corner close to east coast of china */
-    if( do_schmidt == 0 && do_cube_transform == 0 && shift_fac > EPSLN4) xc[n] -= M_PI/18.;
+    if( do_schmidt == 0 && do_cube_transform == 0 && shift_fac > EPSLN4) xc[n] -= M_PI/shift_fac;
     if(xc[n] < 0.) xc[n] += 2.*M_PI;
     if(fabs(xc[n]) < EPSLN10) xc[n] = 0;
     if(fabs(yc[n]) < EPSLN10) yc[n] = 0;
@@ -870,7 +870,7 @@ void create_gnomonic_cubic_grid_GR( char* grid_type, int *nlon, int *nlat, doubl
 
   for(n=0; n<ntiles*nip*nip; n++) {
     /* This will result in the corner close to east coast of china */
-    if( do_schmidt == 0 && do_cube_transform==0 && shift_fac > EPSLN4) xc[n] -= M_PI/18.;
+    if( do_schmidt == 0 && do_cube_transform==0 && shift_fac > EPSLN4) xc[n] -= M_PI/shift_fac;
     if(xc[n] < 0.) xc[n] += 2.*M_PI;
     if(fabs(xc[n]) < EPSLN10) xc[n] = 0;
     if(fabs(yc[n]) < EPSLN10) yc[n] = 0;
-- 
2.43.0


From 4db1671ac4795c91b180d1f94a5d92cf92cad907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:11 +0000
Subject: [PATCH 039/148] fix: make_hgrid cubic suggest_target_lats read
 outside the grid

---
 src/make-hgrid/create_gnomonic_cubic_grid.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/make-hgrid/create_gnomonic_cubic_grid.c b/src/make-hgrid/create_gnomonic_cubic_grid.c
index 2368b10..74b13cc 100644
--- a/src/make-hgrid/create_gnomonic_cubic_grid.c
+++ b/src/make-hgrid/create_gnomonic_cubic_grid.c
@@ -1354,9 +1354,10 @@ void suggest_target_lats(double stretch_factor, int i1, int i2, int j1, int j2,
     for a given stretch factor. We search the initial grid points near what we found previously for
     N and S separately to find a suitable target latitude so that the final grid includes both poles. 
   */
+  if(NPtile < 0 || SPtile < 0) return; /* no grid point near the pre-images of both poles */
   f=(c2p1/c2m1 + c2m1/c2p1);
-  for(in=NPi-10; in<=NPi+10; in++) {
-     for(is=SPi-10; is<=SPi+10; is++) {
+  for(in=max(NPi-10,i1); in<=min(NPi+10,i2); in++) {
+     for(is=max(SPi-10,i1); is<=min(SPi+10,i2); is++) {
 	  ln = NPtile*nip*nip + NPj*nxp+in;
 	  ls = SPtile*nip*nip + SPj*nxp+is;
 	  b = -2*(1.0+sin(lat[ln])*sin(lat[ls]))/(sin(lat[ln])+sin(lat[ls]));         
-- 
2.43.0


From 1e90e788951a39b0536c3430246aaa6d82abe4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:11 +0000
Subject: [PATCH 040/148] fix: make_hgrid cubic conformal grids had unset
 lengths and areas on tiles 2 to 6

---
 src/make-hgrid/create_conformal_cubic_grid.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/make-hgrid/create_conformal_cubic_grid.c b/src/make-hgrid/create_conformal_cubic_grid.c
index 5ee2399..8f39927 100644
--- a/src/make-hgrid/create_conformal_cubic_grid.c
+++ b/src/make-hgrid/create_conformal_cubic_grid.c
@@ -644,6 +644,13 @@ void calc_fvgrid(int nx, int ny, int nratio, double *dx, double *dy, double *are
   for(j=0;j<ny;j++)
     for(i=0;i<nxp;i++) dy[j*nxp+i] =  dx[i*nx+j] ;
 
+  /* all the faces have the same lengths and areas */
+  for(n=1; n<6; n++) {
+    for(i=0; i<nx*nyp; i++) dx[n*nx*nyp+i] = dx[i];
+    for(i=0; i<nxp*ny; i++) dy[n*nxp*ny+i] = dy[i];
+    for(i=0; i<nx*ny; i++) area[n*nx*ny+i] = area[i];
+  }
+
 }; /* calc_fvgrid */
 
 
-- 
2.43.0


From 0beb0d0808084a2d032b5bd69f645029f5472604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:10 +0000
Subject: [PATCH 041/148] fix: make_hgrid cubic grids with --out_halo had wrong
 lengths in the east and west halo

---
 src/make-hgrid/make_hgrid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-hgrid/make_hgrid.c b/src/make-hgrid/make_hgrid.c
index df1d35b..0ea5973 100644
--- a/src/make-hgrid/make_hgrid.c
+++ b/src/make-hgrid/make_hgrid.c
@@ -478,7 +478,7 @@ void fill_cubic_grid_halo(int nx, int ny, int halo, double *data, double *data1_
     ln = (tile+ntiles+1)%ntiles;
     for(j=1; j<=nyp; j++) {
       data[j*nxph] = data1_all[lw*nxp*nyp+(j-1)*nxp+nx-1]; /* west halo */
-      data[j*nxph+nxp+1] = data2_all[le*nxp*nyp+ioff*nxp+nyp-j]; /*east halo */
+      data[j*nxph+nxp+1] = data2_all[le*nxp*nyp+ioff*nyp+nyp-j]; /*east halo */
     }
 
     for(i=1; i<=nxp; i++) {
@@ -492,7 +492,7 @@ void fill_cubic_grid_halo(int nx, int ny, int halo, double *data, double *data1_
     ls = (tile+ntiles-1)%ntiles;
     ln = (tile+ntiles+2)%ntiles;
     for(j=1; j<=nyp; j++) {
-      data[j*nxph] = data2_all[lw*nxp*nyp+(ny-1)*nxp+nyp-j]; /* west halo */
+      data[j*nxph] = data2_all[lw*nxp*nyp+(ny-1)*nyp+nyp-j]; /* west halo */
       data[j*nxph+nxp+1] = data1_all[le*nxp*nyp+(j-1)*nxp+ioff]; /*east halo */
     }
 
-- 
2.43.0


From b521c4eebbfbd3494efe3e782567582c214b757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:10 +0000
Subject: [PATCH 042/148] fix: make_hgrid cubic grids with several nests had
 wrong dy next to a rectangular nest

---
 src/make-hgrid/create_gnomonic_cubic_grid.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/make-hgrid/create_gnomonic_cubic_grid.c b/src/make-hgrid/create_gnomonic_cubic_grid.c
index 74b13cc..bd592c1 100644
--- a/src/make-hgrid/create_gnomonic_cubic_grid.c
+++ b/src/make-hgrid/create_gnomonic_cubic_grid.c
@@ -127,10 +127,11 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   int *tile_offset=NULL;
   int *tile_offset_supergrid=NULL;
   int *tile_offset_supergrid_m=NULL;
+  int *tile_offset_dy=NULL;
   int *tile_offset_area=NULL;
 
   long i, j, n, npts, nn;
-  long npts_supergrid, npts_supergrid_m, npts_area;
+  long npts_supergrid, npts_supergrid_m, npts_dy, npts_area;
 
   double p1[2], p2[2];
   double *lon=NULL, *lat=NULL;
@@ -247,6 +248,7 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   tile_offset = (int *)malloc(ntiles2*sizeof(int));
   tile_offset_supergrid = (int *)malloc(ntiles2*sizeof(int));
   tile_offset_supergrid_m = (int *)malloc(ntiles2*sizeof(int));
+  tile_offset_dy = (int *)malloc(ntiles2*sizeof(int));
   tile_offset_area = (int *)malloc(ntiles2*sizeof(int));
 
   for(n=0; n<ntiles; n++) {
@@ -303,12 +305,14 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   npts = 0;
   npts_supergrid = 0;
   npts_supergrid_m = 0;
+  npts_dy = 0;
   npts_area = 0;
 
   for (n=0; n<ntiles2; n++) {
     tile_offset[n] = npts;
     tile_offset_supergrid[n] = npts_supergrid;
     tile_offset_supergrid_m[n] = npts_supergrid_m;
+    tile_offset_dy[n] = npts_dy;
     tile_offset_area[n] = npts_area;
 
     if (verbose) {
@@ -319,7 +323,8 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
 
     npts += (nil[n] + 1) * (njl[n] + 1);
     npts_supergrid += (nxl[n] + 1) * (nyl[n] + 1);
-    npts_supergrid_m += nxl[n] * (nyl[n] + 1);    // needed for grids of dx, dy
+    npts_supergrid_m += nxl[n] * (nyl[n] + 1);    // needed for grid of dx
+    npts_dy += (nxl[n] + 1) * nyl[n];    // needed for grid of dy
     npts_area += nxl[n] * nyl[n];    // needed for area
   }
 
@@ -602,12 +607,12 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
             p2[0] = x[tile_offset_supergrid[n] + (j+1)*(nxl[n]+1)+i];
             p2[1] = y[tile_offset_supergrid[n] + (j+1)*(nxl[n]+1)+i];
 
-            dy[tile_offset_supergrid_m[n] + j*(nxl[n]+1)+i] = great_circle_distance(p1, p2);
+            dy[tile_offset_dy[n] + j*(nxl[n]+1)+i] = great_circle_distance(p1, p2);
           } /* i <= nxl[n] */
         } /* j < nyl[n] */
       } else /* (!(stretched_grid || n >= 6)) */ {
         for(j=0; j<nyp; j++) {
-          for(i=0; i<nx; i++) dy[tile_offset_supergrid_m[n] + i*nxp+j] = dx[tile_offset_supergrid_m[n] + j*nx+i];
+          for(i=0; i<nx; i++) dy[tile_offset_dy[n] + i*nxp+j] = dx[tile_offset_supergrid_m[n] + j*nx+i];
         }
       } /* else (!(stretched_grid || n >= 6)) */
     } /* n < ntiles2 */
@@ -733,6 +738,7 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   free(tile_offset);
   free(tile_offset_supergrid);
   free(tile_offset_supergrid_m);
+  free(tile_offset_dy);
   free(tile_offset_area);
   free(lon);
   free(lat);
-- 
2.43.0


From a5c013b7f7e2fd0775be4a41db306326d3770539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:45 +0000
Subject: [PATCH 043/148] fix: make_hgrid cubic --out_halo wrote wrong data for
 nests

---
 src/make-hgrid/make_hgrid.c | 42 +++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/make-hgrid/make_hgrid.c b/src/make-hgrid/make_hgrid.c
index 0ea5973..7f6daf4 100644
--- a/src/make-hgrid/make_hgrid.c
+++ b/src/make-hgrid/make_hgrid.c
@@ -1177,6 +1177,8 @@ int main(int argc, char* argv[])
     pos_t = 0;
     pos_n = 0;
     for(n=0 ; n< ntiles; n++) {
+      /* a nest has no neighbour tile to take halo data from */
+      const int nhalo = (n < ntiles_global) ? out_halo : 0;
 
       sprintf(tilename, "tile%d", n+1);
       if(ntiles>1)
@@ -1194,10 +1196,10 @@ int main(int argc, char* argv[])
       nxp = nx+1;
       nyp = ny+1;
       dimlist[0] = mpp_def_dim(fid, "string", STRINGLEN);
-      dimlist[1] = mpp_def_dim(fid, "nx", nx+2*out_halo);
-      dimlist[2] = mpp_def_dim(fid, "ny", ny+2*out_halo);
-      dimlist[3] = mpp_def_dim(fid, "nxp", nxp+2*out_halo);
-      dimlist[4] = mpp_def_dim(fid, "nyp", nyp+2*out_halo);
+      dimlist[1] = mpp_def_dim(fid, "nx", nx+2*nhalo);
+      dimlist[2] = mpp_def_dim(fid, "ny", ny+2*nhalo);
+      dimlist[3] = mpp_def_dim(fid, "nxp", nxp+2*nhalo);
+      dimlist[4] = mpp_def_dim(fid, "nyp", nyp+2*nhalo);
       /* define variable */
       if( strcmp(north_pole_tile, "none") == 0) /* no north pole, then no projection */
         id_tile = mpp_def_var(fid, "tile", MPP_CHAR, 1, dimlist, 4, "standard_name", "grid_tile_spec",
@@ -1214,33 +1216,33 @@ int main(int argc, char* argv[])
       dims[0] = dimlist[4]; dims[1] = dimlist[3];
       id_x = mpp_def_var(fid, "x", MPP_DOUBLE, 2, dims, 2, "standard_name", "geographic_longitude",
                          "units", "degree_east");
-      if(out_halo>0) mpp_def_var_att_double(fid, id_x, "_FillValue", MISSING_VALUE);
+      if(nhalo>0) mpp_def_var_att_double(fid, id_x, "_FillValue", MISSING_VALUE);
       id_y = mpp_def_var(fid, "y", MPP_DOUBLE, 2, dims, 2, "standard_name", "geographic_latitude",
                          "units", "degree_north");
-      if(out_halo>0) mpp_def_var_att_double(fid, id_y, "_FillValue", MISSING_VALUE);
+      if(nhalo>0) mpp_def_var_att_double(fid, id_y, "_FillValue", MISSING_VALUE);
       if (output_length_angle) {
         dims[0] = dimlist[4]; dims[1] = dimlist[1];
         id_dx = mpp_def_var(fid, "dx", MPP_DOUBLE, 2, dims, 2, "standard_name", "grid_edge_x_distance",
                             "units", "meters");
-        if(out_halo>0) mpp_def_var_att_double(fid, id_dx, "_FillValue", MISSING_VALUE);
+        if(nhalo>0) mpp_def_var_att_double(fid, id_dx, "_FillValue", MISSING_VALUE);
         dims[0] = dimlist[2]; dims[1] = dimlist[3];
         id_dy = mpp_def_var(fid, "dy", MPP_DOUBLE, 2, dims, 2, "standard_name", "grid_edge_y_distance",
                             "units", "meters");
-        if(out_halo>0) mpp_def_var_att_double(fid, id_dy, "_FillValue", MISSING_VALUE);
+        if(nhalo>0) mpp_def_var_att_double(fid, id_dy, "_FillValue", MISSING_VALUE);
       }
       dims[0] = dimlist[2]; dims[1] = dimlist[1];
       id_area = mpp_def_var(fid, "area", MPP_DOUBLE, 2, dims, 2, "standard_name", "grid_cell_area",
                             "units", "m2" );
-      if(out_halo>0) mpp_def_var_att_double(fid, id_area, "_FillValue", MISSING_VALUE);
+      if(nhalo>0) mpp_def_var_att_double(fid, id_area, "_FillValue", MISSING_VALUE);
       if (output_length_angle) {
         dims[0] = dimlist[4]; dims[1] = dimlist[3];
         id_angle_dx = mpp_def_var(fid, "angle_dx", MPP_DOUBLE, 2, dims, 2, "standard_name",
                                   "grid_vertex_x_angle_WRT_geographic_east", "units", "degrees_east");
-        if(out_halo>0) mpp_def_var_att_double(fid, id_angle_dx, "_FillValue", MISSING_VALUE);
+        if(nhalo>0) mpp_def_var_att_double(fid, id_angle_dx, "_FillValue", MISSING_VALUE);
         if(strcmp(conformal, "true") != 0) {
           id_angle_dy = mpp_def_var(fid, "angle_dy", MPP_DOUBLE, 2, dims, 2, "standard_name",
                                     "grid_vertex_y_angle_WRT_geographic_north", "units", "degrees_north");
-          if(out_halo>0) mpp_def_var_att_double(fid, id_angle_dy, "_FillValue", MISSING_VALUE);
+          if(nhalo>0) mpp_def_var_att_double(fid, id_angle_dy, "_FillValue", MISSING_VALUE);
         }
       }
       if( strcmp(north_pole_arcx, "none") == 0)
@@ -1257,7 +1259,7 @@ int main(int argc, char* argv[])
       nwrite[0] = strlen(tilename);
       mpp_put_var_value_block(fid, id_tile, start, nwrite, tilename );
 
-      if(out_halo ==0) {
+      if(nhalo ==0) {
         if (verbose) {
           fprintf(stderr, "[INFO] START NC XARRAY write out_halo=0 tile number = n: %d offset = pos_c: %ld\n", n, pos_c);
           fprintf(stderr, "[INFO] XARRAY: n: %d x[0]: %f x[1]: %f x[2]: %f x[3]: %f x[4]: %f x[5]: %f x[10]: %f\n",
@@ -1281,27 +1283,27 @@ int main(int argc, char* argv[])
       else {
         double *tmp;
 
-        tmp = (double *)malloc((nxp+2*out_halo)*(nyp+2*out_halo)*sizeof(double));
+        tmp = (double *)malloc((nxp+2*nhalo)*(nyp+2*nhalo)*sizeof(double));
         if (verbose) fprintf(stderr, "[INFO] INDEX NC write with halo tile number = n: %d \n", n);
 
-        fill_cubic_grid_halo(nx,ny,out_halo,tmp,x,x,n,1,1);
+        fill_cubic_grid_halo(nx,ny,nhalo,tmp,x,x,n,1,1);
         mpp_put_var_value(fid, id_x, tmp);
-        fill_cubic_grid_halo(nx,ny,out_halo,tmp,y,y,n,1,1);
+        fill_cubic_grid_halo(nx,ny,nhalo,tmp,y,y,n,1,1);
         mpp_put_var_value(fid, id_y, tmp);
         if (output_length_angle) {
-          fill_cubic_grid_halo(nx,ny,out_halo,tmp,angle_dx,angle_dx,n,1,1);
+          fill_cubic_grid_halo(nx,ny,nhalo,tmp,angle_dx,angle_dx,n,1,1);
           mpp_put_var_value(fid, id_angle_dx, tmp);
           if(strcmp(conformal, "true") != 0) {
-            fill_cubic_grid_halo(nx,ny,out_halo,tmp,angle_dy,angle_dy,n,1,1);
+            fill_cubic_grid_halo(nx,ny,nhalo,tmp,angle_dy,angle_dy,n,1,1);
             mpp_put_var_value(fid, id_angle_dy, tmp);
           }
 
-          fill_cubic_grid_halo(nx,ny,out_halo,tmp,dx,dy,n,0,1);
+          fill_cubic_grid_halo(nx,ny,nhalo,tmp,dx,dy,n,0,1);
           mpp_put_var_value(fid, id_dx, tmp);
-          fill_cubic_grid_halo(nx,ny,out_halo,tmp,dy,dx,n,1,0);
+          fill_cubic_grid_halo(nx,ny,nhalo,tmp,dy,dx,n,1,0);
           mpp_put_var_value(fid, id_dy, tmp);
         }
-        fill_cubic_grid_halo(nx,ny,out_halo,tmp,area,area,n,0,0);
+        fill_cubic_grid_halo(nx,ny,nhalo,tmp,area,area,n,0,0);
         mpp_put_var_value(fid, id_area, tmp);
         free(tmp);
       }
-- 
2.43.0


From bdf12cda50fe48a67703160194afe16d833f9ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:05 +0000
Subject: [PATCH 044/148] fix: make_hgrid cubic conformal grid of odd size was
 written with unset values

---
 src/make-hgrid/create_conformal_cubic_grid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/make-hgrid/create_conformal_cubic_grid.c b/src/make-hgrid/create_conformal_cubic_grid.c
index 8f39927..7d8616b 100644
--- a/src/make-hgrid/create_conformal_cubic_grid.c
+++ b/src/make-hgrid/create_conformal_cubic_grid.c
@@ -59,6 +59,7 @@ void create_conformal_cubic_grid( int *npts, int *nratio, char *method, char *or
   ny  = nx;
   nxp = nx+1;
   nyp = nxp;
+  if( nx%2 ) mpp_error("create_conformal_cubic_grid: supergrid size should be divided by 2");
 
   /*calculate geographic coordinates. */
   if(strcmp(orientation, "center_pole") == 0)
-- 
2.43.0


From 9392146be0a237e866074586780067c31a83fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:31 +0000
Subject: [PATCH 045/148] fix: a command line longer than the history buffer
 overflowed the stack (make_*, fregrid, remap_land, river and runoff regrid)

---
 src/cubic_utils/make_remap_file.c               | 7 ++++---
 src/fre-grid/fregrid.c                          | 9 +++++----
 src/make-coupler-mosaic/make_coupler_mosaic.c   | 7 ++++---
 src/make-hgrid/make_hgrid.c                     | 7 ++++---
 src/make-land-domain/make_land_domain.c         | 7 ++++---
 src/make-quick-mosaic/make_quick_mosaic.c       | 7 ++++---
 src/make-regional-mosaic/make_regional_mosaic.c | 7 ++++---
 src/make-solo-mosaic/make_solo_mosaic.c         | 7 ++++---
 src/make-topog/make_topog.c                     | 7 ++++---
 src/make-vgrid/make_vgrid.c                     | 7 ++++---
 src/remap-land/remap_land.c                     | 7 ++++---
 src/river-regrid/river_regrid.c                 | 7 ++++---
 src/runoff-regrid/runoff_regrid.c               | 7 ++++---
 13 files changed, 53 insertions(+), 40 deletions(-)

diff --git a/src/cubic_utils/make_remap_file.c b/src/cubic_utils/make_remap_file.c
index a8a9b66..01894d7 100644
--- a/src/cubic_utils/make_remap_file.c
+++ b/src/cubic_utils/make_remap_file.c
@@ -189,11 +189,12 @@ int main(int argc, char* argv[])
   /* define history to be the history in the grid file */
   {
     int i;
-    strcpy(history,argv[0]);
+    history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
 
     for(i=1;i<argc;i++) {
-      strcat(history, " ");
-      strcat(history, argv[i]);
+      strncat(history, " ", sizeof(history)-strlen(history)-1);
+      strncat(history, argv[i], sizeof(history)-strlen(history)-1);
     }
   }
   /* get the mosaic information of input and output mosaic*/
diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index e2911df..5381a9a 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -676,18 +676,19 @@ int main(int argc, char* argv[])
     mpp_error("fregrid: deflation must be between 0 (off) and 9");
 
   /* define history to be the history in the grid file */
-  strcpy(history,argv[0]);
+  history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
 
   for(i=1;i<argc;i++) {
-    strcat(history, " ");
+    strncat(history, " ", sizeof(history)-strlen(history)-1);
     if(strlen(argv[i]) > MAXENTRY) { /* limit the size of each entry, here we are assume the only entry that is longer than
 					MAXENTRY= 256 is the option --scalar_field --u_field and v_field */
       if(strcmp(argv[i-1], "--scalar_field") && strcmp(argv[i-1], "--u_field") && strcmp(argv[i-1], "--v_field") )
 	mpp_error("fregrid: the entry ( is not scalar_field, u_field, v_field ) is too long, need to increase parameter MAXENTRY");
-      strcat(history, "(**please see the field list in this file**)" );
+      strncat(history, "(**please see the field list in this file**)", sizeof(history)-strlen(history)-1);
     }
     else
-      strcat(history, argv[i]);
+      strncat(history, argv[i], sizeof(history)-strlen(history)-1);
   }
 
 {
diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index f1c424a..035f61c 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -497,11 +497,12 @@ int main (int argc, char *argv[])
   /* interp_order should be 1 or 2 */
   if(interp_order != 1 && interp_order !=2 )mpp_error("make_coupler_mosaic: interp_order should be 1 or 2");
 
-  strcpy(history,argv[0]);
+  history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
 
   for(i=1;i<argc;i++) {
-    strcat(history, " ");
-    strcat(history, argv[i]);
+    strncat(history, " ", sizeof(history)-strlen(history)-1);
+    strncat(history, argv[i], sizeof(history)-strlen(history)-1);
   }
 
   /*if lmosaic is not specifiied, assign amosaic value to it */
diff --git a/src/make-hgrid/make_hgrid.c b/src/make-hgrid/make_hgrid.c
index 7f6daf4..8a57a73 100644
--- a/src/make-hgrid/make_hgrid.c
+++ b/src/make-hgrid/make_hgrid.c
@@ -773,10 +773,11 @@ int main(int argc, char* argv[])
   }
 
   /* define history to be the history in the grid file */
-  strcpy(history,argv[0]);
+  history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
   for(i=1;i<argc;i++) {
-    strcat(history, " ");
-    strcat(history, argv[i]);
+    strncat(history, " ", sizeof(history)-strlen(history)-1);
+    strncat(history, argv[i], sizeof(history)-strlen(history)-1);
   }
 
   if(rotate_poly) set_rotate_poly_true();
diff --git a/src/make-land-domain/make_land_domain.c b/src/make-land-domain/make_land_domain.c
index c8a06ab..bc054b0 100644
--- a/src/make-land-domain/make_land_domain.c
+++ b/src/make-land-domain/make_land_domain.c
@@ -292,10 +292,11 @@ int main(int argc, char* argv[])
     int id_nland_face, id_grid_index, id_grid_ntile;
     int n;
 
-    strcpy(history,argv[0]);
+    history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
     for(n=1;n<argc;n++) {
-      strcat(history, " ");
-      strcat(history, argv[n]);
+      strncat(history, " ", sizeof(history)-strlen(history)-1);
+      strncat(history, argv[n], sizeof(history)-strlen(history)-1);
     }
 
 
diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index bb3f4eb..ea59e2c 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -166,11 +166,12 @@ int main (int argc, char *argv[])
     exit(2);
   }
 
-  strcpy(history,argv[0]);
+  history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
 
   for(i=1;i<argc;i++) {
-    strcat(history, " ");
-    strcat(history, argv[i]);
+    strncat(history, " ", sizeof(history)-strlen(history)-1);
+    strncat(history, argv[i], sizeof(history)-strlen(history)-1);
   }
 
   /*When ocean_topog specified, input_mosaic is a solo mosaic and will use ocean_topog,
diff --git a/src/make-regional-mosaic/make_regional_mosaic.c b/src/make-regional-mosaic/make_regional_mosaic.c
index 6401f74..42d25d8 100644
--- a/src/make-regional-mosaic/make_regional_mosaic.c
+++ b/src/make-regional-mosaic/make_regional_mosaic.c
@@ -123,11 +123,12 @@ int main(int argc, char* argv[])
     exit(2);
   }
 
-  strcpy(history,argv[0]);
+  history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
 
   for(i=1;i<argc;i++) {
-    strcat(history, " ");
-    strcat(history, argv[i]);
+    strncat(history, " ", sizeof(history)-strlen(history)-1);
+    strncat(history, argv[i], sizeof(history)-strlen(history)-1);
   }
 
 
diff --git a/src/make-solo-mosaic/make_solo_mosaic.c b/src/make-solo-mosaic/make_solo_mosaic.c
index cf81a74..c7bace2 100644
--- a/src/make-solo-mosaic/make_solo_mosaic.c
+++ b/src/make-solo-mosaic/make_solo_mosaic.c
@@ -161,11 +161,12 @@ int main (int argc, char *argv[])
     exit(2);
   }
 
-  strcpy(history,argv[0]);
+  history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
 
   for(i=1;i<argc;i++) {
-    strcat(history, " ");
-    strcat(history, argv[i]);
+    strncat(history, " ", sizeof(history)-strlen(history)-1);
+    strncat(history, argv[i], sizeof(history)-strlen(history)-1);
   }
 
   if(ntiles > MAXTILE) {
diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index 522fe6b..95d2dba 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -668,11 +668,12 @@ int main(int argc, char* argv[])
        in output file to specify the command line arguments
     */
 
-    strcpy(history,argv[0]);
+    history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
 
     for(i=1;i<argc;i++) {
-      strcat(history, " ");
-      strcat(history, argv[i]);
+      strncat(history, " ", sizeof(history)-strlen(history)-1);
+      strncat(history, argv[i], sizeof(history)-strlen(history)-1);
     }
 
     /* grid should be located in the same directory of mosaic file */
diff --git a/src/make-vgrid/make_vgrid.c b/src/make-vgrid/make_vgrid.c
index 0b9b06a..1931a6c 100644
--- a/src/make-vgrid/make_vgrid.c
+++ b/src/make-vgrid/make_vgrid.c
@@ -223,11 +223,12 @@ int main(int argc, char* argv[])
   }
 
   /* define history to be the history in the grid file */
-  strcpy(history,argv[0]);
+  history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
 
   for(i=1;i<argc;i++) {
-    strcat(history, " ");
-    strcat(history, argv[i]);
+    strncat(history, " ", sizeof(history)-strlen(history)-1);
+    strncat(history, argv[i], sizeof(history)-strlen(history)-1);
   }
 
   sprintf(filename, "%s.nc", gridname);
diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 4b52a64..e4d77e3 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1057,10 +1057,11 @@ int main(int argc, char *argv[]) {
 
   /* define history attribute */
   {
-    strcpy(history, argv[0]);
+    history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
     for (int n = 1; n < argc; n++) {
-      strcat(history, " ");
-      strcat(history, argv[n]);
+      strncat(history, " ", sizeof(history)-strlen(history)-1);
+      strncat(history, argv[n], sizeof(history)-strlen(history)-1);
     }
   }
 
diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index 0cc8dd2..66bc976 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -234,10 +234,11 @@ int main(int argc, char* argv[])
   if( !mosaic_file    ) mpp_error("fregrid: mosaic_grid is not specified");
   if( !river_src_file ) mpp_error("fregrid: river_source_file is not specified");
 
-  strcpy(history,argv[0]);
+  history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
   for(n=1;n<argc;n++)  {
-    strcat(history, " ");
-    strcat(history, argv[n]);
+    strncat(history, " ", sizeof(history)-strlen(history)-1);
+    strncat(history, argv[n], sizeof(history)-strlen(history)-1);
   }
 
 #ifdef test_qsort
diff --git a/src/runoff-regrid/runoff_regrid.c b/src/runoff-regrid/runoff_regrid.c
index 206dfc0..3608437 100644
--- a/src/runoff-regrid/runoff_regrid.c
+++ b/src/runoff-regrid/runoff_regrid.c
@@ -208,11 +208,12 @@ int main(int argc, char* argv[])
   if(!output_fld_name) output_fld_name = default_fld_name;
 
   /* define history to be the history in the grid file */
-  strcpy(history,argv[0]);
+  history[0] = '\0';
+  strncat(history, argv[0], sizeof(history)-1);
 
   for(i=1;i<argc;i++) {
-    strcat(history, " ");
-    strcat(history, argv[i]);
+    strncat(history, " ", sizeof(history)-strlen(history)-1);
+    strncat(history, argv[i], sizeof(history)-strlen(history)-1);
   }
 
   /* get input grid */
-- 
2.43.0


From 520fa2fe70a823e8b3756b0409fb26df4573e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:49 +0000
Subject: [PATCH 046/148] fix: great-circle clipping took the crossing
 direction from chords and could lose an overlap

---
 lib/libfrencutils/create_xgrid.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/lib/libfrencutils/create_xgrid.c b/lib/libfrencutils/create_xgrid.c
index e2959c8..28170de 100644
--- a/lib/libfrencutils/create_xgrid.c
+++ b/lib/libfrencutils/create_xgrid.c
@@ -1942,7 +1942,7 @@ int line_intersect_2D_3D(double *a1, double *a2, double *q1, double *q2, double
   double plane[9];
   double plane_p[2];
   double u;
-  double p1[3], v1[3], v2[3];
+  double p1[3];
   double c1[3], c2[3], c3[3];
   double coincident, sense, norm;
   int    i;
@@ -2072,20 +2072,14 @@ int line_intersect_2D_3D(double *a1, double *a2, double *q1, double *q2, double
   /* when u_q =0 or u_q =1, the following could not decide the inbound value */
   if(*u_q != 0 && *u_q != 1){
 
+    /* the interior of (q1,q2,q3) and the direction of (a1,a2), seen from the
+       plane of the great circle (q1,q2); the chords themselves do not lie in
+       the surface and can point to the wrong side */
     p1[0] = a2[0]-a1[0];
     p1[1] = a2[1]-a1[1];
     p1[2] = a2[2]-a1[2];
-    v1[0] = q2[0]-q1[0];
-    v1[1] = q2[1]-q1[1];
-    v1[2] = q2[2]-q1[2];
-    v2[0] = q3[0]-q2[0];
-    v2[1] = q3[1]-q2[1];
-    v2[2] = q3[2]-q2[2];
 
-    vect_cross(v1, v2, c1);
-    vect_cross(v1, p1, c2);
-
-    sense = dot(c1, c2);
+    sense = dot(c2, q3) * dot(c2, p1);
     *inbound = 1;
     if(sense > 0) *inbound = 2; /* v1 going into v2 in CCW sense */
   }
-- 
2.43.0


From afa0d61458ac9c141c677a08054862c79562598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:11 +0000
Subject: [PATCH 047/148] fix: fregrid could not write levels selected with
 KlevelBegin above 1

---
 src/fre-grid/fregrid_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index bc1094b..c363360 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2363,7 +2363,7 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
     if(level_z < 0)
       nwrite[pos++] = nz;
     else
-      start[pos++] = level_z;
+      start[pos++] = level_z - field->var[varid].kstart; /* the output holds levels kstart to kend only */
   }
   if(ndim != pos + 2) mpp_error("fregrid_util(write_field_data): mimstch between ndim and has_taxis/has_zaxis/has_naxis");
 
-- 
2.43.0


From 1558bc6d2c698653aef02b1ecda2ffc1a9b1d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:11 +0000
Subject: [PATCH 048/148] fix: fregrid on several processes packed data beyond
 its part of the field

---
 src/fre-grid/fregrid_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index c363360..b35bbe2 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2376,11 +2376,11 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
     data_size = nx*ny*nz;
 
     if(field[n].var[varid].offset != 0) {
-      for(i=0; i<nx*ny*nz; i++)
+      for(i=0; i<grid[n].nxc*grid[n].nyc*nz; i++)
 	if(field[n].data[i] != missing_value) field[n].data[i] -= field[n].var[varid].offset;
     }
     if(field[n].var[varid].scale != 0) {
-      for(i=0; i<nx*ny*nz; i++)
+      for(i=0; i<grid[n].nxc*grid[n].nyc*nz; i++)
 	if(field[n].data[i] != missing_value) field[n].data[i] /= field[n].var[varid].scale;
     }
 
-- 
2.43.0


From 75d68ba5e82067bd96400057d016669b9b985bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:11 +0000
Subject: [PATCH 049/148] fix: fregrid truncated integer fields, so that a
 constant could change by one

---
 src/fre-grid/fregrid_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index b35bbe2..dd2a880 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2396,13 +2396,13 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
     switch(field[n].var[varid].type) {
     case NC_SHORT:
       data_i2 = (short *)malloc(data_size*sizeof(short));
-      for(i=0; i<data_size; i++) data_i2[i] = (short)gdata[i];
+      for(i=0; i<data_size; i++) data_i2[i] = (short)rint(gdata[i]);
       if(mpp_pe() == mpp_root_pe()) mpp_put_var_value_block(*(field[n].fid), field[n].var[varid].vid, start, nwrite, data_i2);
       free(data_i2);
       break;
     case NC_INT:
       data_i4 = (int *)malloc(data_size*sizeof(int));
-      for(i=0; i<data_size; i++) data_i4[i] = (int)gdata[i];
+      for(i=0; i<data_size; i++) data_i4[i] = (int)rint(gdata[i]);
       if(mpp_pe() == mpp_root_pe()) mpp_put_var_value_block(*(field[n].fid), field[n].var[varid].vid, start, nwrite, data_i4);
       free(data_i4);
       break;
-- 
2.43.0


From 241f85ad8c0e6e91f972bacbec8b57e1d0039bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:11 +0000
Subject: [PATCH 050/148] fix: fregrid left zeros of packed fields without a
 missing value unscaled

---
 src/fre-grid/fregrid_util.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index dd2a880..cc67a8f 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1931,6 +1931,7 @@ void copy_field_attribute( int ntiles_out, Field_config *field_in, Field_config
 
   for(n=0; n<ntiles_out; n++)
     for(l=0; l<field_out->nvar; l++) {
+      field_out[n].var[l].has_missing = field_in->var[l].has_missing;
       field_out[n].var[l].missing = field_in->var[l].missing;
       field_out[n].var[l].scale   = field_in->var[l].scale;
       field_out[n].var[l].offset  = field_in->var[l].offset;
@@ -2043,10 +2044,11 @@ void get_input_data(int ntiles, Field_config *field, Grid_config *grid, Bound_co
   short       *data_i2;
   int         *data_i4;
   Data_holder *dHold;
-  int         interp_method;
+  int         interp_method, has_missing;
   double      missing_value;
   size_t      start2[4], nread2[4];
 
+  has_missing = field->var[varid].has_missing || extrapolate; /* extrapolation clears has_missing */
   missing_value = field->var[varid].missing;
   interp_method = field->var[varid].interp_method;
   if(interp_method == CONSERVE_ORDER1)
@@ -2116,11 +2118,11 @@ void get_input_data(int ntiles, Field_config *field, Grid_config *grid, Bound_co
 
     if(field[n].var[varid].scale != 0) {
       for(i=0; i<nx*ny*nz; i++)
-	if(data[i] != missing_value) data[i] *= field[n].var[varid].scale;
+	if(!has_missing || data[i] != missing_value) data[i] *= field[n].var[varid].scale;
     }
     if(field[n].var[varid].offset != 0) {
       for(i=0; i<nx*ny*nz; i++)
-	if(data[i] != missing_value) data[i] += field[n].var[varid].offset;
+	if(!has_missing || data[i] != missing_value) data[i] += field[n].var[varid].offset;
     }
 
     /* extrapolate data if needed */
@@ -2342,7 +2344,7 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
   double missing_value;
   short  *data_i2;
   int    *data_i4;
-  int    nx, ny, nz, n, ndim, i, j, data_size, pos;
+  int    nx, ny, nz, n, ndim, i, j, data_size, pos, has_missing;
   size_t *nwrite, *start;
 
   ndim = field->var[varid].ndim;
@@ -2355,6 +2357,7 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
     start[i] = 0; nwrite[i] = 1;
   }
 
+  has_missing = field->var[varid].has_missing;
   missing_value = field->var[varid].missing;
   pos = 0;
   if(field->var[varid].has_taxis) start[pos++] = level_t;
@@ -2377,11 +2380,11 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
 
     if(field[n].var[varid].offset != 0) {
       for(i=0; i<grid[n].nxc*grid[n].nyc*nz; i++)
-	if(field[n].data[i] != missing_value) field[n].data[i] -= field[n].var[varid].offset;
+	if(!has_missing || field[n].data[i] != missing_value) field[n].data[i] -= field[n].var[varid].offset;
     }
     if(field[n].var[varid].scale != 0) {
       for(i=0; i<grid[n].nxc*grid[n].nyc*nz; i++)
-	if(field[n].data[i] != missing_value) field[n].data[i] /= field[n].var[varid].scale;
+	if(!has_missing || field[n].data[i] != missing_value) field[n].data[i] /= field[n].var[varid].scale;
     }
 
     if(mpp_npes() == 1) {
-- 
2.43.0


From 605bed38a8c9a938840ae8f5e94e40ac25d1ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:12 +0000
Subject: [PATCH 051/148] fix: fregrid --target_grid depended on unset memory
 for fields without cell_measures

---
 src/fre-grid/fregrid_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index cc67a8f..940c6a6 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1172,6 +1172,7 @@ void get_input_metadata(int ntiles, int nfiles, File_config *file1, File_config
           }
         } else {
           field[n].var[ll].cell_measures = 0;
+          field[n].var[ll].use_volume = 0;
           field[n].var[ll].area_missing = 0;
           field[n].var[ll].area_has_taxis = 0;
         }
-- 
2.43.0


From 46ef4e1e5db213a09c6b2932a89055a05d80ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:13 +0000
Subject: [PATCH 052/148] fix: fregrid used an unset exchange grid when the
 remap file of one output tile did not exist

---
 src/fre-grid/fregrid_util.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 940c6a6..10b29cd 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1989,12 +1989,16 @@ void set_remap_file( int ntiles, const char *mosaic_file, const char *remap_file
       sprintf(interp[m].remap_file, "%s.nc", str1);
     /* check xgrid file to be read (=1) or write ( = 2) */
     if(!save_weight_only && mpp_file_exist(interp[m].remap_file)) {
-      (*opcode) |= READ;
       interp[m].file_exist = 1;
     }
 
   }
 
+  /* read the exchange grid only when it is there for every tile; the file of a tile without overlaps is not written */
+  file_exist = 1;
+  for(m=0; m<ntiles; m++) if(!interp[m].file_exist) file_exist = 0;
+  if(file_exist) (*opcode) |= READ;
+
   if(ntiles>1) mpp_close(fid);
 
 };/* set_remap_file */
-- 
2.43.0


From 58c99a94bf7c170b5b4c3d0c964b24924a1857f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:27 +0000
Subject: [PATCH 053/148] fix: clip_2dx2d lost overlaps of wide cells by moving
 only some vertices of a polygon

---
 lib/libfrencutils/create_xgrid.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/libfrencutils/create_xgrid.c b/lib/libfrencutils/create_xgrid.c
index 28170de..7710e43 100644
--- a/lib/libfrencutils/create_xgrid.c
+++ b/lib/libfrencutils/create_xgrid.c
@@ -1295,7 +1295,7 @@ int clip_2dx2d(const double lon1_in[], const double lat1_in[], int n1_in,
   for(i1=0; i1<n1_in; i1++) {
     lon_tmp[i1] = lon1_in[i1];
     lat_tmp[i1] = lat1_in[i1];
-    if(lon_tmp[i1]>TPI || lon_tmp[i1]<0.0) gttwopi = 1;
+    if(lon_tmp[i1]>TPI) gttwopi = 1;
   }
   for(i2=0; i2<n2_in; i2++) {
     lon2_tmp[i2] = lon2_in[i2];
@@ -1303,7 +1303,11 @@ int clip_2dx2d(const double lon1_in[], const double lat1_in[], int n1_in,
   }
   //Some grid boxes near North Pole are clipped wrong (issue #42 )
   //The following heuristic fix seems to work. Why?
-  if(gttwopi){pimod(lon_tmp,n1_in);pimod(lon2_tmp,n2_in);}
+  //Both polygons are shifted as a whole: moving single vertices tears a polygon that crosses longitude pi.
+  if(gttwopi) {
+    for(i1=0; i1<n1_in; i1++) lon_tmp[i1] -= TPI;
+    for(i2=0; i2<n2_in; i2++) lon2_tmp[i2] -= TPI;
+  }
 
   x2_0 = lon2_tmp[n2_in-1];
   y2_0 = lat2_tmp[n2_in-1];
-- 
2.43.0


From c0e954fec2eec298871590e780fa723372c61ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:33 +0000
Subject: [PATCH 054/148] fix: fregrid --check_conserve overran its buffer when
 output tiles differ in size

---
 src/fre-grid/conserve_interp.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index bc61291..644ae93 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -453,12 +453,10 @@ void setup_conserve_interp(int ntiles_in, const Grid_config *grid_in, int ntiles
     double *area2;
 
     /* sum over exchange grid to get the area of grid_in */
-    nx1  = grid_out[0].nxc;
-    ny1  = grid_out[0].nyc;
-
-    area2 = (double *)malloc(nx1*ny1*sizeof(double));
-
     for(n=0; n<ntiles_out; n++) {
+      nx1  = grid_out[n].nxc;
+      ny1  = grid_out[n].nyc;
+      area2 = (double *)malloc(nx1*ny1*sizeof(double));
       for(i=0; i<nx1*ny1; i++) area2[i] = 0;
       for(i=0; i<interp[n].nxgrid; i++) {
 	ii = interp[n].j_out[i]*nx1 + interp[n].i_out[i];
@@ -483,10 +481,9 @@ void setup_conserve_interp(int ntiles_in, const Grid_config *grid_in, int ntiles
       ii = max_j*nx1+max_i;
       printf("The maximum ratio change at (%d,%d) = %g, area1=%g, area2=%g\n", max_i, max_j, max_ratio, grid_out[n].cell_area[ii],area2[ii]);
 
+      free(area2);
     }
 
-    free(area2);
-
   }
 
   free(i_in);
-- 
2.43.0


From d0f1c1b92986a194319d8e99d45253a109bf865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:33 +0000
Subject: [PATCH 055/148] fix: mpp_get_var_dimname overran the stack for
 variables of five dimensions

---
 lib/libfrencutils/globals.h | 2 +-
 lib/libfrencutils/mpp_io.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libfrencutils/globals.h b/lib/libfrencutils/globals.h
index cbd4d17..9c1209d 100644
--- a/lib/libfrencutils/globals.h
+++ b/lib/libfrencutils/globals.h
@@ -69,7 +69,7 @@ typedef struct {
   int    vid;
   nc_type type;
   int    ndim;
-  int    index[4];
+  int    index[5];
   int    nz;
   int    nn;
   int    kstart;
diff --git a/lib/libfrencutils/mpp_io.c b/lib/libfrencutils/mpp_io.c
index 58c4499..c49e58d 100644
--- a/lib/libfrencutils/mpp_io.c
+++ b/lib/libfrencutils/mpp_io.c
@@ -692,7 +692,7 @@ For each dimension we are assuming there is a 1-d field have the same name as th
 *********************************************************************/
 void mpp_get_var_dimname(int fid, int vid, int ind, char *name)
 {
-  int status, ncid, fldid, ndims, dims[4];
+  int status, ncid, fldid, ndims, dims[NC_MAX_VAR_DIMS];
   char errmsg[512];
 
   if(fid<0 || fid >=nfiles) mpp_error("mpp_io(mpp_get_var_dimname): invalid fid number, fid should be "
-- 
2.43.0


From 330091e93c9b4fbc52a0b1d0e5642be84d09e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:33 +0000
Subject: [PATCH 056/148] fix: fregrid read before the start of file names
 shorter than the suffix .nc

---
 src/fre-grid/fregrid_util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 10b29cd..d66112a 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -62,7 +62,7 @@ void set_mosaic_data_file(int ntiles, const char *mosaic_file, const char *dir,
   size_t start[4], nread[4];
 
   len = strlen(filename);
-  if( strcmp(filename+len-3, ".nc") ==0 )
+  if( len >= 3 && strcmp(filename+len-3, ".nc") ==0 )
     strncpy(str1, filename, len-3);
   else
     strcpy(str1, filename);
@@ -1075,7 +1075,7 @@ void get_input_metadata(int ntiles, int nfiles, File_config *file1, File_config
                 }
               } else {
                 len = strlen(file1);
-                if (strcmp(file1 + len - 3, ".nc") == 0) {
+                if (len >= 3 && strcmp(file1 + len - 3, ".nc") == 0) {
                   strncpy(str1, file1, len - 3);
                   str1[len - 3] = '\0';
                 } else
@@ -1962,7 +1962,7 @@ void set_remap_file( int ntiles, const char *mosaic_file, const char *remap_file
 
   len = strlen(remap_file);
   if(len >= STRING) mpp_error("setoutput_remap_file(fregrid_util): length of remap_file should be less than STRING");
-  if( strcmp(remap_file+len-3, ".nc")==0 ) {
+  if( len >= 3 && strcmp(remap_file+len-3, ".nc")==0 ) {
     strncpy(str1, remap_file, len-3);
     str1[len-3] = 0;
   }
-- 
2.43.0


From 20b4a5bd4675cf28ea01caf5a2be9fee42ab6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:08 +0000
Subject: [PATCH 057/148] fix: fregrid crashed on fields with attribute
 interp_method conserve_order2 unless it was also given on the command line

---
 src/fre-grid/fregrid.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index 5381a9a..d68d308 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -935,6 +935,12 @@ int main(int argc, char* argv[])
 					      "the source data have interp_method attribute value conserve_order2");
 	  opcode = opcode & ~CONSERVE_ORDER1;
 	  opcode |= CONSERVE_ORDER2;
+	  if(ntiles_in != 6)
+	    mpp_error("fregrid: when the input grid is not cubic sphere grid, interp_method can not be conserve_order2");
+	  if(opcode & GREAT_CIRCLE)
+	    mpp_error("fregrid: when clip_method is 'conserve_great_circle', interp_methos need to be 'conserve_order1', contact developer");
+	  /* read the input grid again, with what is needed to calculate the gradient */
+	  get_input_grid( ntiles_in, grid_in, bound_T, mosaic_in, opcode, &great_circle_algorithm_in, save_weight_only );
 	  break;
 	}
       }
-- 
2.43.0


From afe126ed863e91ac476650f0f70f8c8073379ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:53 +0000
Subject: [PATCH 058/148] fix: fregrid could not use one multi-tile mosaic for
 both grids or for two input files, as it was left open

---
 src/fre-grid/fregrid_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index d66112a..4795dd9 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -94,6 +94,7 @@ void set_mosaic_data_file(int ntiles, const char *mosaic_file, const char *dir,
     else
       sprintf(file[i].name, "%s.nc", str2);
   }
+  if(ntiles > 1) mpp_close(fid);
 
 }; /* setup_data_file */
 
-- 
2.43.0


From f98d1d28bfd9145b2c656f439369dab5dec960f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:27 +0000
Subject: [PATCH 059/148] fix: fregrid monotonic remapping took an unset halo
 corner as a neighbour of the cells in tile corners

---
 src/fre-grid/conserve_interp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index 644ae93..6baf350 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -631,6 +631,8 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  monotone_data[n].f_min[n1]     = MAXVAL;
 	  n1 = j*nx1+i;
 	  for(jj=j-1; jj<=j+1; jj++) for(ii=i-1; ii<=i+1; ii++) {
+	    /* there is no cell diagonally across the corner of a tile */
+	    if( (ii<0 || ii>=nx1) && (jj<0 || jj>=ny1) ) continue;
 	    n2 = (jj+1)*(nx1+2)+ii+1;
 	    if( field_in[n].data[n2] != missing ) {
 	      if( field_in[n].data[n2] > monotone_data[n].f_bar_max[n1] ) monotone_data[n].f_bar_max[n1] = field_in[n].data[n2];
-- 
2.43.0


From 4815cadff6606a4fb51c64e35d08a6cb8fb079d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:27 +0000
Subject: [PATCH 060/148] fix: fregrid monotonic remapping could pass the lower
 bound where both bounds were passed, and stopped on round-off of large values

---
 src/fre-grid/conserve_interp.c | 37 +++++++++++-----------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index 6baf350..4090c17 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -613,7 +613,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
     }
     else if(monotonic) {
       int ii, jj;
-      double f_bar;
+      double f_bar, ratio;
       double *xdata;
       for(n=0; n<ntiles_in; n++) {
 	nx1 =  grid_in[n].nx;
@@ -685,30 +685,17 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	f_bar = field_in[tile].data[n2];
 	if(xdata[n] == missing) continue;
 
-	if( monotone_data[tile].f_max[n1] > monotone_data[tile].f_bar_max[n1] ) {
-	  /* z1l: Due to truncation error, we might get xdata[n] > f_bar_max[n1]. So
-	     we allow some tolerance. What is the suitable tolerance? */
-	  xdata[n] = f_bar + ((xdata[n]-f_bar)/(monotone_data[tile].f_max[n1]-f_bar))
-	    * (monotone_data[tile].f_bar_max[n1]-f_bar);
-	  if( xdata[n] > monotone_data[tile].f_bar_max[n1]) {
-	    if(xdata[n] - monotone_data[tile].f_bar_max[n1] < TOLERANCE ) xdata[n] = monotone_data[tile].f_bar_max[n1];
-	    if( xdata[n] > monotone_data[tile].f_bar_max[n1]) {
-	      printf(" n = %d, n1 = %d, xdata = %f, f_bar_max=%f\n", n, n1, xdata[n], monotone_data[tile].f_bar_max[n1]);
-	      mpp_error(" xdata is greater than f_bar_max ");
-	    }
-	  }
-	}
-	else if( monotone_data[tile].f_min[n1] < monotone_data[tile].f_bar_min[n1] ) {
-	  /* z1l: Due to truncation error, we might get xdata[n] < f_bar_min[n1]. So
-	     we allow some tolerance. What is the suitable tolerance? */
-	  xdata[n] = f_bar + ((xdata[n]-f_bar)/(monotone_data[tile].f_min[n1]-f_bar)) * (monotone_data[tile].f_bar_min[n1]-f_bar);
-	  if( xdata[n] < monotone_data[tile].f_bar_min[n1]) {
-	    if(monotone_data[tile].f_bar_min[n1] - xdata[n]< TOLERANCE ) xdata[n] = monotone_data[tile].f_bar_min[n1];
-	    if( xdata[n] < monotone_data[tile].f_bar_min[n1]) {
-	      printf(" n = %d, n1 = %d, xdata = %f, f_bar_min=%f\n", n, n1, xdata[n], monotone_data[tile].f_bar_min[n1]);
-	      mpp_error(" xdata is less than f_bar_min ");
-	    }
-	  }
+	/* scale the deviation from the cell mean such that neither bound is passed */
+	ratio = 1;
+	if( monotone_data[tile].f_max[n1] > monotone_data[tile].f_bar_max[n1] )
+	  ratio = (monotone_data[tile].f_bar_max[n1]-f_bar)/(monotone_data[tile].f_max[n1]-f_bar);
+	if( monotone_data[tile].f_min[n1] < monotone_data[tile].f_bar_min[n1] )
+	  ratio = min(ratio, (monotone_data[tile].f_bar_min[n1]-f_bar)/(monotone_data[tile].f_min[n1]-f_bar));
+	if( ratio < 1 ) {
+	  xdata[n] = f_bar + ratio*(xdata[n]-f_bar);
+	  /* Due to truncation error, xdata[n] might still be out of the bounds. */
+	  if( xdata[n] > monotone_data[tile].f_bar_max[n1]) xdata[n] = monotone_data[tile].f_bar_max[n1];
+	  if( xdata[n] < monotone_data[tile].f_bar_min[n1]) xdata[n] = monotone_data[tile].f_bar_min[n1];
 	}
       }
       for(n=0; n<ntiles_in; n++) {
-- 
2.43.0


From 603225243c7d8b13481d4592b6895029b8b61e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:52 +0000
Subject: [PATCH 061/148] fix: fregrid monotonic remapping was not conservative
 for several output tiles

---
 src/fre-grid/conserve_interp.c | 35 ++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index 4090c17..c4fc577 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -612,10 +612,10 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
       }
     }
     else if(monotonic) {
-      int ii, jj;
+      int ii, jj, mm;
       double f_bar, ratio;
       double *xdata;
-      for(n=0; n<ntiles_in; n++) {
+      for(n=0; n<ntiles_in && m == 0; n++) {
 	nx1 =  grid_in[n].nx;
 	ny1 =  grid_in[n].ny;
 	monotone_data[n].f_bar_max = (double *)malloc(nx1*ny1*sizeof(double));
@@ -642,6 +642,24 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	}
       }
 
+      /* the extremes of a source cell are those of its overlaps with all the output tiles,
+         otherwise its parts would be scaled differently and the result would not be conservative */
+      for(mm=0; mm<ntiles_out && m == 0; mm++) for(n=0; n<interp[mm].nxgrid; n++) {
+	double xx;
+	i1   = interp[mm].i_in [n];
+	j1   = interp[mm].j_in [n];
+	tile = interp[mm].t_in [n];
+	nx1  = grid_in[tile].nx;
+	n1 = j1*nx1+i1;
+	n2 = (j1+1)*(nx1+2)+i1+1;
+	xx = field_in[tile].data[n2];
+	if( xx == missing ) continue;
+	if( !field_in[tile].grad_mask[n1] )
+	  xx += field_in[tile].grad_x[n1]*interp[mm].di_in[n]+field_in[tile].grad_y[n1]*interp[mm].dj_in[n];
+	if( xx > monotone_data[tile].f_max[n1]) monotone_data[tile].f_max[n1] = xx;
+	if( xx < monotone_data[tile].f_min[n1]) monotone_data[tile].f_min[n1] = xx;
+      }
+
       xdata = (double *)malloc(interp[m].nxgrid*sizeof(double));
       for(n=0; n<interp[m].nxgrid; n++) {
 	i1   = interp[m].i_in [n];
@@ -649,6 +667,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	di   = interp[m].di_in[n];
 	dj   = interp[m].dj_in[n];
 	tile = interp[m].t_in [n];
+	nx1  = grid_in[tile].nx;
 	n1 = j1*nx1+i1;
         n2 = (j1+1)*(nx1+2)+i1+1;
 	if( field_in[tile].data[n2] != missing ) {
@@ -658,18 +677,16 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  else {
 	    xdata[n] = field_in[tile].data[n2]+field_in[tile].grad_x[n1]*di+field_in[tile].grad_y[n1]*dj;
 	  }
-	  if(monotonic) {
-	    if( xdata[n] > monotone_data[tile].f_max[n1]) monotone_data[tile].f_max[n1] = xdata[n];
-	    if( xdata[n] < monotone_data[tile].f_min[n1]) monotone_data[tile].f_min[n1] = xdata[n];
-	  }
 	}
 	else
 	  xdata[n] = missing;
       }
 
       /* get the global f_max and f_min */
-      if(mpp_npes() >1) {
+      if(mpp_npes() >1 && m == 0) {
 	for(n=0; n<ntiles_in; n++) {
+	  nx1 =  grid_in[n].nx;
+	  ny1 =  grid_in[n].ny;
 	  mpp_min_double(nx1*ny1, monotone_data[n].f_min);
 	  mpp_max_double(nx1*ny1, monotone_data[n].f_max);
 	}
@@ -680,6 +697,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	i1   = interp[m].i_in [n];
 	j1   = interp[m].j_in [n];
 	tile = interp[m].t_in [n];
+	nx1  = grid_in[tile].nx;
 	n1 = j1*nx1+i1;
 	n2 = (j1+1)*(nx1+2)+i1+1;
 	f_bar = field_in[tile].data[n2];
@@ -698,7 +716,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  if( xdata[n] < monotone_data[tile].f_bar_min[n1]) xdata[n] = monotone_data[tile].f_bar_min[n1];
 	}
       }
-      for(n=0; n<ntiles_in; n++) {
+      for(n=0; n<ntiles_in && m == ntiles_out-1; n++) {
 	free(monotone_data[n].f_bar_max);
 	free(monotone_data[n].f_bar_min);
 	free(monotone_data[n].f_max);
@@ -713,6 +731,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	j1   = interp[m].j_in [n];
 	tile = interp[m].t_in [n];
 	area = interp[m].area [n];
+	nx1  = grid_in[tile].nx;
 	if(xdata[n] == missing) continue;
 	if(weight_exist) area *= grid_in[tile].weight[j1*nx1+i1];
 	n1 = j1*nx1+i1;
-- 
2.43.0


From 80ad386bb0b073823fab28e165b6810ee1fd02a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:52 +0000
Subject: [PATCH 062/148] fix: fregrid monotonic remapping gave missing instead
 of zero where the weights are zero, unlike the other methods

---
 src/fre-grid/conserve_interp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index c4fc577..cecd5eb 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -742,6 +742,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  area *= (field_in[tile].area[n1]/grid_in[tile].cell_area[n1]);
 	field_out[m].data[n0] += xdata[n]*area;
 	out_area[n0] += area;
+	out_miss[n0] = 1;
       }
       free(xdata);
     }
-- 
2.43.0


From efa513aba3d418bcac591d6384873c6a7cbc362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:33 +0000
Subject: [PATCH 063/148] fix: fregrid read the axis of copied variables from
 the first selected record on

---
 src/fre-grid/fregrid_util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 4795dd9..11a49a1 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1310,8 +1310,10 @@ void get_input_metadata(int ntiles, int nfiles, File_config *file1, File_config
                 start[0] = 0;
                 file[n].axis[j].size = dimsize[i];
               }
-            } else
+            } else {
+              start[0] = 0;
               file[n].axis[j].size = dimsize[i];
+            }
             file[n].axis[j].data = (double *)malloc(file[n].axis[j].size * sizeof(double));
             nread[0] = file[n].axis[j].size;
             mpp_get_var_value_block(file[n].fid, file[n].axis[j].vid, start, nread, file[n].axis[j].data);
-- 
2.43.0


From af84e9939aa322022e1b5e0752ab4419093f8da6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 064/148] fix: make_coupler_mosaic did not terminate the
 directory names it writes

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 035f61c..467dbb6 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -175,6 +175,7 @@ void get_file_dir_and_name(char *file, char *filedir, char *filename)
       siz = fptr - file;
       strcpy(filename, fptr);
       strncpy(filedir, file, siz);
+      filedir[siz] = '\0';
     }
 };
 
-- 
2.43.0


From 3280246b64da29971b34452eb381ea84895be787 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 065/148] fix: make_coupler_mosaic switched --check on with
 --area_ratio_thresh

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 467dbb6..f5dd994 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -465,6 +465,7 @@ int main (int argc, char *argv[])
       break;
     case 'r':
       area_ratio_thresh = atof(optarg);
+      break;
     case 'n':
       check = 1;
       break;
-- 
2.43.0


From 41703295ccd551652f19b5a7f4082eeb58d766a5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 066/148] fix: make_coupler_mosaic compared tile sizes beyond
 the last atmosphere tile

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index f5dd994..7010bf4 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -778,7 +778,7 @@ int main (int argc, char *argv[])
     lnd_great_circle_algorithm = atm_great_circle_algorithm;
   }
   int n;
-  for(n=0; n<ntile_lnd; n++) {
+  for(n=0; n<min(ntile_atm, ntile_lnd); n++) {
     if(mpp_pe()==mpp_root_pe() && verbose) printf("Number of ATM and LND cells for tile %d are %d, %d.\n",n+1,nxa[n]*nya[n],nxl[n]*nyl[n]);
     if(nxa[n]*nya[n] != nxl[n]*nyl[n]) printf("Warning: Number of ATM and LND cells for tile %d are not equal %d, %d.\n",n+1,nxa[n]*nya[n],nxl[n]*nyl[n]);
   }
-- 
2.43.0


From df05e6d143843717240fbf8a026ecea31b2cb860 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 067/148] fix: make_coupler_mosaic sized the ocean tile arrays
 by the number of land tiles

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 7010bf4..21daf9a 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -897,8 +897,8 @@ int main (int argc, char *argv[])
     }
 
     if(clip_method == GREAT_CIRCLE_CLIP) {
-      cart_xocn = (double **) malloc( ntile_lnd*sizeof(double *));
-      cart_yocn = (double **) malloc( ntile_lnd*sizeof(double *));
+      cart_xocn = (double **) malloc( ntile_ocn*sizeof(double *));
+      cart_yocn = (double **) malloc( ntile_ocn*sizeof(double *));
       cart_zocn =  (double **) malloc( ntile_ocn*sizeof(double *));
       for(n=0; n<ntile_ocn; n++) {
 	cart_xocn[n]     = (double *)malloc((nxo[n]+1)*(nyo[n]+1)*sizeof(double));
-- 
2.43.0


From 2af5c794172cd472dbe9fdf74134037ab105dda3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 068/148] fix: make_coupler_mosaic read atmosphere areas at
 land cells of another grid

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 21daf9a..4d4c466 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -2117,7 +2117,8 @@ int main (int argc, char *argv[])
 	    //mask[i] = min(l_area[nl][i]/area_lnd[nl][i],1.0);
 	    l_a[i] = l_area[nl][i];
 	    a_l[i] = area_lnd[nl][i];
-	    a_a[i] = area_atm[nl][i];
+	    /* only when land and atmosphere share their cells is there an atmosphere cell for this land cell */
+	    a_a[i] = lnd_same_as_atm ? area_atm[nl][i] : 0;
 	  }
 	  if(ntile_lnd > 1)
 	    sprintf(lnd_mask_file, "land_mask_tile%d.nc", nl+1);
-- 
2.43.0


From c7c433c489dbe748d33b896bc2830151d430cfa2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 069/148] fix: make_coupler_mosaic lost land and wave cells
 that lie inside one ocean row

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 4d4c466..1d50812 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -2610,10 +2610,8 @@ int main (int argc, char *argv[])
 	  js_ocn[no] = nyo[no]; je_ocn[no] = -1;
 	  for(jo = 0; jo <= nyo[no]; jo ++) for(io = 0; io <= nxo[no]; io++) {
 	    yy = yocn[no][jo    *(nxo[no]+1) + io];
-	    if( yy > yl_min && yy < yl_max ) {
-	      if(jo > je_ocn[no] ) je_ocn[no] = jo;
-	      if(jo < js_ocn[no] ) js_ocn[no] = jo;
-	    }
+	    if( yy > yl_min && jo < js_ocn[no] ) js_ocn[no] = jo;
+	    if( yy < yl_max && jo > je_ocn[no] ) je_ocn[no] = jo;
 	  }
 	  js_ocn[no] = max(0, js_ocn[no]-1);
 	  je_ocn[no] = min(nyo[no]-1, je_ocn[no]+1);
@@ -3135,10 +3133,8 @@ int main (int argc, char *argv[])
 	  js_ocn[no] = nyo[no]; je_ocn[no] = -1;
 	  for(jo = 0; jo <= nyo[no]; jo ++) for(io = 0; io <= nxo[no]; io++) {
 	    yy = yocn[no][jo    *(nxo[no]+1) + io];
-	    if( yy > yw_min && yy < yw_max ) {
-	      if(jo > je_ocn[no] ) je_ocn[no] = jo;
-	      if(jo < js_ocn[no] ) js_ocn[no] = jo;
-	    }
+	    if( yy > yw_min && jo < js_ocn[no] ) js_ocn[no] = jo;
+	    if( yy < yw_max && jo > je_ocn[no] ) je_ocn[no] = jo;
 	  }
 	  js_ocn[no] = max(0, js_ocn[no]-1);
 	  je_ocn[no] = min(nyo[no]-1, je_ocn[no]+1);
-- 
2.43.0


From 7a249eb854f4ff3888564fb9afc820d00314de79 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 070/148] fix: make_coupler_mosaic cut polar corners off ocean
 cells and shifted cartesian ones when land and atmosphere differ

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 1d50812..31b0edb 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -1683,8 +1683,11 @@ int main (int argc, char *argv[])
             /*Apply a longitude fix to ocean cell xo based on the center of the atmxlnd cell
             Otherwise, when lnd and atm grids are not the same some exchange grids may be missed, particularly around the Prime Meridian lon=0 
             */
-            if(!lnd_same_as_atm){
-              no_in = fix_lon (xo, yo, 4, atmxlnd_x[l][0]); //Shifts xo so the center to be within atmxlnd_x[l][0]-pi to atmxlnd_x[l][0]+pi, 
+            if(!lnd_same_as_atm && clip_method != GREAT_CIRCLE_CLIP){
+              /* Shifts xo so the center to be within atmxlnd_x[l][0]-pi to atmxlnd_x[l][0]+pi; the corners at the poles were added above */
+              double dx = avgval_double (no_in, xo) - atmxlnd_x[l][0];
+              if(dx < -M_PI) for(n=0; n<no_in; n++) xo[n] += 2*M_PI;
+              else if(dx > M_PI) for(n=0; n<no_in; n++) xo[n] -= 2*M_PI;
               xo_min = minval_double (no_in, xo);
               xo_max = maxval_double (no_in, xo);		
            }
-- 
2.43.0


From 6ab5565144fb19def26636c3a053f0b9b038004f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 071/148] fix: make_coupler_mosaic checked its exchange grid
 limits only after writing past them

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 31b0edb..eb01259 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -1532,6 +1532,7 @@ int main (int argc, char *argv[])
                   for(n=0; n<n_out; n++) printf("%15.11f, %15.11f \n", xtmp[n]*R2D, ytmp[n]*R2D);
                 }
 
+		if(count>=MX) mpp_error("make_coupler_mosaic: count is greater than MX, increase MX");
 		axl_i[count]    = il;
 		axl_j[count]    = jl;
 		axl_t[count]    = nl;
@@ -1562,7 +1563,6 @@ int main (int argc, char *argv[])
 		}
 
 		++count;
-		if(count>MX) mpp_error("make_coupler_mosaic: count is greater than MX, increase MX");
       	      }/*if( xarea/min_area > area_ratio_thresh )*/
 	    }/*if(nout>0)*/
 	  }/*ni,nj loop*/
@@ -1663,6 +1663,7 @@ int main (int argc, char *argv[])
 	           printf("Near North Pole: ATMxLNDxOCN_area/ATM_area =%f \n",xarea/min_area);}
 		if(xarea/min_area > area_ratio_thresh) {
 
+		  if(naxo[na][no] >= get_maxxgrid()) mpp_error("naxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 		  atmxocn_area[na][no][naxo[na][no]] = xarea;
 		  atmxocn_io[na][no][naxo[na][no]]   = io;
 		  atmxocn_jo[na][no][naxo[na][no]]   = jo;
@@ -1673,7 +1674,6 @@ int main (int argc, char *argv[])
 		    atmxocn_clat[na][no][naxo[na][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		  }
 		  ++(naxo[na][no]);
-		  if(naxo[na][no] > get_maxxgrid()) mpp_error("naxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 		}
 	      }
 	    }
@@ -1733,6 +1733,7 @@ int main (int argc, char *argv[])
 	  if(fabs(axl_ymin[l]+0.5*M_PI) < 0.00003 && verbose){
 	    printf("Near South Pole: ATMxLNDxOCN_area/ATM_area =%f \n",axl_area[l]/min_area);}
 	  if(axl_area[l]/min_area > area_ratio_thresh) {
+	    if(naxl[na][nl] >= get_maxxgrid()) mpp_error("naxl exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 	    atmxlnd_area[na][nl][naxl[na][nl]] = axl_area[l];
 	    atmxlnd_ia  [na][nl][naxl[na][nl]] = ia;
 	    atmxlnd_ja  [na][nl][naxl[na][nl]] = ja;
@@ -1743,7 +1744,6 @@ int main (int argc, char *argv[])
 	      atmxlnd_clat[na][nl][naxl[na][nl]] = axl_clat[l];
 	    }
 	    ++(naxl[na][nl]);
-	    if(naxl[na][nl] > get_maxxgrid()) mpp_error("naxl exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 	  }
 	}
 
@@ -2700,6 +2700,7 @@ int main (int argc, char *argv[])
 		xarea = poly_area(x_out, y_out, n_out )*ocn_frac;
 	      min_area = min(area_ocn[no][jo*nxo[no]+io], area_lnd[nl][ll] );
 	      if(xarea/min_area > area_ratio_thresh ) {
+		if(nlxo[nl][no] >= get_maxxgrid()) mpp_error("nlxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 		lndxocn_area[nl][no][nlxo[nl][no]] = xarea;
 		lndxocn_io[nl][no][nlxo[nl][no]]   = io;
 		lndxocn_jo[nl][no][nlxo[nl][no]]   = jo;
@@ -2710,7 +2711,6 @@ int main (int argc, char *argv[])
 		  lndxocn_clat[nl][no][nlxo[nl][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		}
 		++(nlxo[nl][no]);
-		if(nlxo[nl][no] > get_maxxgrid()) mpp_error("nlxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 	      }
 	    }
 	  } /* end of io, jo loop */
@@ -3230,6 +3230,7 @@ int main (int argc, char *argv[])
 		min_area = min(area_ocn[no][jo*nxo[no]+io], area_wav[nw][lw]);
 		if(xarea/min_area > area_ratio_thresh) {
 
+		  if(nwxo[nw][no] >= get_maxxgrid()) mpp_error("nwxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 		  wavxocn_area[nw][no][nwxo[nw][no]] = xarea;
 		  wavxocn_io[nw][no][nwxo[nw][no]]   = io;
 		  wavxocn_jo[nw][no][nwxo[nw][no]]   = jo;
@@ -3240,7 +3241,6 @@ int main (int argc, char *argv[])
 		    wavxocn_clat[nw][no][nwxo[nw][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		  }
 		  ++(nwxo[nw][no]);
-		  if(nwxo[nw][no] > get_maxxgrid()) mpp_error("nwxo exceeds MAXXGRID limit; increase the value using --maxxgrid flag");
 		}
 	      }
 	    }
-- 
2.43.0


From 4a7341da39a3bd6b19c15214f5bd5cedd60f2dab Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 072/148] fix: make_coupler_mosaic crashed on a wave mosaic
 with interp_order 1

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index eb01259..2c411ba 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -3261,7 +3261,7 @@ int main (int argc, char *argv[])
     if(verbose) printf("on pe %d, calculating waveXocean used %f seconds.\n", mpp_pe(), difftime(time_end, time_start));
     /* calculate the centroid of model grid, as well as land_mask and ocean_mask */
     {
-      double **w_area, **w_area2;
+      double **w_area;
       int    nw, lw;
       w_area = (double **)malloc(ntile_wav*sizeof(double *));
       for(nw =0; nw<ntile_wav; nw++) {
@@ -3285,12 +3285,12 @@ int main (int argc, char *argv[])
 	      g_iw = (int    *)malloc(nxgrid*sizeof(int   ));
 	      g_jw = (int    *)malloc(nxgrid*sizeof(int   ));
 	      g_area = (double *)malloc(nxgrid*sizeof(double));
-	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_io[nw][no], g_iw);
-	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_jo[nw][no], g_jw);
+	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_iw[nw][no], g_iw);
+	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_jw[nw][no], g_jw);
 	      mpp_gather_field_double(nwxo[nw][no], wavxocn_area[nw][no], g_area);
 	      for(i=0; i<nxgrid; i++) {
 		ii = g_jw[i]*nxw[nw]+g_iw[i];
-		w_area2[nw][ii] += g_area[i];
+		w_area[nw][ii] += g_area[i];
 	      }
 	      free(g_iw);
 	      free(g_jw);
-- 
2.43.0


From f36b3cfa1eb7eb7ad561c8e2e3b4ff88a30adb13 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 073/148] fix: make_coupler_mosaic took cartesian points for
 longitudes in great circle wave areas

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 2c411ba..7503377 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -3226,7 +3226,10 @@ int main (int argc, char *argv[])
 		n_out = clip_2dx2d( xw, yw, nw_in, xo, yo, no_in, x_out, y_out);
 	      }
 	      if (  n_out > 0) {
-		xarea = poly_area(x_out, y_out, n_out )*ocn_frac;
+		if(clip_method == GREAT_CIRCLE_CLIP)
+		  xarea = great_circle_area( n_out, x_out, y_out, z_out)*ocn_frac;
+		else
+		  xarea = poly_area(x_out, y_out, n_out )*ocn_frac;
 		min_area = min(area_ocn[no][jo*nxo[no]+io], area_wav[nw][lw]);
 		if(xarea/min_area > area_ratio_thresh) {
 
-- 
2.43.0


From 7648ece079a4650c25e08f510b4b689c0d58e76b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 074/148] fix: runoff_regrid lost all runoff of files with
 latitudes from north to south

---
 src/runoff-regrid/runoff_regrid.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/runoff-regrid/runoff_regrid.c b/src/runoff-regrid/runoff_regrid.c
index 3608437..77fc7b2 100644
--- a/src/runoff-regrid/runoff_regrid.c
+++ b/src/runoff-regrid/runoff_regrid.c
@@ -439,7 +439,8 @@ void setup_remap(const Grid_type *grid_in, const Grid_type *grid_out, Remap_type
   domain2D domain;
   double *xc=NULL, *yc=NULL;
   int *imap=NULL, *jmap=NULL;
-
+  double *yc1d_in=NULL, *mask_in=NULL;
+  int flip;
 
   nx_in = grid_in ->nx;
   ny_in = grid_in ->ny;
@@ -470,9 +471,20 @@ void setup_remap(const Grid_type *grid_in, const Grid_type *grid_out, Remap_type
   j_out      = (int    *)malloc(MAXXGRID   * sizeof(int   ));
   xgrid_area = (double *)malloc(MAXXGRID   * sizeof(double));
 
+  /* create_xgrid needs latitudes from south to north */
+  flip = (grid_in->yc1d[0] > grid_in->yc1d[ny_in]);
+  yc1d_in = (double *)malloc((ny_in+1)*sizeof(double));
+  mask_in = (double *)malloc(nx_in*ny_in*sizeof(double));
+  for(j=0; j<=ny_in; j++) yc1d_in[j] = grid_in->yc1d[flip ? ny_in-j : j];
+  for(j=0; j<ny_in; j++) for(i=0; i<nx_in; i++)
+    mask_in[j*nx_in+i] = grid_in->mask[(flip ? ny_in-1-j : j)*nx_in+i];
+
   nxgrid = create_xgrid_1dx2d_order1(&nx_in, &ny_in, &nxc, &nyc, grid_in->xc1d,
-				     grid_in->yc1d,  xc,  yc,
-				     grid_in->mask, i_in, j_in, i_out, j_out, xgrid_area);
+				     yc1d_in,  xc,  yc,
+				     mask_in, i_in, j_in, i_out, j_out, xgrid_area);
+  if(flip) for(i=0; i<nxgrid; i++) j_in[i] = ny_in-1-j_in[i];
+  free(yc1d_in);
+  free(mask_in);
   /* add isc and jsc to i_out and j_out */
   for(i=0; i<nxgrid; i++) {
      i_out[i] += isc;
-- 
2.43.0


From b3dca8d73039e8c0192d89c31cbdd8a1aa43216f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 075/148] fix: runoff_regrid wrote outside its arrays when the
 output grid has no ocean

---
 src/runoff-regrid/runoff_regrid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runoff-regrid/runoff_regrid.c b/src/runoff-regrid/runoff_regrid.c
index 77fc7b2..99e880c 100644
--- a/src/runoff-regrid/runoff_regrid.c
+++ b/src/runoff-regrid/runoff_regrid.c
@@ -530,6 +530,7 @@ void setup_remap(const Grid_type *grid_in, const Grid_type *grid_out, Remap_type
       if( grid_out->mask[ll] == 0) {
 	nearest(nx_out, ny_out, grid_out->mask, grid_out->xt, grid_out->yt,
 		grid_out->xt[ll], grid_out->yt[ll], &(imap[l]), &(jmap[l]) );
+	if(imap[l] < 0) mpp_error("runoff_regrid: there is no ocean point to move runoff to");
       }
     }
   }
-- 
2.43.0


From 4fc8bfcfb584d028bb4152752ea043b0329e2f15 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 076/148] fix: make_vgrid overran its buffer on long lists of
 bounds and used an unset count

---
 src/make-vgrid/make_vgrid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/make-vgrid/make_vgrid.c b/src/make-vgrid/make_vgrid.c
index 1931a6c..9c1a918 100644
--- a/src/make-vgrid/make_vgrid.c
+++ b/src/make-vgrid/make_vgrid.c
@@ -142,7 +142,7 @@ int main(int argc, char* argv[])
   double *zeta;
   double stretch = 1;
   char center[32] = "none";
-  char entry[512];
+  char entry[MAXBOUNDS*32];
   char history[256];
   int errflg, c, option_index = 0;
   static struct option long_options[]= {
@@ -163,6 +163,7 @@ int main(int argc, char* argv[])
   nbnds = 0;
   n1 = 0;
   n2 = 0;
+  n3 = 0;
   while ((c = getopt_long(argc, argv, "", long_options, &option_index)) != -1)
     switch (c) {
     case 'n':
-- 
2.43.0


From 4523ddbcb3310f7a021abb6f6fd4cdb75b6b5f50 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 077/148] fix: check_mask cut --sea_level to an integer

---
 src/check-mask/check_mask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 9672842..42a7744 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -262,7 +262,7 @@ int main (int argc, char *argv[])
       halo = atoi(optarg);
       break;
     case 'f':
-      sea_level = atoi(optarg);
+      sea_level = atof(optarg);
       break;
     case 'g':
       show_valid_only = 1;
-- 
2.43.0


From 351c7cdbb2c3cebed49a06ea67521d739fa5b8fd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 078/148] fix: check_mask mirrored wide west and south halos
 and left the corners of doubly cyclic grids dry

---
 src/check-mask/check_mask.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 42a7744..e0d9d9a 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -576,7 +576,7 @@ void check_ocean_mask(int nx, int ny, const double *wet_in, int cyclic_x, int cy
   if( cyclic_x ) {
     for(j=0; j<ny; j++) {
       for(i=0; i<halo; i++) {  /* west halo */
-	n1 = (j+halo)*nxd + nx+halo-1-i;
+	n1 = (j+halo)*nxd + nx+i;
 	n2 = (j+halo)*nxd+i;
 	wet[n2] = wet[n1];
       }
@@ -589,15 +589,15 @@ void check_ocean_mask(int nx, int ny, const double *wet_in, int cyclic_x, int cy
   }
 
   if( cyclic_y ) {
-    for(i=0; i<nx; i++) {
+    for(i=0; i<nxd; i++) { /* the corners come from the x-halo */
       for(j=0; j<halo; j++) {  /* south halo */
-	n1 = (ny+halo-1-j)*nxd + i+halo;
-	n2 = j*nxd + i+halo;
+	n1 = (ny+j)*nxd + i;
+	n2 = j*nxd + i;
 	wet[n2] = wet[n1];
       }
       for(j=0; j<halo; j++) { /* north halo */
-	n1 = (halo+j)*nxd + i+halo;
-	n2 = (ny+halo+j)*nxd + i+halo;
+	n1 = (halo+j)*nxd + i;
+	n2 = (ny+halo+j)*nxd + i;
 	wet[n2] = wet[n1];
       }
     }
-- 
2.43.0


From f940176c12fa8da67ce799e61bab7dc2e598329e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 079/148] fix: check_mask reported success without checking
 anything for the land model without --layout

---
 src/check-mask/check_mask.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index e0d9d9a..b00e961 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -428,6 +428,7 @@ int main (int argc, char *argv[])
     mpp_close(fid);
 
     /* currently we only support cubic sphere grid. */
+    if(layout[0]*layout[1] <= 0) mpp_error("check_mask: --layout must be specified when model=land");
     if(ntiles != 6) mpp_error("check_mask: ntiles must be 6 (cubic sphere grid) when model=land, contact developer");
     /* halo is assumed to be 1 */
     if(halo != 1) {
-- 
2.43.0


From 608e414f947ca984d7fd72610749c62cd2e215a5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 080/148] fix: check_mask wrote past its mask when the
 topography has another size than the grid

---
 src/check-mask/check_mask.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index b00e961..5991d98 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -915,6 +915,7 @@ void get_ocean_mask(const char *grid_file, int grid_version, double *mask, doubl
   int fid, vid;
   double *depth=NULL;
   int i;
+  char xaxis_name[STRING], yaxis_name[STRING];
   
   if( grid_version == VERSION_1) {
     fid = mpp_open( grid_file, MPP_READ );
@@ -925,6 +926,10 @@ void get_ocean_mask(const char *grid_file, int grid_version, double *mask, doubl
   else if( grid_version == VERSION_2 ) {
     fid = mpp_open( grid_file, MPP_READ );
     vid = mpp_get_varid(fid, "depth");
+    mpp_get_var_dimname(fid, vid, 1, xaxis_name);
+    mpp_get_var_dimname(fid, vid, 0, yaxis_name);
+    if(mpp_get_dimlen(fid, xaxis_name) != nx || mpp_get_dimlen(fid, yaxis_name) != ny)
+      mpp_error("==>Error from program check_mask: the size of depth is not that of the ocean grid");
     depth = (double *)malloc(nx*ny*sizeof(double));
     mpp_get_var_value(fid, vid, depth);
     mpp_close(fid);
-- 
2.43.0


From f1483a4e382ceef494e705e9e127fb1a794e191c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 081/148] fix: make_topog overran its buffers for output files
 of more than 31 characters

---
 src/make-topog/make_topog.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index 95d2dba..6008fad 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -293,7 +293,7 @@ char tagname[] = "$Name: fre-nctools-bronx-10 $";
 int main(int argc, char* argv[])
 {
   char   *mosaic_file = NULL, *topog_file = NULL, *topog_field = NULL;
-  char   topog_type[32] = "realistic", output_file[32] = "topog.nc";
+  const char *topog_type = "realistic", *output_file = "topog.nc";
   int    num_filter_pass = 1;
   int    x_refine = 2, y_refine = 2;
   double bottom_depth = 5000, min_depth = 10, scale_factor = 1;
@@ -396,7 +396,7 @@ int main(int argc, char* argv[])
       mosaic_file = optarg;
       break;
     case 'b':
-      strcpy(topog_type, optarg);
+      topog_type = optarg;
       break;
     case 'X':
       x_refine = atoi(optarg);
@@ -465,7 +465,7 @@ int main(int argc, char* argv[])
       smooth_topo_allow_deepening = 1;
       break;
     case 'o':
-      strcpy(output_file,optarg);
+      output_file = optarg;
       break;
     case 'A':
       jwest_south = atoi(optarg);
-- 
2.43.0


From e6cd568357cd59c7b72b9bcf388e24f91b8146ce Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 082/148] fix: make_topog_parallel overran its arrays for all
 types but realistic

---
 src/make-topog/make_topog.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index 6008fad..be2ce17 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -765,6 +765,10 @@ int main(int argc, char* argv[])
       mpp_define_layout( nx[n], ny[n], mpp_npes(), layout);
       mpp_define_domain2d( nx[n], ny[n], layout, 0, 0, &domain);
       mpp_get_compute_domain2d( domain, &isc, &iec, &jsc, &jec);
+      if(my_topog_type != REALISTIC) { /* idealized types are made for the whole tile */
+	isc = 0; iec = nx[n]-1;
+	jsc = 0; jec = ny[n]-1;
+      }
       nxc = iec - isc + 1;
       nyc = jec - jsc + 1;
 
@@ -837,7 +841,10 @@ int main(int argc, char* argv[])
 	break;
       }
       gdata = (double *)malloc(nx[n]*ny[n]*sizeof(double));
-      mpp_global_field_double(domain, nxc, nyc, depth, gdata);
+      if(my_topog_type == REALISTIC)
+	mpp_global_field_double(domain, nxc, nyc, depth, gdata);
+      else
+	memcpy(gdata, depth, nx[n]*ny[n]*sizeof(double));
       mpp_put_var_value(fid, id_depth[n], gdata);
       if(vgrid_file) {
 	double *tmp_double=NULL;
-- 
2.43.0


From 9e555151a364d62be8693f6d44a0fbc96608361f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 083/148] fix: make_topog wrote outside of its arrays for box
 channels beyond the grid

---
 src/make-topog/make_topog.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index be2ce17..8cac322 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -808,6 +808,8 @@ int main(int argc, char* argv[])
 	for(j = 0; j < nyc+1; j++) for(i = 0; i < nxc+1; i++)
 	  y[j*(nxc+1)+i] = tmp[(j*y_refine)*ni+i*x_refine];
       }
+      if(my_topog_type == BOX_CHANNEL && (jwest_north > ny[n] || jeast_north > ny[n]))
+	mpp_error("make_topog: jwest_north or jeast_north is larger than the grid when topog_type = box_channel");
       switch (my_topog_type) {
       case RECTANGULAR_BASIN:
 	create_rectangular_topog(nx[n], ny[n], bottom_depth, depth);
-- 
2.43.0


From 7891a275a35dfcddf5590ef3746f3990520fd15a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 084/148] fix: make_topog closed the first point of the
 openings of a box channel

---
 src/make-topog/topog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 4e1fd2f..8e6eda8 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -1066,10 +1066,10 @@ void create_box_channel_topog(int nx, int ny, double basin_depth,
     depth[(ny-1)*nx+i] = 0; /* northern boundary */
   }
   /* west boundary */
-  for(j=0; j<jwest_south; j++) depth[j*nx] = 0;
+  for(j=0; j<jwest_south-1; j++) depth[j*nx] = 0;
   for(j=jwest_north; j<ny; j++) depth[j*nx] = 0;
   /* east boundary */
-  for(j=0; j<jeast_south; j++) depth[j*nx+nx-1] = 0;
+  for(j=0; j<jeast_south-1; j++) depth[j*nx+nx-1] = 0;
   for(j=jeast_north; j<ny; j++) depth[j*nx+nx-1] = 0;
   
 }
-- 
2.43.0


From 721a6ff29ac749f60adfd7194ff4906899654c66 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 085/148] fix: make_topog searched the longitudes of idealized
 continents with the number of latitudes

---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 8e6eda8..3f49bea 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -320,7 +320,7 @@ void set_depth(int nx, int ny, const double *xbnd, const double *ybnd, double al
   ie1 = max(i1,i2);
 
   i1  = nearest_index(slon2, xbnd, nx );
-  i2  = nearest_index(elon2, xbnd, ny );
+  i2  = nearest_index(elon2, xbnd, nx );
   is2 = min(i1,i2);
   ie2 = max(i1,i2);
 
-- 
2.43.0


From 09ca02ea2f9c1bbd891bfa05b290efbb175990e0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 086/148] fix: make_topog left out the first row and column for
 the extent of gaussian bumps

---
 src/make-topog/topog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 3f49bea..73e98d1 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -126,8 +126,8 @@ void create_gaussian_topog(int nx, int ny, const double *x, const double *y, dou
   xe = xw;
   yn = ys;
 
-  for(j=1;j<ny;j++){
-    for(i=1;i<nx;i++){
+  for(j=0;j<ny;j++){
+    for(i=0;i<nx;i++){
       xw = min(xt[j*nx+i],xw); xe = max(xt[j*nx+i],xe);
       ys = min(yt[j*nx+i],ys); yn = max(yt[j*nx+i],yn);
     }
-- 
2.43.0


From 4d7335b03393b5c4aa45499bfbb05e66a96e3100 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 087/148] fix: make_topog --verbose crashed without a vertical
 grid

---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 73e98d1..be22692 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -520,7 +520,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
    }
   
   if (filter_topog) filter_topo(nx_dst, ny_dst, num_filter_pass, smooth_topo_allow_deepening, depth, domain);
-  if(debug) show_deepest(nk, zw, depth, domain);
+  if(debug && vgrid_file) show_deepest(nk, zw, depth, domain);
   
   /* make first row of ocean model all land points for ice model */
 
-- 
2.43.0


From 9ec9b097473be1a1ddfc7ba28802625820c0901a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 088/148] fix: make_topog did not recognise missing values of
 integer topographies

---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index be22692..557a819 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -406,7 +406,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   xc_src    = (double *)malloc(nxp_src*sizeof(double));
   yc_src    = (double *)malloc(nyp_src*sizeof(double));
 
-  mpp_get_var_att(fid, vid, "missing_value", &missing);
+  mpp_get_var_att_double(fid, vid, "missing_value", &missing);
   vid = mpp_get_varid(fid, xname);
   mpp_get_var_value(fid, vid, xt_src);
   vid = mpp_get_varid(fid, yname);
-- 
2.43.0


From 2589d66fd5561d45186034e382281723c5cacc1c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 089/148] fix: make_topog made an all-land topography from
 sources with decreasing latitudes

---
 src/make-topog/topog.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 557a819..21eaa73 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -413,6 +413,10 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   mpp_get_var_value(fid, vid, yt_src);
 
   
+  for(j=1; j<ny_src; j++) {
+    if(yt_src[j] <= yt_src[j-1]) mpp_error("topog.c: the latitudes of the source topography must be increasing");
+  }
+
   for(i=1; i<nx_src; i++) xc_src[i] = (xt_src[i-1] + xt_src[i])*0.5;
   xc_src[0] = 2*xt_src[0] - xc_src[1];
   xc_src[nx_src] = 2*xt_src[nx_src-1] - xc_src[nx_src-1];
-- 
2.43.0


From 0719a986ac06c5ba8c67e53633e6733d51d2243b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:30 +0000
Subject: [PATCH 090/148] fix: make_topog_parallel --fill_first_row closed the
 first row of every process

---
 src/make-topog/topog.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 21eaa73..a80af7a 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -373,6 +373,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   int    jstart, jend, jj;
   int    fid, vid;
   int    ny_now;
+  int    isc, iec, jsc, jec, nxg, nyg;
   size_t start[4], nread[4];
 
 
@@ -528,7 +529,8 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   
   /* make first row of ocean model all land points for ice model */
 
-  if(fill_first_row) {
+  mpp_get_compute_domain2d(domain, &isc, &iec, &jsc, &jec);
+  if(fill_first_row && jsc == 0) {
     for(i=0;i<nx_dst;i++) {
       depth[i] = 0.0;
     }
-- 
2.43.0


From 1fb905dcee39fcf3fc348397b92fedc2c9f64808 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:30 +0000
Subject: [PATCH 091/148] fix: make_topog --on_grid overran its arrays for
 other source sizes and on several processes

---
 src/make-topog/topog.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index a80af7a..a4ecc01 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -451,6 +451,13 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   }
   jstart = max(0, jstart-1);
   jend   = min(ny_src-1, jend+1);
+  mpp_get_compute_domain2d(domain, &isc, &iec, &jsc, &jec);
+  if(on_grid) { /* the source rows are those of the model grid */
+    mpp_get_global_domain2d(domain, &nxg, &nyg);
+    if(nx_src != nxg || ny_src != nyg) mpp_error("topog.c: with --on_grid the source topography must have the size of the model grid");
+    jstart = jsc;
+    jend   = jec;
+  }
   ny_now = jend-jstart+1;
 
   x_src    = (double *)malloc(nxp_src*(ny_now+1)*sizeof(double));
@@ -507,11 +514,12 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   }
   if(on_grid) {
      printf("We do no topography interpolation!\n");
-     for(i=0; i<nx_src*ny_now; i++) {
-        if(depth_src[i] == missing)
-          depth[i] = 0.0;
+     for(j=0; j<ny_dst; j++) for(i=0; i<nx_dst; i++) {
+        n = j*nx_src+i+isc;
+        if(depth_src[n] == missing)
+          depth[j*nx_dst+i] = 0.0;
         else
-          depth[i] = depth_src[i];
+          depth[j*nx_dst+i] = depth_src[n];
      }
    }
    else {
@@ -529,7 +537,6 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   
   /* make first row of ocean model all land points for ice model */
 
-  mpp_get_compute_domain2d(domain, &isc, &iec, &jsc, &jec);
   if(fill_first_row && jsc == 0) {
     for(i=0;i<nx_dst;i++) {
       depth[i] = 0.0;
-- 
2.43.0


From 3551b0547ada590c9c5e032437f12c37d39042ae Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:59:30 +0000
Subject: [PATCH 092/148] fix: nearest_index read past arrays with one element

---
 lib/libfrencutils/mosaic_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/mosaic_util.c b/lib/libfrencutils/mosaic_util.c
index 6a4cd35..9920773 100644
--- a/lib/libfrencutils/mosaic_util.c
+++ b/lib/libfrencutils/mosaic_util.c
@@ -87,7 +87,7 @@ int nearest_index(double value, const double *array, int ia)
     if (array[i] < array[i-1])
       error_handler("nearest_index: array must be monotonically increasing");
   }
-  if (value < array[0] )
+  if (ia == 1 || value < array[0] )
     index = 0;
   else if ( value > array[ia-1])
     index = ia-1;
-- 
2.43.0


From dede798544cc2d09ee622a20b771a16efe20cad1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 11:01:34 +0000
Subject: [PATCH 093/148] fix: make_topog failed when the grid of a process
 lies within one row of the source topography

---
 src/make-topog/topog.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index a4ecc01..9cb3cf0 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -444,10 +444,8 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   jstart = ny_src; jend = -1;
   for(j=0; j<=ny_src; j++){
     yy = yc_src[j];
-    if( yy > y_min && yy < y_max) {
-      if(j > jend  ) jend   = j;
-      if(j < jstart) jstart = j;
-    }
+    if( yy < y_max && j > jend  ) jend   = j;
+    if( yy > y_min && j < jstart) jstart = j;
   }
   jstart = max(0, jstart-1);
   jend   = min(ny_src-1, jend+1);
-- 
2.43.0


From 4992089535004c2f6383e3fe611755bd252d9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 094/148] fix: make_coupler_mosaic mixed longitude origins in
 the centroid distances to the second grid

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 44 ++++++++++++++-----
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 7503377..8ef8cc6 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -1235,6 +1235,7 @@ int main (int argc, char *argv[])
       int      axl_i[MX], axl_j[MX], axl_t[MX];
       double   axl_xmin[MX], axl_xmax[MX], axl_ymin[MX], axl_ymax[MX];
       double   axl_area[MX], axl_clon[MX], axl_clat[MX];
+      double   axl_clonl[MX], axl_xavg[MX]; /* moment about the land cell, and its longitude */
       size_t   count;
       int one, intc,atmxlnd_count;
       domain2D Dom;
@@ -1540,6 +1541,8 @@ int main (int argc, char *argv[])
 		axl_area[count] = 0;
 		if(interp_order == 2) {
 		  axl_clon[count] = 0;
+		  axl_clonl[count] = 0;
+		  axl_xavg[count] = avgval_double(nl_in, xl);
 		  axl_clat[count] = 0;
 		}
 
@@ -1671,6 +1674,7 @@ int main (int argc, char *argv[])
 		  atmxocn_ja[na][no][naxo[na][no]]   = ja;
 		  if(interp_order == 2) {
 		    atmxocn_clon[na][no][naxo[na][no]] = poly_ctrlon ( x_out, y_out, n_out, xa_avg)*ocn_frac;
+		    atmxocn_dio[na][no][naxo[na][no]]  = poly_ctrlon ( x_out, y_out, n_out, avgval_double(no_in, xo))*ocn_frac;
 		    atmxocn_clat[na][no][naxo[na][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		  }
 		  ++(naxo[na][no]);
@@ -1718,6 +1722,7 @@ int main (int argc, char *argv[])
 		    axl_area[l] += xarea;
 		    if(interp_order == 2) {
 		      axl_clon[l] += poly_ctrlon ( x_out, y_out, n_out, xa_avg)*lnd_frac;
+		      axl_clonl[l] += poly_ctrlon ( x_out, y_out, n_out, axl_xavg[l])*lnd_frac;
 		      axl_clat[l] += poly_ctrlat ( x_out, y_out, n_out)*lnd_frac;
 		    }
 		  }
@@ -1741,6 +1746,7 @@ int main (int argc, char *argv[])
 	    atmxlnd_jl  [na][nl][naxl[na][nl]] = axl_j[l];
 	    if(interp_order == 2) {
 	      atmxlnd_clon[na][nl][naxl[na][nl]] = axl_clon[l];
+	      atmxlnd_dil [na][nl][naxl[na][nl]] = axl_clonl[l];
 	      atmxlnd_clat[na][nl][naxl[na][nl]] = axl_clat[l];
 	    }
 	    ++(naxl[na][nl]);
@@ -1890,7 +1896,7 @@ int main (int argc, char *argv[])
 	      nxgrid = naxl[na][nl];
 	      mpp_sum_int(1, &nxgrid);
 	      if(nxgrid > 0) {
-		double *g_area, *g_clon, *g_clat;
+		double *g_area, *g_clon, *g_clat, *g_clon2;
 		int    *g_ia,   *g_ja,   *g_il, *g_jl;
 		int    ii;
 		g_ia = (int    *)malloc(nxgrid*sizeof(int   ));
@@ -1900,12 +1906,14 @@ int main (int argc, char *argv[])
 		g_area = (double *)malloc(nxgrid*sizeof(double));
 		g_clon = (double *)malloc(nxgrid*sizeof(double));
 		g_clat = (double *)malloc(nxgrid*sizeof(double));
+		g_clon2 = (double *)malloc(nxgrid*sizeof(double));
 		mpp_gather_field_int   (naxl[na][nl], atmxlnd_ia[na][nl], g_ia);
 		mpp_gather_field_int   (naxl[na][nl], atmxlnd_ja[na][nl], g_ja);
 		mpp_gather_field_int   (naxl[na][nl], atmxlnd_il[na][nl], g_il);
 		mpp_gather_field_int   (naxl[na][nl], atmxlnd_jl[na][nl], g_jl);
 		mpp_gather_field_double(naxl[na][nl], atmxlnd_area[na][nl], g_area);
 		mpp_gather_field_double(naxl[na][nl], atmxlnd_clon[na][nl], g_clon);
+		mpp_gather_field_double(naxl[na][nl], atmxlnd_dil[na][nl], g_clon2);
 		mpp_gather_field_double(naxl[na][nl], atmxlnd_clat[na][nl], g_clat);
 		for(i=0; i<nxgrid; i++) {
 		  ii = g_ja[i]*nxa[na]+g_ia[i];
@@ -1914,7 +1922,7 @@ int main (int argc, char *argv[])
 		  a_clat[ii] += g_clat[i];
 		  ii = g_jl[i]*nxl[nl]+g_il[i];
 		  l_area[nl][ii] += g_area[i];
-		  l_clon[nl][ii] += g_clon[i];
+		  l_clon[nl][ii] += g_clon2[i];
 		  l_clat[nl][ii] += g_clat[i];
 		}
 		free(g_ia);
@@ -1924,6 +1932,7 @@ int main (int argc, char *argv[])
 		free(g_area);
 		free(g_clon);
 		free(g_clat);
+		free(g_clon2);
 	      }
 	    }
 	  }
@@ -1935,7 +1944,7 @@ int main (int argc, char *argv[])
 	      nxgrid = naxo[na][no];
 	      mpp_sum_int(1, &nxgrid);
 	      if(nxgrid > 0) {
-		double *g_area, *g_clon, *g_clat;
+		double *g_area, *g_clon, *g_clat, *g_clon2;
 		int    *g_ia,   *g_ja,   *g_io, *g_jo;
 		int    ii;
 		g_ia = (int    *)malloc(nxgrid*sizeof(int   ));
@@ -1945,12 +1954,14 @@ int main (int argc, char *argv[])
 		g_area = (double *)malloc(nxgrid*sizeof(double));
 		g_clon = (double *)malloc(nxgrid*sizeof(double));
 		g_clat = (double *)malloc(nxgrid*sizeof(double));
+		g_clon2 = (double *)malloc(nxgrid*sizeof(double));
 		mpp_gather_field_int   (naxo[na][no], atmxocn_ia[na][no], g_ia);
 		mpp_gather_field_int   (naxo[na][no], atmxocn_ja[na][no], g_ja);
 		mpp_gather_field_int   (naxo[na][no], atmxocn_io[na][no], g_io);
 		mpp_gather_field_int   (naxo[na][no], atmxocn_jo[na][no], g_jo);
 		mpp_gather_field_double(naxo[na][no], atmxocn_area[na][no], g_area);
 		mpp_gather_field_double(naxo[na][no], atmxocn_clon[na][no], g_clon);
+		mpp_gather_field_double(naxo[na][no], atmxocn_dio[na][no], g_clon2);
 		mpp_gather_field_double(naxo[na][no], atmxocn_clat[na][no], g_clat);
 		for(i=0; i<nxgrid; i++) {
 		  ii = g_ja[i]*nxa[na]+g_ia[i];
@@ -1959,7 +1970,7 @@ int main (int argc, char *argv[])
 		  a_clat[ii] += g_clat[i];
 		  ii = g_jo[i]*nxo[no]+g_io[i];
 		  o_area[no][ii] += g_area[i];
-		  o_clon[no][ii] += g_clon[i];
+		  o_clon[no][ii] += g_clon2[i];
 		  o_clat[no][ii] += g_clat[i];
 		}
 		free(g_ia);
@@ -1969,6 +1980,7 @@ int main (int argc, char *argv[])
 		free(g_area);
 		free(g_clon);
 		free(g_clat);
+		free(g_clon2);
 	      }
 	    }
 	  }
@@ -2012,7 +2024,7 @@ int main (int argc, char *argv[])
 	  for(na=0; na<ntile_atm; na++) {
 	    for(i=0; i<naxl[na][nl]; i++) {
 	      ll = atmxlnd_jl[na][nl][i]*nxl[nl] + atmxlnd_il[na][nl][i];
-	      atmxlnd_dil[na][nl][i] = atmxlnd_clon[na][nl][i]/atmxlnd_area[na][nl][i] - l_clon[nl][ll];
+	      atmxlnd_dil[na][nl][i] = atmxlnd_dil[na][nl][i]/atmxlnd_area[na][nl][i] - l_clon[nl][ll];
 	      atmxlnd_djl[na][nl][i] = atmxlnd_clat[na][nl][i]/atmxlnd_area[na][nl][i] - l_clat[nl][ll];
 	    }
 	  }
@@ -2031,7 +2043,7 @@ int main (int argc, char *argv[])
 	  for(na=0; na<ntile_atm; na++) {
 	    for(i=0; i<naxo[na][no]; i++) {
 	      lo = atmxocn_jo[na][no][i]*nxo[no] + atmxocn_io[na][no][i];
-	      atmxocn_dio[na][no][i] = atmxocn_clon[na][no][i]/atmxocn_area[na][no][i] - o_clon[no][lo];
+	      atmxocn_dio[na][no][i] = atmxocn_dio[na][no][i]/atmxocn_area[na][no][i] - o_clon[no][lo];
 	      atmxocn_djo[na][no][i] = atmxocn_clat[na][no][i]/atmxocn_area[na][no][i] - o_clat[no][lo];
 	    }
 	  }
@@ -2708,6 +2720,7 @@ int main (int argc, char *argv[])
 		lndxocn_jl[nl][no][nlxo[nl][no]]   = jl;
 		if(interp_order == 2) {
 		  lndxocn_clon[nl][no][nlxo[nl][no]] = poly_ctrlon ( x_out, y_out, n_out, xl_avg)*ocn_frac;
+		  lndxocn_dio[nl][no][nlxo[nl][no]]  = poly_ctrlon ( x_out, y_out, n_out, avgval_double(no_in, xo))*ocn_frac;
 		  lndxocn_clat[nl][no][nlxo[nl][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		}
 		++(nlxo[nl][no]);
@@ -2757,7 +2770,7 @@ int main (int argc, char *argv[])
 	  nxgrid = nlxo[nl][no];
 	  mpp_sum_int(1, &nxgrid);
 	  if(nxgrid > 0) {
-	    double *g_area, *g_clon, *g_clat;
+	    double *g_area, *g_clon, *g_clat, *g_clon2;
 	    int    *g_il,   *g_jl,   *g_io, *g_jo;
 	    int    ii;
 	    g_il = (int    *)malloc(nxgrid*sizeof(int   ));
@@ -2767,12 +2780,14 @@ int main (int argc, char *argv[])
 	    g_area = (double *)malloc(nxgrid*sizeof(double));
 	    g_clon = (double *)malloc(nxgrid*sizeof(double));
 	    g_clat = (double *)malloc(nxgrid*sizeof(double));
+	    g_clon2 = (double *)malloc(nxgrid*sizeof(double));
 	    mpp_gather_field_int   (nlxo[nl][no], lndxocn_il[nl][no], g_il);
 	    mpp_gather_field_int   (nlxo[nl][no], lndxocn_jl[nl][no], g_jl);
 	    mpp_gather_field_int   (nlxo[nl][no], lndxocn_io[nl][no], g_io);
 	    mpp_gather_field_int   (nlxo[nl][no], lndxocn_jo[nl][no], g_jo);
 	    mpp_gather_field_double(nlxo[nl][no], lndxocn_area[nl][no], g_area);
 	    mpp_gather_field_double(nlxo[nl][no], lndxocn_clon[nl][no], g_clon);
+	    mpp_gather_field_double(nlxo[nl][no], lndxocn_dio[nl][no], g_clon2);
 	    mpp_gather_field_double(nlxo[nl][no], lndxocn_clat[nl][no], g_clat);
 	    for(i=0; i<nxgrid; i++) {
 	      ii = g_jl[i]*nxl[nl]+g_il[i];
@@ -2781,7 +2796,7 @@ int main (int argc, char *argv[])
 	      l_clat[ii] += g_clat[i];
 	      ii = g_jo[i]*nxo[no]+g_io[i];
 	      o_area[no][ii] += g_area[i];
-	      o_clon[no][ii] += g_clon[i];
+	      o_clon[no][ii] += g_clon2[i];
 	      o_clat[no][ii] += g_clat[i];
 	    }
 	    free(g_il);
@@ -2791,6 +2806,7 @@ int main (int argc, char *argv[])
 	    free(g_area);
 	    free(g_clon);
 	    free(g_clat);
+	    free(g_clon2);
 	  }
 	}
 	for(ll=0; ll<nxl[nl]*nyl[nl]; ll++) {
@@ -2824,7 +2840,7 @@ int main (int argc, char *argv[])
 	for(nl=0; nl<ntile_lnd; nl++) {
 	  for(i=0; i<nlxo[nl][no]; i++) {
 	    lo = lndxocn_jo[nl][no][i]*nxo[no] + lndxocn_io[nl][no][i];
-	    lndxocn_dio[nl][no][i] = lndxocn_clon[nl][no][i]/lndxocn_area[nl][no][i] - o_clon[no][lo];
+	    lndxocn_dio[nl][no][i] = lndxocn_dio[nl][no][i]/lndxocn_area[nl][no][i] - o_clon[no][lo];
 	    lndxocn_djo[nl][no][i] = lndxocn_clat[nl][no][i]/lndxocn_area[nl][no][i] - o_clat[no][lo];
 	  }
 	}
@@ -3241,6 +3257,7 @@ int main (int argc, char *argv[])
 		  wavxocn_jw[nw][no][nwxo[nw][no]]   = jw;
 		  if(interp_order == 2) {
 		    wavxocn_clon[nw][no][nwxo[nw][no]] = poly_ctrlon ( x_out, y_out, n_out, xw_avg)*ocn_frac;
+		    wavxocn_dio[nw][no][nwxo[nw][no]]  = poly_ctrlon ( x_out, y_out, n_out, avgval_double(no_in, xo))*ocn_frac;
 		    wavxocn_clat[nw][no][nwxo[nw][no]] = poly_ctrlat ( x_out, y_out, n_out )*ocn_frac;
 		  }
 		  ++(nwxo[nw][no]);
@@ -3333,7 +3350,7 @@ int main (int argc, char *argv[])
 	    nxgrid = nwxo[nw][no];
 	    mpp_sum_int(1, &nxgrid);
 	    if(nxgrid > 0) {
-	      double *g_area, *g_clon, *g_clat;
+	      double *g_area, *g_clon, *g_clat, *g_clon2;
 	      int    *g_iw,   *g_jw,   *g_io, *g_jo;
 	      int    ii;
 	      g_iw = (int    *)malloc(nxgrid*sizeof(int   ));
@@ -3343,12 +3360,14 @@ int main (int argc, char *argv[])
 	      g_area = (double *)malloc(nxgrid*sizeof(double));
 	      g_clon = (double *)malloc(nxgrid*sizeof(double));
 	      g_clat = (double *)malloc(nxgrid*sizeof(double));
+	      g_clon2 = (double *)malloc(nxgrid*sizeof(double));
 	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_iw[nw][no], g_iw);
 	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_jw[nw][no], g_jw);
 	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_io[nw][no], g_io);
 	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_jo[nw][no], g_jo);
 	      mpp_gather_field_double(nwxo[nw][no], wavxocn_area[nw][no], g_area);
 	      mpp_gather_field_double(nwxo[nw][no], wavxocn_clon[nw][no], g_clon);
+	      mpp_gather_field_double(nwxo[nw][no], wavxocn_dio[nw][no], g_clon2);
 	      mpp_gather_field_double(nwxo[nw][no], wavxocn_clat[nw][no], g_clat);
 	      for(i=0; i<nxgrid; i++) {
 		ii = g_jw[i]*nxw[nw]+g_iw[i];
@@ -3357,7 +3376,7 @@ int main (int argc, char *argv[])
 		w_clat[ii] += g_clat[i];
 		ii = g_jo[i]*nxo[no]+g_io[i];
 		o_area[no][ii] += g_area[i];
-		o_clon[no][ii] += g_clon[i];
+		o_clon[no][ii] += g_clon2[i];
 		o_clat[no][ii] += g_clat[i];
 	      }
 	      free(g_iw);
@@ -3367,6 +3386,7 @@ int main (int argc, char *argv[])
 	      free(g_area);
 	      free(g_clon);
 	      free(g_clat);
+	      free(g_clon2);
 	    }
 	  }
 
@@ -3401,7 +3421,7 @@ int main (int argc, char *argv[])
 	  for(nw=0; nw<ntile_wav; nw++) {
 	    for(i=0; i<nwxo[nw][no]; i++) {
 	      lo = wavxocn_jo[nw][no][i]*nxo[no] + wavxocn_io[nw][no][i];
-	      wavxocn_dio[nw][no][i] = wavxocn_clon[nw][no][i]/wavxocn_area[nw][no][i] - o_clon[no][lo];
+	      wavxocn_dio[nw][no][i] = wavxocn_dio[nw][no][i]/wavxocn_area[nw][no][i] - o_clon[no][lo];
 	      wavxocn_djo[nw][no][i] = wavxocn_clat[nw][no][i]/wavxocn_area[nw][no][i] - o_clat[no][lo];
 	    }
 	  }
-- 
2.43.0


From 854471a6517ad143b2888ab3c8ceaf86e2dc3ab4 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 11:09:03 +0000
Subject: [PATCH 095/148] fix: fix_lon shifted cells by one turn only, so
 runoff_regrid lost cells of grids two turns apart

---
 lib/libfrencutils/mosaic_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libfrencutils/mosaic_util.c b/lib/libfrencutils/mosaic_util.c
index 9920773..b8881b7 100644
--- a/lib/libfrencutils/mosaic_util.c
+++ b/lib/libfrencutils/mosaic_util.c
@@ -725,8 +725,8 @@ int fix_lon(double x[], double y[], int n, double tlon)
   }
 
   dx = (x_sum/nn)-tlon;
-  if      (dx < -M_PI) for (i=0;i<nn;i++) x[i] += TPI;
-  else if (dx >  M_PI) for (i=0;i<nn;i++) x[i] -= TPI;
+  for (; dx < -M_PI; dx += TPI) for (i=0;i<nn;i++) x[i] += TPI;
+  for (; dx >  M_PI; dx -= TPI) for (i=0;i<nn;i++) x[i] -= TPI;
 
   if (0&&pole) {
     printf("area=%g\n", poly_area(x, y,nn));
-- 
2.43.0


From 5d31357247601887c2490476476b31c55c8e5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:14 +0000
Subject: [PATCH 096/148] fix: runoff_regrid did not find an ocean point
 exactly opposite to a land point

---
 src/runoff-regrid/runoff_regrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runoff-regrid/runoff_regrid.c b/src/runoff-regrid/runoff_regrid.c
index 99e880c..3bfba52 100644
--- a/src/runoff-regrid/runoff_regrid.c
+++ b/src/runoff-regrid/runoff_regrid.c
@@ -725,7 +725,7 @@ void nearest(int nlon, int nlat, double *mask, const double *lon, const double *
   int i,j, n;
   double r, r1;
 
-  r = distance(0.0,M_PI/2,0.0,-M_PI/2);  /* some big value */
+  r = 2*distance(0.0,M_PI/2,0.0,-M_PI/2);  /* some big value */
   for(j=0; j<nlat; j++) for(i=0; i<nlon; i++) {
     n = j*nlon+i;
     if(mask[n] == 0.0) continue;
-- 
2.43.0


From 3f9f803484856f67122ca03692afc7108be82baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:25 +0000
Subject: [PATCH 097/148] fix: make_topog left out source rows whose great
 circle sides reach into the grid of a process

---
 src/make-topog/topog.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 9cb3cf0..3ddc84f 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -441,6 +441,25 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   /* doing the conservative interpolation */
   y_min = minval_double((nx_dst+1)*(ny_dst+1), y_out);
   y_max = maxval_double((nx_dst+1)*(ny_dst+1), y_out);
+  if(use_great_circle_algorithm) {
+    /* the sides are arcs, of which every point lies within half the length of one end */
+    double p1[2], p2[2], len = 0;
+    for(i=0; i<nx_src; i++) len = max(len, RADIUS*fabs(xc_src[i+1]-xc_src[i]));
+    for(j=0; j<=ny_dst; j++) for(i=0; i<=nx_dst; i++) {
+      n = j*(nx_dst+1)+i;
+      p1[0] = x_out[n]; p1[1] = y_out[n];
+      if(i < nx_dst) {
+	p2[0] = x_out[n+1]; p2[1] = y_out[n+1];
+	len = max(len, great_circle_distance(p1, p2));
+      }
+      if(j < ny_dst) {
+	p2[0] = x_out[n+nx_dst+1]; p2[1] = y_out[n+nx_dst+1];
+	len = max(len, great_circle_distance(p1, p2));
+      }
+    }
+    y_min -= 0.5*len/RADIUS;
+    y_max += 0.5*len/RADIUS;
+  }
   jstart = ny_src; jend = -1;
   for(j=0; j<=ny_src; j++){
     yy = yc_src[j];
-- 
2.43.0


From d9d84a46b2cd0f1557beed16557ead9e8abda5e8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:15:33 +0000
Subject: [PATCH 098/148] fix: plevel.sh exited with status 0 when the
 interpolation failed

---
 src/plevel/plevel.sh.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plevel/plevel.sh.in b/src/plevel/plevel.sh.in
index 38bd4fd..4f69966 100755
--- a/src/plevel/plevel.sh.in
+++ b/src/plevel/plevel.sh.in
@@ -238,4 +238,5 @@ then
     rm -f $namelist
 else
     echoerr "$script_name: error running \"$plevel_interp\""
+    exit 1
 fi
-- 
2.43.0


From 4e2929c09892c1fb167c39cfc4af1a80b3bd81f8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:15:33 +0000
Subject: [PATCH 099/148] fix: plevel.sh appended to the namelist a failed run
 had left behind, and so ran with its options

---
 src/plevel/plevel.sh.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plevel/plevel.sh.in b/src/plevel/plevel.sh.in
index 4f69966..ec5e42e 100755
--- a/src/plevel/plevel.sh.in
+++ b/src/plevel/plevel.sh.in
@@ -174,7 +174,7 @@ tloop=`echo ${tlist} | sed -e "s/,/ /g"`
 # Generate namelist for pressure interp program
 namelist="plev.input.nml"
 
-echo " &input" >> $namelist
+echo " &input" > $namelist
 
 # input file names
 echo "     in_file_name =  '$file' ," >> $namelist
-- 
2.43.0


From 9d32f72c90f70e0f7e92de38a36aadb478dc6814 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:15:33 +0000
Subject: [PATCH 100/148] fix: plevel gave fields on levels without a missing
 value the missing value 0, so that their zeros became missing

---
 src/plevel/run_pressure_interp.F90 | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/plevel/run_pressure_interp.F90 b/src/plevel/run_pressure_interp.F90
index 881f011..02d5191 100644
--- a/src/plevel/run_pressure_interp.F90
+++ b/src/plevel/run_pressure_interp.F90
@@ -1383,9 +1383,14 @@ contains
          if (Field%dimlen(3) == nlev+1) zcoord = 2
          if (zcoord == 0) return
          if (Field%static) return   ! 4d static fields not allowed
-         call copy_variable ( ncid_in, trim(name), ncid_out,&
-              & dimids, Field%varid_out,&
-              & missvalue=Field%missval_out  )
+         if (Field%do_miss_in .or. use_default_missing_value) then
+            call copy_variable ( ncid_in, trim(name), ncid_out,&
+                 & dimids, Field%varid_out,&
+                 & missvalue=Field%missval_out  )
+         else
+            call copy_variable ( ncid_in, trim(name), ncid_out,&
+                 & dimids, Field%varid_out )
+         endif
        case (3)
          if (Field%static) then
             if (Field%dimlen(3) == nlev)   zcoord = 1
-- 
2.43.0


From f2fe41787bcdf95a002b69659b9348d6a9d97e99 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:15:33 +0000
Subject: [PATCH 101/148] fix: plevel indexed the dimensions of scalars out of
 bounds and used those of skipped fields undefined

---
 src/plevel/run_pressure_interp.F90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plevel/run_pressure_interp.F90 b/src/plevel/run_pressure_interp.F90
index 02d5191..6cfd7f0 100644
--- a/src/plevel/run_pressure_interp.F90
+++ b/src/plevel/run_pressure_interp.F90
@@ -1179,7 +1179,8 @@ contains
          if ( trim(name) == 'res') cycle    ! for eta coordinate
 
          ! must be 2-d, 3-d, or 4-d field
-         static = dimids(ndim) .ne. rdim
+         static = .true.
+         if (ndim > 0) static = dimids(ndim) .ne. rdim
          threed = .false.
 
          ! skip 3-d fields if flag set
@@ -1284,7 +1285,8 @@ contains
          istat = NF90_INQUIRE_DIMENSION (ncid_in, Field%dimids(idim), len=Field%dimlen(idim))
          if (istat /= NF90_NOERR) call error_handler (ncode=istat)
       enddo
-      Field%static = Field%dimids(Field%ndim) .ne. rdim
+      Field%static = .true.
+      if (Field%ndim > 0) Field%static = Field%dimids(Field%ndim) .ne. rdim
       Field%z_axis = 0
       Field%y_axis = 0
 
@@ -1521,6 +1523,7 @@ contains
          istat = NF90_INQUIRE_VARIABLE ( ncid, ivar, name=name )
          if (istat /= NF90_NOERR) call error_handler (ncode=istat)
          call get_input_variable_info ( name, ncid, Field )
+         if (Field%skip) cycle
 
          ! find first 3d mass field
          if (Field%ndim <= 2) cycle
-- 
2.43.0


From c95ba4ac9a94a1a542bcdc2119d49f9df91d7618 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:15:33 +0000
Subject: [PATCH 102/148] fix: plevel -m changed the missing value attribute of
 surface fields but not their missing data

---
 src/plevel/run_pressure_interp.F90 | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/plevel/run_pressure_interp.F90 b/src/plevel/run_pressure_interp.F90
index 6cfd7f0..a6f7c9d 100644
--- a/src/plevel/run_pressure_interp.F90
+++ b/src/plevel/run_pressure_interp.F90
@@ -1011,6 +1011,7 @@ contains
          call write_variable (ncid_out, Field, data_out, start_out(1:4))
        case (3)
          call read_variable (ncid_in, Field, data_in(:,:,1:1), start_in(1:3))
+         call set_output_missing_value (Field, data_in(:,:,1:1))
          call write_variable (ncid_out, Field, data_in(:,:,1:1), start_out(1:3))
        case default
          call error_handler ('ERROR: only 2-d or 3-d fields allowed')
@@ -1030,6 +1031,16 @@ contains
 
    !#######################################################################
 
+   subroutine set_output_missing_value (Field, data)
+      type(field_type), intent(in)    :: Field
+      real            , intent(inout) :: data(:,:,:)
+
+      if (.not.Field%do_miss_in) return
+      where (data == Field%unpkd_missval_in) data = Field%unpkd_missval_out
+   end subroutine set_output_missing_value
+
+   !#######################################################################
+
    subroutine check_fields ( ncid )
       integer, intent(in) :: ncid
 
@@ -1560,6 +1571,7 @@ contains
 
       ! read data
       call read_variable ( ncid_in, Field, values, start=(/is, js/))
+      call set_output_missing_value (Field, values)
 
       ! write data
       call write_variable ( ncid_out, Field, values)
-- 
2.43.0


From fb4f733c4ce98894ae431d11968c5e6e3848fab2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:16:53 +0000
Subject: [PATCH 103/148] fix: plevel used an undefined level for slp where no
 level is within 20 percent of the surface pressure

---
 src/plevel/run_pressure_interp.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plevel/run_pressure_interp.F90 b/src/plevel/run_pressure_interp.F90
index a6f7c9d..cea124f 100644
--- a/src/plevel/run_pressure_interp.F90
+++ b/src/plevel/run_pressure_interp.F90
@@ -945,6 +945,7 @@ contains
 
                if ( abs(zsurf(i,j)) > 0.0001 ) then
                   ! get ref level for temp (as in spectral model)
+                  kr = kb
                   do k = 1, kb
                      sig = pfull(i,j,k)/pbot(i,j)
                      if ( sig > 0.8 ) then
-- 
2.43.0


From 3d37db9f00d05cd4c4163303279bf76d4a8f0515 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:16:53 +0000
Subject: [PATCH 104/148] fix: plevel -d 2 read the name of field 0 when sphum
 is not in the file

---
 src/plevel/run_pressure_interp.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plevel/run_pressure_interp.F90 b/src/plevel/run_pressure_interp.F90
index cea124f..1c1edbf 100644
--- a/src/plevel/run_pressure_interp.F90
+++ b/src/plevel/run_pressure_interp.F90
@@ -864,7 +864,7 @@ contains
          ! interpolate temp, sphum, hght
          if ( verbose > 1 ) then
             write (error_unit, *) 'Interp field = ',trim(Fields(index_temp)%name)
-            write (error_unit, *) 'Interp field = ',trim(Fields(index_sphum)%name)
+            if (sphum_present) write (error_unit, *) 'Interp field = ',trim(Fields(index_sphum)%name)
          endif
          Interp(1) = pres_interp_init ( pfull, pout, kbot,   &
             tin=temp_in,  tout=temp_out,  &
-- 
2.43.0


From fbbb0bd274bb938da559cef8d7bbd6ffc4c58f6d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:16:53 +0000
Subject: [PATCH 105/148] fix: the saturation vapour pressure table was read
 out of bounds before the temperature was checked

---
 src/plevel/moisture_convert.F90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plevel/moisture_convert.F90 b/src/plevel/moisture_convert.F90
index 404e14e..c94256d 100644
--- a/src/plevel/moisture_convert.F90
+++ b/src/plevel/moisture_convert.F90
@@ -309,13 +309,14 @@ contains
     tmp = temp-tmin
     ind = int(dtinv*(tmp+teps))
     del = tmp-dtres*real(ind)
-    esat = TABLE(ind+1) + del*(DTABLE(ind+1) + del*D2TABLE(ind+1))
 
     if (ind < 0 .or. ind > nlim) then
        print *, 'ERROR: saturation vapor pressure error'
        stop 111
     endif
 
+    esat = TABLE(ind+1) + del*(DTABLE(ind+1) + del*D2TABLE(ind+1))
+
   end subroutine lookup_es_0d
 
 !-----------------------------------------------------------------------
@@ -335,11 +336,11 @@ contains
        tmp = temp(i,j,k)-tmin
        ind = int(dtinv*(tmp+teps))
        del = tmp-dtres*real(ind)
-       esat(i,j,k) = TABLE(ind+1) + del*(DTABLE(ind+1) + del*D2TABLE(ind+1))
        if (ind < 0 .or. ind > nlim) then
           print *, 'ERROR: saturation vapor pressure error'
           stop 111
        endif
+       esat(i,j,k) = TABLE(ind+1) + del*(DTABLE(ind+1) + del*D2TABLE(ind+1))
     enddo
     enddo
     enddo
-- 
2.43.0


From a7a5b3baa9895e5ae5dfe4ea0adfe44c1887b7a9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 106/148] fix: make_quick_mosaic wrote the topography file name
 shifted for mosaics of several tiles

---
 src/make-quick-mosaic/make_quick_mosaic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index ea59e2c..ca23a4f 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -806,7 +806,7 @@ printf("%15.10f, %15.10f, %15.10f\n", ocean_area[n][i], land_area[n][i]+AREA_RAT
     mpp_put_var_value_block(fid, id_omosaic, start, nwrite, omosaic_name);
 
     for(n=0; n<ntiles; n++) {
-      start[0] = n; nwrite[0] =1;
+      start[0] = 0; nwrite[0] =1;
       start[1] = 0; nwrite[1] =1;
       if(use_ocean_topog) {
          nwrite[0] = strlen(ocn_topog_file[n]);
-- 
2.43.0


From 6a9af44e03ad8620caaf6f37897fae40b325eec9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 107/148] fix: make_quick_mosaic did not terminate the name of
 the land fraction file of several tiles

---
 src/make-quick-mosaic/make_quick_mosaic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index ca23a4f..26d5c99 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -364,7 +364,10 @@ int main (int argc, char *argv[])
     if(ntiles>1) {
       len = strlen(land_frac_file);
       if( strstr(land_frac_file, ".nc") )
-	strncpy(str1, land_frac_file, len-3);
+	{
+	  strncpy(str1, land_frac_file, len-3);
+	  str1[len-3] = '\0';
+	}
       else
 	strcpy(str1, land_frac_file);
     }
-- 
2.43.0


From 400dff1dd39c9a66f17a76b8d533bea469c8fd8f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 108/148] fix: make_quick_mosaic overran the buffer of its copy
 command in directories with long names

---
 src/make-quick-mosaic/make_quick_mosaic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index 26d5c99..b26f388 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -234,7 +234,7 @@ int main (int argc, char *argv[])
   /* copy the solo_mosaic file and grid file */
   {
     int fid2, vid2;
-    char cmd[STRING], gridfile[STRING];
+    char cmd[3*STRING+8], gridfile[STRING];
     size_t start[4], nread[4];
     sprintf(cmd, "cp %s %s", filepath, solo_mosaic);
 
-- 
2.43.0


From 6ab3caf27a9e62b149195f9ec751b50f41b9005f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 109/148] fix: make_regional_mosaic took the tile number from
 the name of a directory

---
 src/make-regional-mosaic/make_regional_mosaic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/make-regional-mosaic/make_regional_mosaic.c b/src/make-regional-mosaic/make_regional_mosaic.c
index 42d25d8..331676f 100644
--- a/src/make-regional-mosaic/make_regional_mosaic.c
+++ b/src/make-regional-mosaic/make_regional_mosaic.c
@@ -146,11 +146,14 @@ int main(int argc, char* argv[])
   {
     char *pch=NULL;
     char str[32];
+    const char *file;
     int  n;
     tile = -1;
+    file = strrchr(regional_file, '/');
+    if(!file) file = regional_file;
     for(n=0; n<ntiles; n++) {
       sprintf(str, ".tile%d.nc", n+1);
-      pch = strstr (regional_file, str);
+      pch = strstr (file, str);
 
       if( pch ) {
 	tile = n;
-- 
2.43.0


From 6608f69fd9881de5af79ec9c4f6df2b299b25e9e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:30:33 +0000
Subject: [PATCH 110/148] fix: make_land_domain copied the restart file name
 the wrong way for mosaics of one tile

---
 src/make-land-domain/make_land_domain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-land-domain/make_land_domain.c b/src/make-land-domain/make_land_domain.c
index bc054b0..a4a7eda 100644
--- a/src/make-land-domain/make_land_domain.c
+++ b/src/make-land-domain/make_land_domain.c
@@ -231,7 +231,7 @@ int main(int argc, char* argv[])
       int num_idx, i;
       int *idx;
       if(nfaces==1)
-	strcpy(land_restart, land_restart_file);
+	strcpy(land_restart_file, land_restart);
       else
 	sprintf(land_restart_file, "%s.tile%d.nc", land_restart, face+1);
       fid2 = mpp_open(land_restart_file, MPP_READ);
-- 
2.43.0


From 2ebc407d877ac0a8a1412524036d9ab73e0973da Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:30:33 +0000
Subject: [PATCH 111/148] fix: make_land_domain took exchange grids of other
 tiles whose file name contains that of the land tile

---
 src/make-land-domain/make_land_domain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-land-domain/make_land_domain.c b/src/make-land-domain/make_land_domain.c
index a4a7eda..b279812 100644
--- a/src/make-land-domain/make_land_domain.c
+++ b/src/make-land-domain/make_land_domain.c
@@ -165,7 +165,7 @@ int main(int argc, char* argv[])
       nland_face[face] = 0;
       land_mask[face] = (int *)malloc(nx*ny*sizeof(int));
       for(n=0; n<nx*ny; n++) land_mask[face][n] = 0;
-      sprintf(face_name, "%s_tile%d", mosaic_name, face+1);
+      sprintf(face_name, "X%s_tile%d.nc", mosaic_name, face+1);
       for(n=0; n<nx*ny; n++) land_area[n] = 0.0;
       for(n=0; n<nfile_aXl; n++) {
 	size_t start[4], nread[4];
-- 
2.43.0


From 9e54ee779169dd941a3e2de61199c12907c7245a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:41:14 +0000
Subject: [PATCH 112/148] fix: river_regrid copied the wrong number of columns
 between cyclic northern and southern boundaries

---
 src/river-regrid/river_regrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index 66bc976..f1ff432 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -789,7 +789,7 @@ void update_halo_double(int ntiles, double **data, int nx, int ny, unsigned int
     }
   }
   if(opcode & Y_CYCLIC) {
-    for(i=1; i<nyp1; i++) {
+    for(i=1; i<nxp1; i++) {
       data[0][i]           = data[0][ny*nxp2+i];     /* south */
       data[0][nyp1*nxp2+i] = data[0][nxp2+i];        /* north */
     }
-- 
2.43.0


From 733c047e058c8344c8cafff4fb1410f06d941552 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:41:14 +0000
Subject: [PATCH 113/148] fix: river_regrid stopped before any river that ends
 in an ocean cell when no point drains into a point without direction

---
 src/river-regrid/river_regrid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index f1ff432..c061711 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -1093,7 +1093,8 @@ void calc_river_data(int ntiles, river_type* river_data, unsigned int opcode )
   cur_travel = 0;
 
   not_done = 1;
-  while(not_done) {
+  /* the last points have travel 0 or 1 */
+  while(not_done || cur_travel < 2) {
     not_done = 0;
     for(n=0; n<ntiles; n++) {
       for(j=1; j<=ny; j++) for(i=1; i<=nx; i++) {
-- 
2.43.0


From 92438a1610bb7f4fdb62145c1a5ad791ea45ffd9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:41:14 +0000
Subject: [PATCH 114/148] fix: river_regrid truncated the missing value of subA
 to an integer

---
 src/river-regrid/river_regrid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index c061711..a7bc515 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -643,7 +643,8 @@ void get_mosaic_grid(const char *coupler_mosaic, const char *land_mosaic, int nt
 void init_river_data(int ntiles, river_type *river_out, const river_type * const river_in)
 {
   int nx, ny, nxp2, nyp2, n, i;
-  int tocell_missing, subA_missing, travel_missing, basin_missing;
+  int tocell_missing, travel_missing, basin_missing;
+  double subA_missing;
   double cellarea_missing, celllength_missing;
 
   nx = river_out->nx;
-- 
2.43.0


From b372eb36029b6077ab70b463c6841b48a7ae82b5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:41:14 +0000
Subject: [PATCH 115/148] fix: river_regrid took the exchange grid of tile 10
 for part of tile 1

---
 src/river-regrid/river_regrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/river-regrid/river_regrid.c b/src/river-regrid/river_regrid.c
index a7bc515..f77d1f0 100644
--- a/src/river-regrid/river_regrid.c
+++ b/src/river-regrid/river_regrid.c
@@ -496,7 +496,7 @@ void get_mosaic_grid(const char *coupler_mosaic, const char *land_mosaic, int nt
 
     /* calculate the land fraction */
     if(!read_land_mask) {
-      sprintf(tilename, "X%s_tile%d", land_mosaic_name, n+1);
+      sprintf(tilename, "X%s_tile%d.nc", land_mosaic_name, n+1);
       for(m=0; m<n_xgrid_files; m++) {
 	if(strstr(xgrid_file[m],tilename) || ntiles == 1) {
 	  int    nxgrid, l;
-- 
2.43.0


From 9b8b9199f47c11235a89e8f15c47c5962b7a98d2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:21:37 +0000
Subject: [PATCH 116/148] fix: fregrid lost or misplaced the values of
 variables it only copies

A variable without X and Y axes was written with nc_put_var before any
record existed, so one on the time axis came out empty, and with
--KlevelBegin or --LstepBegin it held the first values instead of the
selected ones. When it was listed before a regridded field, the selection
was lost for the axis as well.
---
 lib/libfrencutils/globals.h |  1 +
 src/fre-grid/fregrid_util.c | 67 +++++++++++++++++++++++++------------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/lib/libfrencutils/globals.h b/lib/libfrencutils/globals.h
index 9c1209d..e457543 100644
--- a/lib/libfrencutils/globals.h
+++ b/lib/libfrencutils/globals.h
@@ -120,6 +120,7 @@ typedef struct {
   int  vid;
   int  bndid;
   int  size;
+  int  start;
   nc_type type;
   char cart; 
   int  bndtype;
diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 11a49a1..5d9ce3d 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1279,7 +1279,18 @@ void get_input_metadata(int ntiles, int nfiles, File_config *file1, File_config
         }
         for (i = 0; i < ndim; i++) {
           /* loop through all the file dimensions to see if the dimension already exist or not */
-          int found, j;
+          int found, j, axis_start, axis_size;
+          axis_start = 0;
+          axis_size = dimsize[i];
+          if (field[n].var[ll].do_regrid) {
+            if (cart[i] == 'T') {
+              axis_start = field[n].var[ll].lstart;
+              axis_size = file[n].nt;
+            } else if (cart[i] == 'Z') {
+              axis_start = field[n].var[ll].kstart;
+              axis_size = field[n].var[ll].nz;
+            }
+          }
           found = 0;
           for (j = 0; j < file[n].ndim; j++) {
             if (!strcmp(dimname[i], file[n].axis[j].name)) {
@@ -1288,32 +1299,26 @@ void get_input_metadata(int ntiles, int nfiles, File_config *file1, File_config
               break;
             }
           }
-          if (!found) {
-            j = file[n].ndim;
-            field[n].var[ll].index[i] = file[n].ndim;
-            file[n].ndim++;
-            if (file[n].ndim > MAXDIM) mpp_error("get_input_metadata(fregrid_util.c):ndim is greater than MAXDIM");
+          /* a variable that is only copied may have brought in the complete axis already */
+          if (!found || (field[n].var[ll].do_regrid && file[n].axis[j].size != axis_size)) {
+            if (found) {
+              free(file[n].axis[j].data);
+              if (file[n].axis[j].bndtype > 0) free(file[n].axis[j].bnddata);
+            } else {
+              j = file[n].ndim;
+              field[n].var[ll].index[i] = file[n].ndim;
+              file[n].ndim++;
+              if (file[n].ndim > MAXDIM) mpp_error("get_input_metadata(fregrid_util.c):ndim is greater than MAXDIM");
+            }
 
             file[n].axis[j].cart = cart[i];
             file[n].axis[j].type = type[i];
             strcpy(file[n].axis[j].name, dimname[i]);
             strcpy(file[n].axis[j].bndname, bndname[i]);
             file[n].axis[j].vid = mpp_get_varid(file[n].fid, dimname[i]);
-            if (field[n].var[ll].do_regrid) {
-              if (cart[i] == 'T') {
-                start[0] = field[n].var[ll].lstart;
-                file[n].axis[j].size = file[n].nt;
-              } else if (cart[i] == 'Z') {
-                start[0] = field[n].var[ll].kstart;
-                file[n].axis[j].size = field[n].var[ll].nz;
-              } else {
-                start[0] = 0;
-                file[n].axis[j].size = dimsize[i];
-              }
-            } else {
-              start[0] = 0;
-              file[n].axis[j].size = dimsize[i];
-            }
+            start[0] = axis_start;
+            file[n].axis[j].start = axis_start;
+            file[n].axis[j].size = axis_size;
             file[n].axis[j].data = (double *)malloc(file[n].axis[j].size * sizeof(double));
             nread[0] = file[n].axis[j].size;
             mpp_get_var_value_block(file[n].fid, file[n].axis[j].vid, start, nread, file[n].axis[j].data);
@@ -1879,8 +1884,26 @@ void set_output_metadata (int ntiles_in, int nfiles, const File_config *file1_in
 	}
 	*/
 	for(l=0; l<nscalar; l++) {
+	  size_t start_in[5], start_out[5], count[5], dsize;
+	  double *data;
 	  if( scalar_in[0].var[l].is_axis_data || scalar_in[0].var[l].do_regrid ) continue;
-	  mpp_copy_data(file_in[0].fid, scalar_in[0].var[l].vid, file_out[n].fid, scalar_out[n].var[l].vid);
+	  if( scalar_in[0].var[l].ndim == 0 ) {
+	    mpp_copy_data(file_in[0].fid, scalar_in[0].var[l].vid, file_out[n].fid, scalar_out[n].var[l].vid);
+	    continue;
+	  }
+	  /* the part of the axes that is selected, all records included */
+	  dsize = 1;
+	  for(i=0; i<scalar_in[0].var[l].ndim; i++) {
+	    Axis_config *axis = file_in[0].axis + scalar_in[0].var[l].index[i];
+	    start_in[i]  = axis->start;
+	    start_out[i] = 0;
+	    count[i]     = axis->size;
+	    dsize *= count[i];
+	  }
+	  data = (double *)malloc(dsize*sizeof(double));
+	  mpp_get_var_value_block(file_in[0].fid, scalar_in[0].var[l].vid, start_in, count, data);
+	  mpp_put_var_value_block(file_out[n].fid, scalar_out[n].var[l].vid, start_out, count, data);
+	  free(data);
 	}
       }
     }
-- 
2.43.0


From 4ba481cf3948bb16b9245e6a8d80fb3ae642f2b1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:30:33 +0000
Subject: [PATCH 117/148] fix: fregrid --dst_vgrid without --extrapolate read a
 grid it had not loaded

Extrapolation was switched on after the input grid had been read without
the cell centres it needs, and after the check of the kind of grid.
---
 src/fre-grid/fregrid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index d68d308..a98ee35 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -740,6 +740,8 @@ int main(int argc, char* argv[])
   else
     y_at_center = 1;
 
+  /* when vertical_interp is set, extrapolate must be set */
+  if(vertical_interp) extrapolate = 1;
   if(extrapolate) opcode |= EXTRAPOLATE;
 
   /* memory allocation for data structure */
@@ -802,8 +804,6 @@ int main(int argc, char* argv[])
     }
   }
 
-  /* when vertical_interp is set, extrapolate must be set */
-  if( vertical_interp) extrapolate = 1;
   /* vertical_interp and extrapolate is not supported for vector interpolation */
   if( nvector > 0) {
     if(vertical_interp) mpp_error("fregrid: vertical_interp is not supported for vector fields");
-- 
2.43.0


From dea1986f5824fc92da780ad37de3330427ea9333 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:30:33 +0000
Subject: [PATCH 118/148] fix: fregrid --extrapolate replaced the zeros of
 fields without a missing value

---
 src/fre-grid/fregrid_util.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 5d9ce3d..17bc9f3 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2079,7 +2079,11 @@ void get_input_data(int ntiles, Field_config *field, Grid_config *grid, Bound_co
   double      missing_value;
   size_t      start2[4], nread2[4];
 
-  has_missing = field->var[varid].has_missing || extrapolate; /* extrapolation clears has_missing */
+  has_missing = field->var[varid].has_missing;
+  if(extrapolate) { /* extrapolation clears has_missing */
+    has_missing = mpp_var_att_exist(*(field->fid), field->var[varid].vid, "missing_value") ||
+      mpp_var_att_exist(*(field->fid), field->var[varid].vid, "_FillValue");
+  }
   missing_value = field->var[varid].missing;
   interp_method = field->var[varid].interp_method;
   if(interp_method == CONSERVE_ORDER1)
@@ -2157,7 +2161,7 @@ void get_input_data(int ntiles, Field_config *field, Grid_config *grid, Bound_co
     }
 
     /* extrapolate data if needed */
-    if(extrapolate) {
+    if(extrapolate && has_missing) {
       double *tmp = NULL;
 
       tmp = (double *)malloc(nx*ny*nz*sizeof(double));
-- 
2.43.0


From ad915d6d60539b7cc31eba8a5ac736e4e2dc9cb0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:30:33 +0000
Subject: [PATCH 119/148] fix: fregrid --dst_vgrid wrote fields without levels
 as if they had the levels of the new grid

---
 src/fre-grid/fregrid_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 17bc9f3..855b6f9 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1528,7 +1528,7 @@ void set_output_metadata (int ntiles_in, int nfiles, const File_config *file1_in
   for(n=0; n<ntiles_out; n++) {
     for(l=0; l<nscalar; l++) {
       copy_var_config(scalar_in[0].var+l, scalar_out[n].var+l);
-      if( vgrid_out->nz > 0) scalar_out[n].var[l].nz = vgrid_out->nz;
+      if( vgrid_out->nz > 0 && scalar_out[n].var[l].has_zaxis ) scalar_out[n].var[l].nz = vgrid_out->nz;
     }
 
     for(l=0; l<nvector; l++) {
-- 
2.43.0


From b6215943be9e193a2c88089bcd56d1e142d4beae Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:31:17 +0000
Subject: [PATCH 120/148] fix: fregrid --extrapolate marked uncovered target
 cells with -1e20 instead of the missing value

---
 src/fre-grid/conserve_interp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index cecd5eb..d43e863 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -536,7 +536,8 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
   if( field_in->var[varid].use_volume ) target_grid = 0;
 
   missing = -MAXVAL;
-  if(has_missing) missing = field_in->var[varid].missing;
+  /* has_missing of the input is off once its missing points are filled by extrapolation */
+  if(has_missing || field_out->var[varid].has_missing) missing = field_in->var[varid].missing;
 
   if( nz>1 && has_missing ) mpp_error("conserve_interp: has_missing should be false when nz > 1");
   if( nz>1 && cell_measures ) mpp_error("conserve_interp: cell_measures should be false when nz > 1");
-- 
2.43.0


From 9ec40ded0905dc38fa14f8e02dd1415df0ff4e1e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:31:17 +0000
Subject: [PATCH 121/148] fix: fregrid --dst_vgrid interpolated only the first
 output tile and wrote outside it

Other tiles, and parts of a tile on several processes, were left or taken
with the wrong size, a target grid entirely outside the levels of the source
was written before the start of the data, and missing cells were averaged.
---
 src/fre-grid/fregrid.c      |  4 +++-
 src/fre-grid/fregrid_util.c | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index a98ee35..cb78054 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -1053,7 +1053,9 @@ int main(int argc, char* argv[])
 	    do_scalar_bilinear_interp(interp, l, ntiles_in, grid_in, grid_out, scalar_in, scalar_out, finer_step, fill_missing);
 	  else
 	    do_scalar_conserve_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, scalar_in, scalar_out, opcode, scalar_in->var[l].nz);
-          if(vertical_interp) do_vertical_interp(&vgrid_in, &vgrid_out, grid_out, scalar_out, l);
+          if(vertical_interp) {
+	    for(n=0; n<ntiles_out; n++) do_vertical_interp(&vgrid_in, &vgrid_out, grid_out+n, scalar_out+n, l);
+	  }
 	  write_field_data(ntiles_out, scalar_out, grid_out, l, -1, level_n, m);
 	  if(scalar_out->var[l].interp_method == CONSERVE_ORDER2) {
 	    for(n=0; n<ntiles_in; n++) {
diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 855b6f9..6b645bb 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -795,8 +795,11 @@ void do_vertical_interp(VGrid_config *vgrid_in, VGrid_config *vgrid_out, Grid_co
   if(vgrid_out->need_interp && field->var[varid].has_zaxis ) {
     nk1 = vgrid_in->nz;
     nk2 = vgrid_out->nz;
-    nx  = grid_out->nx;
-    ny  = grid_out->ny;
+    if(field->var[varid].kend - field->var[varid].kstart + 1 != nk1)
+      mpp_error("fregrid_util: with --dst_vgrid all fields must have the vertical axis of the first field and "
+		"KlevelBegin and KlevelEnd can not be used");
+    nx  = grid_out->nxc;
+    ny  = grid_out->nyc;
     tmp = (double *)malloc(nx*ny*nk1*sizeof(double));
     for(i=0; i<nx*ny*nk1; i++) tmp[i] = field->data[i];
     if(nk1 != nk2 ) {
@@ -809,11 +812,17 @@ void do_vertical_interp(VGrid_config *vgrid_in, VGrid_config *vgrid_out, Grid_co
     for(k=0; k<kstart; k++) {
       for(i=0; i<nx*ny; i++) field->data[k*nx*ny+i] = tmp[i];
     }
-    for(k=kend; k<nk2; k++) {
+    for(k=kend+1; k<nk2; k++) {
       for(i=0; i<nx*ny; i++) field->data[k*nx*ny+i] = tmp[(nk1-1)*nx*ny+i];
     }
-    nk2 = kend - kstart + 1;
-    linear_vertical_interp(nx, ny, nk1, nk2, vgrid_in->z, vgrid_out->z+kstart, tmp, field->data+kstart*nx*ny);
+    if(kend >= kstart)
+      linear_vertical_interp(nx, ny, nk1, kend-kstart+1, vgrid_in->z, vgrid_out->z+kstart, tmp, field->data+kstart*nx*ny);
+    /* a cell without data has none at any level */
+    if(field->var[varid].has_missing) {
+      for(i=0; i<nx*ny; i++) if(tmp[i] == field->var[varid].missing) {
+	for(k=0; k<nk2; k++) field->data[k*nx*ny+i] = field->var[varid].missing;
+      }
+    }
     free(tmp);
   }
 
-- 
2.43.0


From fd6f085dde25783ada70c52f96f51c2b61913b4c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:31:17 +0000
Subject: [PATCH 122/148] fix: fregrid --extrapolate drew values toward zero at
 the edges of the grid

The points beyond an edge that is not cyclic were held at zero.
---
 src/fre-grid/fregrid_util.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 6b645bb..c467508 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2856,4 +2856,14 @@ void fill_boundaries(int ni, int nj, double *data, int is_cyclic)
       data[j*(ni+2)+ni+1] = data[j*(ni+2)+1];
     }
   }
+  else {
+    for(j=1; j<=nj; j++) {
+      data[j*(ni+2)]      = data[j*(ni+2)+1];
+      data[j*(ni+2)+ni+1] = data[j*(ni+2)+ni];
+    }
+  }
+  for(i=1; i<=ni; i++) {
+    data[i]               = data[ni+2+i];
+    data[(nj+1)*(ni+2)+i] = data[nj*(ni+2)+i];
+  }
 }
-- 
2.43.0


From e06bc9f218b5f6785c7653f680dd3c1fc3394d88 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:42:26 +0000
Subject: [PATCH 123/148] fix: remap_land looked up source cohorts with the
 number of destination faces

---
 src/remap-land/remap_land.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index e4d77e3..efd12bb 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1539,7 +1539,7 @@ int main(int argc, char *argv[]) {
       if (filetype == VEGNTYPE) {
 
         ncoho_idx_dst = compute_dst_coho_idx_size(isc_dst, iec_dst, ntile_src, ncohort, nx_src * ny_src, ntile_src,
-                                                  nface_dst,face_dst, idx_map_soil, idx_map_soil_sf, face_map_soil,
+                                                  nface_src,face_dst, idx_map_soil, idx_map_soil_sf, face_map_soil,
                                                   land_idx_map, land_idx_map_otn, idx_soil_src_otn, ncoho_idx_src, coho_idx_src);
         ncoho_idx_dst_global = ncoho_idx_dst;
         mpp_sum_int(1, &ncoho_idx_dst_global); //TODO: Is a synch needed? Why the 1 in 1st arg.
@@ -1555,7 +1555,7 @@ int main(int argc, char *argv[]) {
         }
 
         int ncoho_idx_dst_temp = compute_dst_coho_idx(
-            isc_dst, iec_dst, nx_dst * ny_dst, ntile_src, ncohort, nx_src * ny_src, ntile_src, nface_dst, face_dst,
+            isc_dst, iec_dst, nx_dst * ny_dst, ntile_src, ncohort, nx_src * ny_src, ntile_src, nface_src, face_dst,
             idx_map_soil, idx_map_soil_sf, face_map_soil, land_idx_map, land_idx_map_otn, idx_soil_src_otn, ncoho_idx_src, coho_idx_src,
             coho_idx_dst, coho_idx_data_pos, coho_idx_data_face);
 
-- 
2.43.0


From d058566f28b14f94d01123893331ccd550b24bb5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:42:26 +0000
Subject: [PATCH 124/148] fix: remap_land refused vegetation whose nearest soil
 is on another face

A second search limited to the face of the destination, whose result is not
used, failed when that source face has no soil or does not exist.
---
 src/remap-land/remap_land.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index efd12bb..49cbee6 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1376,13 +1376,6 @@ int main(int argc, char *argv[]) {
                                 lake_count_cold, idx_map_lake, face_map_lake);
         }
 
-
-          if (filetype == VEGNTYPE) {
-            search_nearest_sface(nx_src * ny_src, x_src, y_src, soil_count_src, nxc_dst, x_dst, y_dst,
-                                 soil_count_cold, idx_map_soil, face_map_soil, face_dst, idx_map_soil_sf);
-
-          }
-
         if (write_remap_file) { /* write out restart file */
           int *gdata = NULL;
           int fid;
-- 
2.43.0


From 3d8da08a1e046d76b0382a44665fdc5171739136 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:42:26 +0000
Subject: [PATCH 125/148] fix: remap_land wrote the cohort axis of a cold
 restart through a null pointer

---
 src/remap-land/remap_land.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 49cbee6..72254d0 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -2241,7 +2241,7 @@ int main(int argc, char *argv[]) {
         if (t == 0 && src_has_cohort == 0 && cold_has_cohort == 1) {
           int *cohort_data_cold = NULL;
           cohort_data_cold = (int *)malloc(ncohort * sizeof(int));
-          for (int ic = 0; ic < ncohort; ic++) cohort_data[ic] = ic + 1;
+          for (int ic = 0; ic < ncohort; ic++) cohort_data_cold[ic] = ic + 1;
           vid_dst = mpp_get_varid(fid_dst, COHORT_NAME);
           mpp_put_var_value(fid_dst, vid_dst, cohort_data_cold);
           free(cohort_data_cold);
-- 
2.43.0


From 5069e72bc5a5b945fdad744d86cf90e274f235ca Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:42:26 +0000
Subject: [PATCH 126/148] fix: remap_land accepted one soil tile too many in a
 cell

---
 src/remap-land/remap_land.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 72254d0..09878ab 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -2470,7 +2470,7 @@ void get_land_tile_info(int fid, const char *name1, const char *name2, int nidx,
       int it = idx_in[l] / (nx * ny);
       if (p < isc || p > iec) continue;
       p = p - isc;
-      if (count[p] > ntile)
+      if (count[p] >= ntile)
         mpp_error("remap_land: number of tiles is greater than allowed ntiles on one grid cell");
       frac[ntile * p + count[p]] = frac_in[l];
       tag1[ntile * p + count[p]] = tmp1[l];
-- 
2.43.0


From c05e6f0ea801033c2632408b586b833e25ae512e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:42:26 +0000
Subject: [PATCH 127/148] fix: remap_land consistency check of soil tiles was
 off by one

---
 src/remap-land/remap_land.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 09878ab..c788894 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1026,7 +1026,7 @@ int main(int argc, char *argv[]) {
                 p = n * nx_src * ny_src + l;
                 idx = idx_soil_src[ntile_src * p + m];
                 if (idx == MPP_FILL_INT) continue;
-                if (idx > nidx_src[n]) mpp_error("remap_land: idx is out of bound for soil consistency check");
+                if (idx >= nidx_src[n]) mpp_error("remap_land: idx is out of bound for soil consistency check");
                 idx = idx_src[idx];
                 i = idx % nx_src;
                 k = idx / nx_src;
-- 
2.43.0


From ced63d4aae02b983ce7fe559ffcfaba773abc859 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:42:26 +0000
Subject: [PATCH 128/148] fix: remap_land wrote past the tiles of a cell that
 needs more than the source has

---
 src/remap-land/remap_land.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index c788894..c0be173 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1453,6 +1453,8 @@ int main(int argc, char *argv[]) {
             count = soil_count_src[p];
             if (filetype != GLACTYPE && filetype != LAKETYPE) {
               pos = land_count_dst[i];
+              if (pos + count > ntile_dst)
+                mpp_error("remap_land: more tiles in a destination cell than the source restart has");
               totfrac = 0;
               for (l = 0; l < count; l++) {
                 int idst = ntile_dst * i + pos;
@@ -1481,6 +1483,8 @@ int main(int argc, char *argv[]) {
               count = glac_count_src[p];
               if (count != 1) mpp_error("remap_land: glac_count_src should be 1");
               if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != LAKETYPE) {
+                if (pos >= ntile_dst)
+                  mpp_error("remap_land: more tiles in a destination cell than the source restart has");
                 glac_tag_dst[ntile_dst * i + pos] = glac_tag_src[p];
                 land_frac_dst[ntile_dst * i + pos] = glac_frac_cold[i]; /* preserve fraction in cold restart file
                                                                          */
@@ -1500,6 +1504,8 @@ int main(int argc, char *argv[]) {
               pos = land_count_dst[i];
               if (count != 1) mpp_error("remap_land: lake_count_src should be 1");
               if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != GLACTYPE) {
+                if (pos >= ntile_dst)
+                  mpp_error("remap_land: more tiles in a destination cell than the source restart has");
                 lake_tag_dst[ntile_dst * i + pos] = lake_tag_src[p];
                 land_frac_dst[ntile_dst * i + pos] = lake_frac_cold[i]; /* preserve fraction in cold restart file*/
                 land_idx_map[ntile_dst * i + pos] = idx_lake_src[p];
-- 
2.43.0


From b29b73611f1450b08a5fc47656937af2df92cd00 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:48:01 +0000
Subject: [PATCH 129/148] fix: remap_land gave glacier and lake tiles the fire
 data of unrelated soil tiles

A fire restart holds, like the soil and vegetation restarts, only the tiles
with soil.  Glacier and lake tiles of the cold restart were added to the
output and filled from positions counted among the glacier or lake tiles of
the source, i.e. with the data of arbitrary soil tiles, or from beyond the
end of the source data.
---
 src/remap-land/remap_land.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index c0be173..9b11d44 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -1482,7 +1482,7 @@ int main(int argc, char *argv[]) {
               pos = land_count_dst[i];
               count = glac_count_src[p];
               if (count != 1) mpp_error("remap_land: glac_count_src should be 1");
-              if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != LAKETYPE) {
+              if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != FIRETYPE && filetype != LAKETYPE) {
                 if (pos >= ntile_dst)
                   mpp_error("remap_land: more tiles in a destination cell than the source restart has");
                 glac_tag_dst[ntile_dst * i + pos] = glac_tag_src[p];
@@ -1503,7 +1503,7 @@ int main(int argc, char *argv[]) {
               count = lake_count_src[p];
               pos = land_count_dst[i];
               if (count != 1) mpp_error("remap_land: lake_count_src should be 1");
-              if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != GLACTYPE) {
+              if (filetype != SOILTYPE && filetype != VEGNTYPE && filetype != FIRETYPE && filetype != GLACTYPE) {
                 if (pos >= ntile_dst)
                   mpp_error("remap_land: more tiles in a destination cell than the source restart has");
                 lake_tag_dst[ntile_dst * i + pos] = lake_tag_src[p];
-- 
2.43.0


From dcf2d92dbda1750826fb8aaf3a3ae66a64dcfb71 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:53:11 +0000
Subject: [PATCH 130/148] fix: remap_land shifted the tiles that follow one
 holding a fill value

The values of a variable were compressed by dropping those equal to the fill
value.  Where a tile of a soil, vegetation, fire, glacier or lake restart holds
that value, all later tiles got the data of their successors (and in the other
types an undefined value was written for it).  The tiles that exist are known
from land_idx_map; use it.
---
 src/remap-land/remap_land.c | 54 +++++++++++++++----------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/src/remap-land/remap_land.c b/src/remap-land/remap_land.c
index 9b11d44..bdb9957 100644
--- a/src/remap-land/remap_land.c
+++ b/src/remap-land/remap_land.c
@@ -160,9 +160,9 @@ void get_land_tile_info(int fid, const char *name1, const char *name2, int nidx,
 void full_search_nearest(int nface_src, int npts_src, const double *lon_src, const double *lat_src,
                          const int *mask_src, int npts_dst, const double *lon_dst, const double *lat_dst,
                          const int *mask_dst, int *idx_map, int *face_map);
-void compress_int_data(int ntile, int npts, int nidx, int nidx_global, const int *land_count,
+void compress_int_data(int ntile, int npts, int nidx, int nidx_global, const int *land_idx_map,
                        const int *data, int *data_global, int all_tile );
-void compress_double_data(int ntile, int npts, int nidx, int nidx_global, const int *land_count,
+void compress_double_data(int ntile, int npts, int nidx, int nidx_global, const int *land_idx_map,
                           const double *data, double *data_global, int all_tile );
 int compute_dst_coho_idx(const int isc_d, const int iec_d, const int ns_d, const int nt_d, const int nc_d,
                          const int ns_s, const int nt_s, const int nface_s,
@@ -1765,7 +1765,7 @@ int main(int argc, char *argv[]) {
           } else if (!strcmp(varname, COHORT_NAME)) {
             mpp_put_var_value(fid_dst, vid_dst, cohort_data);
           } else if (!strcmp(varname, TILE_INDEX_NAME)) {
-            compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, idx_dst, idata_global,
+            compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, idx_dst, idata_global,
                               use_all_tile);
             mpp_put_var_value(fid_dst, vid_dst, idata_global);
           } else if (!strcmp(varname, COHORT_INDEX_NAME)) {
@@ -1775,27 +1775,27 @@ int main(int argc, char *argv[]) {
             gather_sort_compressed_int_data(ncoho_idx_dst, coho_idx_dst, ncoho_idx_dst_global, coho_idata_dst_global, coho_idx_orig_global);
             mpp_put_var_value(fid_dst, vid_dst, coho_idata_dst_global);
           } else if (!strcmp(varname, FRAC_NAME)) {
-            compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, land_frac_dst,
+            compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, land_frac_dst,
                                  rdata_global, use_all_tile);
             mpp_put_var_value(fid_dst, vid_dst, rdata_global);
           } else if (!strcmp(varname, GLAC_NAME)) {
             if (has_glac) {
-              compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, glac_tag_dst,
+              compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, glac_tag_dst,
                                 idata_global, use_all_tile);
               mpp_put_var_value(fid_dst, vid_dst, idata_global);
             }
           } else if (!strcmp(varname, LAKE_NAME)) {
             if (has_lake) {
-              compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, lake_tag_dst,
+              compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, lake_tag_dst,
                                 idata_global, use_all_tile);
               mpp_put_var_value(fid_dst, vid_dst, idata_global);
             }
           } else if (!strcmp(varname, SOIL_NAME)) {
-            compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, soil_tag_dst, idata_global,
+            compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, soil_tag_dst, idata_global,
                               use_all_tile);
             mpp_put_var_value(fid_dst, vid_dst, idata_global);
           } else if (!strcmp(varname, VEGN_NAME)) {
-            compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, vegn_tag_dst, idata_global,
+            compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, vegn_tag_dst, idata_global,
                               use_all_tile);
             mpp_put_var_value(fid_dst, vid_dst, idata_global);
 
@@ -1877,7 +1877,7 @@ int main(int argc, char *argv[]) {
                   lll = start_pos[face] + land_idx_map[m];
                   idata_dst[m] = idata_src[lll];
                 }
-                compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, idata_dst,
+                compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, idata_dst,
                                   idata_global, use_all_tile);
                 mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, idata_global);
               } else if (var_type[l] == MPP_DOUBLE) {
@@ -1891,7 +1891,7 @@ int main(int argc, char *argv[]) {
                   lll = start_pos[face] + land_idx_map[m];
                   data_dst[m] = data_src[lll];
                 }
-                compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, data_dst,
+                compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, data_dst,
                                      rdata_global, use_all_tile);
                 mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, rdata_global);
               } else {
@@ -2042,7 +2042,7 @@ int main(int argc, char *argv[]) {
                 lll = start_pos[face] + land_idx_map[m];
                 idata_dst[m] = idata_src[lll];
               }
-              compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, idata_dst, idata_global,
+              compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, idata_dst, idata_global,
                                 use_all_tile);
               mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, idata_global);
             } else if (var_type[l] == MPP_DOUBLE) {
@@ -2056,7 +2056,7 @@ int main(int argc, char *argv[]) {
                 lll = start_pos[face] + land_idx_map[m];
                 data_dst[m] = data_src[lll];
               }
-              compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, data_dst,
+              compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, data_dst,
                                    rdata_global, use_all_tile);
               mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, rdata_global);
             }
@@ -2125,7 +2125,7 @@ int main(int argc, char *argv[]) {
                   lll = start_pos[face] + land_idx_map[m];
                   idata_dst[m] = idata_src[lll];
                 }
-                compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, idata_dst,
+                compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, idata_dst,
                                   idata_global, use_all_tile);
                 mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, idata_global);
               } else if (var_type[l] == MPP_DOUBLE) {
@@ -2139,7 +2139,7 @@ int main(int argc, char *argv[]) {
                   lll = start_pos[face] + land_idx_map[m];
                   data_dst[m] = data_src[lll];
                 }
-                compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, data_dst,
+                compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, data_dst,
                                      rdata_global, use_all_tile);
                 mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, rdata_global);
               } else {
@@ -2211,7 +2211,7 @@ int main(int argc, char *argv[]) {
                     lll = start_pos[face] + land_idx_map[m];
                     idata_dst[m] = idata_src[lll];
                   }
-                  compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, idata_dst,
+                  compress_int_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, idata_dst,
                                     idata_global, use_all_tile);
                   mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, idata_global);
                 } else if (var_type[l] == MPP_DOUBLE) {
@@ -2225,7 +2225,7 @@ int main(int argc, char *argv[]) {
                     lll = start_pos[face] + land_idx_map[m];
                     data_dst[m] = data_src[lll];
                   }
-                  compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_count_dst, data_dst,
+                  compress_double_data(ntile_dst, nxc_dst, nidx_dst, nidx_dst_global, land_idx_map, data_dst,
                                        rdata_global, use_all_tile);
                   mpp_put_var_value_block(fid_dst, vid_dst, start, nwrite, rdata_global);
                 } else {
@@ -2610,7 +2610,7 @@ void search_nearest_sface(const int npts_src, const double *lon_src, const doubl
     void compress_double_data ()
     get global compressed data
     ------------------------------------------------------------------------*/
-  void compress_double_data(int ntile, int npts, int nidx, int nidx_global, const int *land_count, const double *data,
+  void compress_double_data(int ntile, int npts, int nidx, int nidx_global, const int *land_idx_map, const double *data,
                             double *data_global, int all_tile) {
     int pos1, pos2, pos, n, i, count;
     double *data_local = NULL;
@@ -2623,13 +2623,7 @@ void search_nearest_sface(const int npts_src, const double *lon_src, const doubl
     for (n = 0; n < ntile; n++) {
       pos = pos1;
       for (i = 0; i < npts; i++) {
-        if (n < land_count[i]) {
-          if (data[ntile * i + n] != MPP_FILL_DOUBLE) {
-            data_local[pos] = data[ntile * i + n];
-            if (!all_tile) pos++;
-          }
-          if (all_tile) pos++;
-        }
+        if (land_idx_map[ntile * i + n] > -1) data_local[pos++] = data[ntile * i + n];
       }
       count = pos - pos1;
       mpp_gather_field_double_root(count, data_local + pos1, data_global + pos2);
@@ -2645,10 +2639,10 @@ void search_nearest_sface(const int npts_src, const double *lon_src, const doubl
     void compress_int_data ()
     get global compressed data
 
-      Copy into data_global[] all values in data[] that are not MPP_FILL_
+      Copy into data_global[] all values in data[] of existing tiles
     Notes: Initialization of data_local and data_global varies from version of double data.
    ------------------------------------------------------------------------*/
-  void compress_int_data(int ntile, int npts, int nidx, int nidx_global, const int *land_count, const int *data,
+  void compress_int_data(int ntile, int npts, int nidx, int nidx_global, const int *land_idx_map, const int *data,
                          int *data_global, int all_tile) {
     int pos1, pos2, pos, n, i, count;
     int *data_local = NULL;
@@ -2661,13 +2655,7 @@ void search_nearest_sface(const int npts_src, const double *lon_src, const doubl
     for (n = 0; n < ntile; n++) {
       pos = pos1;
       for (i = 0; i < npts; i++) {
-        if (n < land_count[i]) {
-          if (data[ntile * i + n] != MPP_FILL_INT) {
-            data_local[pos] = data[ntile * i + n];
-            if (!all_tile) pos++;
-          }
-          if (all_tile) pos++;
-        }
+        if (land_idx_map[ntile * i + n] > -1) data_local[pos++] = data[ntile * i + n];
       }
       count = pos - pos1;
       mpp_gather_field_int_root(count, data_local + pos1, data_global + pos2);
-- 
2.43.0


From d5d325e769ea3c7625cf375ab7af25fa68fa4580 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 13:58:23 +0000
Subject: [PATCH 131/148] fix: mppnccombine -a lost the pieces it was to append

With -a the variables of the output file were never looked up, so that no
decomposed variable was written (or, depending on the contents of fresh
memory, the writes failed): the run ended with success and the file was
unchanged.  Where they had been written they would have replaced the pieces
already there by zeros.  Set up the description of the output in this mode too
and start from the values that it holds.
---
 src/mpp-nccombine/mppnccombine.c | 43 ++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 6ba6d95..ea00929 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -203,6 +203,7 @@ static const char version[] = PACKAGE_VERSION;
 
 static unsigned long estimated_maxrss = 0; /* see option: -x */
 static int mem_dry_run = 0;                /* set if -x option is used */
+static int append_to_file = 0;             /* set if -a option is used */
 
 static inline void
 check_mem_usage (void)
@@ -311,7 +312,10 @@ main (int argc, char *argv[])
           mem_dry_run = 1;
         }
       else if (!strcmp (argv[a], "-a"))
-        appendnc = 1;
+        {
+          appendnc = 1;
+          append_to_file = 1;
+        }
       else if (!strcmp (argv[a], "-r"))
         removein = 1;
       else if (!strcmp (argv[a], "-f"))
@@ -1069,7 +1073,7 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
 
       /* Save some information for the output file */
       /* This only needs to be done once per output file */
-      if ((!appendnc) && (!mem_dry_run))
+      if ((!appendnc || append_to_file) && (!mem_dry_run))
         {
           ncoutfile->varndims[v] = ncinfile->varndims[v];
           for (d = 0; d < ncinfile->ndims; d++)
@@ -1079,6 +1083,11 @@ process_file (char *ncname, unsigned char appendnc, struct fileinfo *ncoutfile,
           ncoutfile->vardecomp[v] = ncinfile->vardecomp[v];
           strcpy (ncoutfile->varname[v], ncinfile->varname[v]);
           ncoutfile->varmiss[v] = 0;
+          if (append_to_file && missing
+              && ncattget (ncinfile->ncfid, v, "missing_value",
+                           (void *)(ncoutfile->varmissval[v]))
+                     != (-1))
+            ncoutfile->varmiss[v] = 1;
         }
     }
 
@@ -1571,6 +1580,36 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
                           = *((double *)(ncoutfile->varmissval[v]));
                     break;
                   }
+              /* Keep the values that an existing output file already has */
+              if (append_to_file)
+                {
+                  long oldstart[MAX_NC_DIMS], oldcount[MAX_NC_DIMS];
+                  long oldrecs = r + 1;
+                  for (d = 0; d < ncoutfile->varndims[v]; d++)
+                    {
+                      oldstart[d] = 0;
+                      oldcount[d]
+                          = ncoutfile->dimfullsize[ncoutfile->vardim[v][d]];
+                      if (ncoutfile->vardim[v][d] == ncoutfile->recdim)
+                        {
+                          oldstart[d] = r;
+                          oldcount[d] = 1;
+                          ncdiminq (ncoutfile->ncfid, ncoutfile->recdim, NULL,
+                                    &oldrecs);
+                        }
+                    }
+                  if (r < oldrecs
+                      && ncvarget (ncoutfile->ncfid, v, oldstart, oldcount,
+                                   varbuf[(r % (*bf))][v])
+                             == (-1))
+                    {
+                      fprintf (stderr,
+                               "Error: cannot read variable \"%s\" of the "
+                               "output file!\n",
+                               ncoutfile->varname[v]);
+                      return (1);
+                    }
+                }
             }
           if (varbuf[(r % (*bf))][v] == NULL)
             {
-- 
2.43.0


From d3a8c8e5c1249266250d140f1e00c41b96db7261 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:04:53 +0000
Subject: [PATCH 132/148] fix: make_coupler_mosaic left out the centroids of a
 nested atmosphere tile

With interp_order 2 the exchange cells of the nest must not be added to the
land and ocean centroids, because they overlap those of its parent.  They were
left out of the centroids of the nest itself as well, so that tile1_distance
of the nest was the position of the exchange cell instead of its distance from
the centroid of the atmosphere cell.
---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 8ef8cc6..bab9d8b 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -1888,8 +1888,8 @@ int main (int argc, char *argv[])
 	    a_clon[la] = 0;
 	    a_clat[la] = 0;
 	  }
-	   /* could not add the exchange grid between land and nest atmosphere */
-	  if( na != tile_nest ) {
+	   /* could not add the exchange grid between land and nest atmosphere to the land centroid */
+	  {
 	    for(nl=0; nl<ntile_lnd; nl++) {
 	      int nxgrid;
 
@@ -1920,6 +1920,7 @@ int main (int argc, char *argv[])
 		  a_area[ii] += g_area[i];
 		  a_clon[ii] += g_clon[i];
 		  a_clat[ii] += g_clat[i];
+		  if( na == tile_nest ) continue;
 		  ii = g_jl[i]*nxl[nl]+g_il[i];
 		  l_area[nl][ii] += g_area[i];
 		  l_clon[nl][ii] += g_clon2[i];
@@ -1937,8 +1938,8 @@ int main (int argc, char *argv[])
 	    }
 	  }
 
-	  /* could not add the exchange grid between ocean and nest atmosphere */
-	  if( na != tile_nest ) {
+	  /* could not add the exchange grid between ocean and nest atmosphere to the ocean centroid */
+	  {
 	    for(no=0; no<ntile_ocn; no++) {
 	      int nxgrid;
 	      nxgrid = naxo[na][no];
@@ -1968,6 +1969,7 @@ int main (int argc, char *argv[])
 		  a_area[ii] += g_area[i];
 		  a_clon[ii] += g_clon[i];
 		  a_clat[ii] += g_clat[i];
+		  if( na == tile_nest ) continue;
 		  ii = g_jo[i]*nxo[no]+g_io[i];
 		  o_area[no][ii] += g_area[i];
 		  o_clon[no][ii] += g_clon2[i];
-- 
2.43.0


From 2f12ab76778111c69b7b47b98fed56e5b752e51b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:28:41 +0000
Subject: [PATCH 133/148] fix: make_hgrid did not end on a NARR grid with fewer
 columns than rows

The loop that verifies the rows of the grid tested i instead of j: it was
skipped when nlon >= nlat and ran past the arrays otherwise.
---
 src/make-hgrid/create_grid_from_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-hgrid/create_grid_from_file.c b/src/make-hgrid/create_grid_from_file.c
index bb852b0..73fb24c 100644
--- a/src/make-hgrid/create_grid_from_file.c
+++ b/src/make-hgrid/create_grid_from_file.c
@@ -538,7 +538,7 @@ void get_grid_v4(int fid, int nlon, int nlat, double *xt, double *yt, double *xc
 
   printf(" x is uniform \n \n \n");
 
-  for(j=0; i<nlat; j++) {
+  for(j=0; j<nlat; j++) {
     for(i=1; i<nlon; i++) {
       if( fabs(y1[j*nlon+i] - y1[j*nlon]) > 1.e-6 ) {
 	printf(" i = %d, j = %d, x1 = %g, x2 = %g \n", i, j, y1[j*nlon+i], y1[j*nlon]);
-- 
2.43.0


From b378581197dad74423d943927b80ce804d7b9cb9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:35:52 +0000
Subject: [PATCH 134/148] fix: fregrid crashed when asked only for the weights
 of a bilinear interpolation

The cell centres are needed to compute them.
---
 src/fre-grid/fregrid_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index c467508..f853406 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -176,7 +176,7 @@ void get_input_grid(int ntiles, Grid_config *grid, Bound_config *bound_T, const
   }
 
   read_tgrid = 1;
-  if(save_weight_only || (opcode & CONSERVE_ORDER1) ) read_tgrid = 0;
+  if( (save_weight_only && !(opcode & BILINEAR)) || (opcode & CONSERVE_ORDER1) ) read_tgrid = 0;
   if(opcode & EXTRAPOLATE ) read_tgrid = 1;
   bound_C = (Bound_config *)malloc(ntiles*sizeof(Bound_config));
   nx = (int *)malloc(ntiles * sizeof(int) );
-- 
2.43.0


From 60282d944a710530248828e1393a1bf2e7c6821f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:35:52 +0000
Subject: [PATCH 135/148] fix: fregrid --finer_step divided the data by the
 missing value

The Fortran operator /= had been kept where != was meant.
---
 src/fre-grid/bilinear_interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/bilinear_interp.c b/src/fre-grid/bilinear_interp.c
index ab415fa..ce8c82c 100644
--- a/src/fre-grid/bilinear_interp.c
+++ b/src/fre-grid/bilinear_interp.c
@@ -1118,7 +1118,7 @@ void redu2x(const double *varfin, const double *yfin, int nxfin, int nyfin, doub
   if (has_missing) {
     for(k=0; k<nz; k++) for(j=1; j<nyfin-1; j++) for(i=0; i<nxcrs; i++) {
       n1 = k*nxcrs*nyfin+j*nxcrs+i;
-      if (vartmp[n1] /= missvalue) vartmp[n1] *= cosp[j];
+      if (vartmp[n1] != missvalue) vartmp[n1] *= cosp[j];
     }
     for(k=0; k<nz; k++) for(j=2; j<nyfin-2; j+=2) {
       j2 = j/2;
-- 
2.43.0


From ce6fc4c8d5906f60eebe6f9761a22d345820f04f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:36:56 +0000
Subject: [PATCH 136/148] fix: fregrid bilinear took data from the other side
 of the sphere

On coarse grids a cell was accepted when the target point lay in the
cell opposite to it.
---
 src/fre-grid/bilinear_interp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fre-grid/bilinear_interp.c b/src/fre-grid/bilinear_interp.c
index ce8c82c..1c056cd 100644
--- a/src/fre-grid/bilinear_interp.c
+++ b/src/fre-grid/bilinear_interp.c
@@ -780,6 +780,8 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
   v0[0]  = grid_out->xt[n0];
   v0[1]  = grid_out->yt[n0];
   v0[2]  = grid_out->zt[n0];
+  /* the angles alone do not tell the cell from the one on the other side of the sphere */
+  if (v0[0]*v1[0]+v0[1]*v1[1]+v0[2]*v1[2] <= 0) return found;
   angle_1 =spherical_angle(v1, v2, v3);
   angle_1a=spherical_angle(v1, v2, v0);
   angle_1b=spherical_angle(v1, v3, v0);
-- 
2.43.0


From 9dc4c0e195874d011ff726000a9ae49c5fa22a12 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:36:56 +0000
Subject: [PATCH 137/148] fix: fregrid bilinear failed on output longitudes
 that do not begin at 0

The longitudes of the cubic grid were not brought into the range of the
output grid, so that its points were not found.
---
 src/fre-grid/bilinear_interp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fre-grid/bilinear_interp.c b/src/fre-grid/bilinear_interp.c
index 1c056cd..a4f725c 100644
--- a/src/fre-grid/bilinear_interp.c
+++ b/src/fre-grid/bilinear_interp.c
@@ -74,7 +74,7 @@ void setup_bilinear_interp(int ntiles_in, const Grid_config *grid_in, int ntiles
                            double lonbegin, double latbegin)
 {
   const int max_iter = 10;
-  double abs_center, dcub, dlon, dlat, coslat, distance;
+  double abs_center, dcub, dlon, dlat, lon, coslat, distance;
   double dist1, dist2, dist3, dist4, sum;
   double *shortest;
   int    i, j, n, l, ic, jc, lc, icc, jcc, i_min, i_max, j_min, j_max, iter;
@@ -158,8 +158,11 @@ void setup_bilinear_interp(int ntiles_in, const Grid_config *grid_in, int ntiles
 	  i_max=nx_out;
 	}
         else {
-	  i_min=max(   1,  floor((grid_in[l].lont[n1]-dcub-lonbegin)/dlon-iter+1));
-	  i_max=min(nx_out,ceil((grid_in[l].lont[n1]+dcub-lonbegin)/dlon+iter-1));
+	  /* longitude east of lonbegin, from -pi to pi around the middle of the output grid */
+	  lon = grid_in[l].lont[n1]-lonbegin;
+	  lon -= 2*M_PI*floor((lon-0.5*dlon_in)/(2*M_PI)+0.5);
+	  i_min=max(   1,  floor((lon-dcub)/dlon-iter+1));
+	  i_max=min(nx_out,ceil((lon+dcub)/dlon+iter-1));
 	}
 	for(j=j_min-1; j<j_max; j++) for(i=i_min-1; i<i_max; i++) {
 	  n0 = j*nx_out + i;
-- 
2.43.0


From 4ddcdf8be77b0b573c2417c05138abb6a9464ec0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:37:22 +0000
Subject: [PATCH 138/148] fix: fregrid bilinear global sweep read and wrote
 outside of its arrays

The sweep took the output grid for one with several tiles, the input grid
for one without halo and its index list for one entry per tile. Let it
apply the test of the local search to every cell instead.
---
 src/fre-grid/bilinear_interp.c | 164 +--------------------------------
 1 file changed, 3 insertions(+), 161 deletions(-)

diff --git a/src/fre-grid/bilinear_interp.c b/src/fre-grid/bilinear_interp.c
index a4f725c..f0f4056 100644
--- a/src/fre-grid/bilinear_interp.c
+++ b/src/fre-grid/bilinear_interp.c
@@ -41,9 +41,6 @@ void do_latlon_coarsening(const double *var_latlon, const double *ylat, int nlon
 			  double *var_latlon_crs, int finer_steps, int has_missing, double missvalue);
 void do_c2l_interp(const Interp_config *interp, int nx_in, int ny_in, int nz, const Field_config *field_in,
 		   int nx_out, int ny_out, double *data_out, int has_missing, double missing, int fill_missing );
-void sort_index(int ntiles, int *index, double *shortest);
-int get_index(const Grid_config *grid_in, const Grid_config *grid_out, int *index,
-	       int i_in, int j_in, int l_in, int i_out, int j_out);
 int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, int *index,
 		      int i_in, int j_in, int l_in, int i_out, int j_out);
 
@@ -225,37 +222,9 @@ void setup_bilinear_interp(int ntiles_in, const Grid_config *grid_in, int ntiles
       /*---------------------------------------------------------
 	for latlon cell find nearby cubed sphere cell
 	---------------------------------------------------------*/
-      for(l=0; l<3*ntiles_in; l++) index[l] = 0;
-      for(l=0; l<ntiles_in; l++) shortest[l] = M_PI + M_PI;
-      for(l=0; l<ntiles_in; l++) {
-	for(jc=0; jc<ny_in; jc++) for(ic=0; ic<nx_in; ic++) {
-	  n1 = jc*nxd+ic;
-	  v1[0] = grid_in[l].xt[n1];
-	  v1[1] = grid_in[l].yt[n1];
-	  v1[2] = grid_in[l].zt[n1];
-	  v0[0] = grid_out[l].xt[n0];
-	  v0[1] = grid_out[l].yt[n0];
-	  v0[2] = grid_out[l].zt[n0];
-	  distance=normalize_great_circle_distance(v1, v0);
-	  if (distance<shortest[l]) {
-	    shortest[l]=distance;
-	    index[3*l  ]=ic;
-	    index[3*l+1]=jc;
-	    index[3*l+2]=l;
-	  }
-	}
-      }
-
-      /*---------------------------------------------------------
-	determine lower left corner
-	---------------------------------------------------------*/
-      sort_index(ntiles_in, index, shortest);
-      found[n0]=0;
-      for(l=0; l<ntiles_in; l++) {
-	if (!found[n0]) {
-	  found[n0]=get_index(&(grid_in[l]), grid_out, &(interp->index[3*(j*nx_out+i)]), index[3*l],
-			      index[3*l+1], index[3*l+2], i, j);
-	  if (found[n0]) break;
+      for(l=0; l<ntiles_in && !found[n0]; l++) {
+	for(jc=1; jc<=ny_in && !found[n0]; jc++) for(ic=1; ic<=nx_in && !found[n0]; ic++) {
+	  found[n0]=get_closest_index(&(grid_in[l]), grid_out, &(interp->index[m0]), ic, jc, l, i, j);
 	}
       }
       if (! found[n0] ) mpp_error("error from bilinear_interp: couldn't find lower left corner");
@@ -614,133 +583,6 @@ void do_c2l_interp(const Interp_config *interp, int nx_in, int ny_in, int nz, co
 }; /* do_c2l_interp */
 
 
-/*------------------------------------------------------------------
-  void sort_index()
-  sort index by shortest
-  ----------------------------------------------------------------*/
-void sort_index(int ntiles, int *index, double *shortest)
-{
-  int l, ll, lll, i;
-  double *shortest_sort;
-  int    *index_sort;
-
-  shortest_sort = (double *)malloc(3*ntiles*sizeof(double));
-  index_sort    = (int    *)malloc(  ntiles*sizeof(int   ));
-
-  for(l=0; l<3*ntiles; l++)index_sort[l] = 0;
-  for(l=0; l<ntiles; l++)shortest_sort[l] = M_PI+M_PI;
-  for(l=0; l<ntiles; l++) {
-    for(ll=0; ll<ntiles; ll++) {
-      if (shortest[l]<shortest_sort[ll]) {
-	for(lll=ntiles-2; lll>=ll; lll--) {
-	  index_sort[3*lll+1]=index_sort[3*lll];
-	  shortest_sort[lll+1]=shortest_sort[lll];
-	}
-	for(i=0; i<3; i++) index_sort[3*ll+i]=index[3*l+i];
-	shortest_sort[ll]=shortest[l];
-	break;
-      }
-    }
-  }
-
-  for(l=0; l<3*ntiles; l++) index[l]    = index_sort[l];
-  for(l=0; l<  ntiles; l++) shortest[l] = shortest_sort[l];
-
-  free(shortest_sort);
-  free(index_sort);
-
-}; /* sort_index */
-
-
-/*------------------------------------------------------------------
-  void get_index(ig, jg, lg)
-  determine lower left corner
-  ----------------------------------------------------------------*/
-int get_index(const Grid_config *grid_in, const Grid_config *grid_out, int *index,
-	       int i_in, int j_in, int l_in, int i_out, int j_out)
-{
-  int    ok, n0, n1, n2, n3, n4, n5;
-  int    nx_in, ny_in, nx_out, ny_out;
-  double v0[3], v1[3], v2[3], v3[3], v4[3], v5[3];
-  double angle_1, angle_1a, angle_1b, angle_2, angle_2a, angle_2b;
-  double angle_3, angle_3a, angle_3b, angle_4, angle_4a, angle_4b;
-
-  ok=1;
-  nx_in  = grid_in->nx_fine;
-  ny_in  = grid_in->nx_fine;
-  nx_out = grid_out->nx;
-  ny_out = grid_out->nx;
-  n0 = j_out*nx_out + i_out;
-  n1 = j_in*nx_in + i_in;
-  n2 = j_in*nx_in + i_in+1;
-  n3 = (j_in+1)*nx_in + i_in;
-  v0[0] = grid_out->xt[n1];
-  v0[1] = grid_out->yt[n1];
-  v0[2] = grid_out->zt[n1];
-  v1[0] = grid_in->xt[n1];
-  v1[1] = grid_in->yt[n1];
-  v1[2] = grid_in->zt[n1];
-  v2[0] = grid_in->xt[n2];
-  v2[1] = grid_in->yt[n2];
-  v2[2] = grid_in->zt[n2];
-  v3[0] = grid_in->xt[n3];
-  v3[1] = grid_in->yt[n3];
-  v3[2] = grid_in->zt[n3];
-  angle_1 = spherical_angle(v1, v2, v3);
-  angle_1a= spherical_angle(v1, v2, v0);
-  angle_1b= spherical_angle(v1, v3, v0);
-
-  if (max(angle_1a,angle_1b)<angle_1) {
-    index[0]=i_in;
-    index[1]=j_in;
-    index[2]=l_in;
-  }
-  else {
-    n4 = j_in*nx_in + i_in-1;
-    v4[0] = grid_in->xt[n4];
-    v4[1] = grid_in->yt[n4];
-    v4[2] = grid_in->zt[n4];
-    angle_2 =spherical_angle(v1, v3, v4);
-    angle_2a=angle_1b;
-    angle_2b=spherical_angle(v1, v4, v0);
-    if (max(angle_2a,angle_2b)<angle_2) {
-      index[0]=i_in-1;
-      index[1]=j_in;
-      index[2]=l_in;
-    }
-    else {
-      n5 = (j_in-1)*nx_in + i_in;
-      v5[0] = grid_in->xt[n5];
-      v5[1] = grid_in->yt[n5];
-      v5[2] = grid_in->zt[n5];
-      angle_3 =spherical_angle(v1, v4, v5);
-      angle_3a=angle_2b;
-      angle_3b=spherical_angle(v1, v5, v0);
-      if (max(angle_3a,angle_3b)<angle_3 && i_in>1 && j_in>1) {
-	index[0]=i_in-1;
-	index[1]=j_in-1;
-	index[2]=l_in;
-      }
-      else {
-	angle_4 =spherical_angle(v1, v5, v2);
-	angle_4a=angle_3b;
-	angle_4b=spherical_angle(v1, v2, v0);
-	if (max(angle_4a,angle_4b)<angle_4) {
-	  index[0]=i_in;
-	  index[1]=j_in-1;
-	  index[2]=l_in;
-	}
-        else {
-	  ok=0;
-	}
-      }
-    }
-  }
-  return ok;
-
-}; /* get_index */
-
-
 /*-------------------------------------------------------------
   determine lower left corner
   void get_closest_index(int ig, int jg, int lg, int ok)
-- 
2.43.0


From 7772d2f48956de95cb512b77162deedc4aed2a3c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:37:22 +0000
Subject: [PATCH 139/148] fix: fregrid --finer_step displaced the data

The averages are centred on every second fine point, which was not a point
of the output grid: in longitude, and with --center_y in latitude.
---
 src/fre-grid/fregrid_util.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index f853406..29c3a3f 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -619,14 +619,15 @@ void get_output_grid_by_size(int ntiles, Grid_config *grid, double lonbegin, dou
     grid->vlon_t = (double *)malloc(3*nx_fine*ny_fine*sizeof(double));
     grid->vlat_t = (double *)malloc(3*nx_fine*ny_fine*sizeof(double));
 
+    /* every 2**finer_steps-th fine point is a point of the output grid */
     dlon = lon_range/nx_fine;
     for(i=0; i<nx_fine; i++) {
-      lon_fine = (lonbegin + (i + 0.5)*dlon)*D2R;
+      lon_fine = (lonbegin + 0.5*lon_range/nlon + i*dlon)*D2R;
       for(j=0; j<ny_fine; j++) grid->lont[j*nx_fine+i] = lon_fine;
     }
     if(center_y) {
-      dlat=lat_range/ny_fine;
-      for(j=0; j<ny_fine; j++)grid->latt1D_fine[j] = (latbegin+(j+0.5)*dlat)*D2R;
+      dlat=lat_range/(nlat*pow(2,finer_steps));
+      for(j=0; j<ny_fine; j++)grid->latt1D_fine[j] = (latbegin+0.5*lat_range/nlat+j*dlat)*D2R;
     }
     else {
       dlat = lat_range/(ny_fine-1);
-- 
2.43.0


From 8cf951d9b77456e702ca3b94a6ec3e5f28ebc9e6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:46:55 +0000
Subject: [PATCH 140/148] fix: fregrid bilinear extrapolated near the corners
 of a stretched cubic grid

The test for a point between two sides accepted points on the other side
of the vertex when the sides form an angle of more than 120 degrees.
---
 src/fre-grid/bilinear_interp.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fre-grid/bilinear_interp.c b/src/fre-grid/bilinear_interp.c
index f0f4056..82bf69b 100644
--- a/src/fre-grid/bilinear_interp.c
+++ b/src/fre-grid/bilinear_interp.c
@@ -29,6 +29,9 @@
 #define min(a,b) (a<b ? a:b)
 #define max(a,b) (a>b ? a:b)
 #define sign(a,b)(b<0 ? -fabs(a):fabs(a))
+/* true if a direction that forms the angles a and b with the two sides of angle c lies between them:
+   when c is above 120 degree, both may be less than c for a direction outside of it */
+#define in_angle(a,b,c) (max((a),(b)) <= (c) && (a)+(b) <= M_PI)
 
 
 int max_weight_index( double *var, int nvar);
@@ -630,7 +633,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
   angle_1 =spherical_angle(v1, v2, v3);
   angle_1a=spherical_angle(v1, v2, v0);
   angle_1b=spherical_angle(v1, v3, v0);
-  if (max(angle_1a,angle_1b) <= angle_1) {
+  if (in_angle(angle_1a,angle_1b,angle_1)) {
     if (i_in==nx_in && j_in==ny_in) {
       angle_11 =spherical_angle(v2, v3, v1);
       angle_11a=spherical_angle(v2, v1, v0);
@@ -645,7 +648,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
       angle_11a=spherical_angle(v4, v2, v0);
       angle_11b=spherical_angle(v4, v3, v0);
     }
-    if (max(angle_11a,angle_11b)<=angle_11) {
+    if (in_angle(angle_11a,angle_11b,angle_11)) {
       found = 1;
       index[0]=i_in;
       index[1]=j_in;
@@ -660,7 +663,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
     angle_2 =spherical_angle(v1,v3,v4);
     angle_2a=angle_1b;
     angle_2b=spherical_angle(v1,v4,v0);
-    if (max(angle_2a,angle_2b)<=angle_2) {
+    if (in_angle(angle_2a,angle_2b,angle_2)) {
       if (i_in==1 && j_in==ny_in) {
 	angle_22 =spherical_angle(v3, v1, v4);
 	angle_22a=spherical_angle(v3, v4, v0);
@@ -679,7 +682,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
 	angle_22a=spherical_angle(v5, v6, v0);
 	angle_22b=spherical_angle(v5, v3, v0);
       }
-      if (max(angle_22a,angle_22b)<=angle_22) {
+      if (in_angle(angle_22a,angle_22b,angle_22)) {
 	found=1;
 	index[0]=i_in-1;
 	index[1]=j_in;
@@ -698,7 +701,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
       angle_3 =spherical_angle(v1, v5, v6);
       angle_3a=angle_2b;
       angle_3b=spherical_angle(v1, v6, v0);
-      if (max(angle_3a,angle_3b)<=angle_3 && i_in>1 && j_in>1) {
+      if (in_angle(angle_3a,angle_3b,angle_3) && i_in>1 && j_in>1) {
 	n7 = (j_in-1)*nxd+i_in-1;
 	v7[0]  = grid_in->xt[n7];
 	v7[1]  = grid_in->yt[n7];
@@ -706,7 +709,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
 	angle_33 =spherical_angle(v7, v6, v5);
 	angle_33a=spherical_angle(v7, v5, v0);
 	angle_33b=spherical_angle(v7, v6, v0);
-	if (max(angle_33a,angle_33b)<=angle_33) {
+	if (in_angle(angle_33a,angle_33b,angle_33)) {
 	  found=1;
 	  index[0]=i_in-1;
 	  index[1]=j_in-1;
@@ -717,7 +720,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
 	angle_4 =spherical_angle(v1, v6, v2);
 	angle_4a=angle_3b;
 	angle_4b=spherical_angle(v1, v2, v0);
-	if (max(angle_4a,angle_4b)<=angle_4) {
+	if (in_angle(angle_4a,angle_4b,angle_4)) {
 	  if (i_in==nx_in && j_in==1) {
 	    angle_44 =spherical_angle(v2, v1, v6);
 	    angle_44a=spherical_angle(v2, v6, v0);
@@ -732,7 +735,7 @@ int get_closest_index(const Grid_config *grid_in, const Grid_config *grid_out, i
 	    angle_44a=spherical_angle(v8, v6, v0);
 	    angle_44b=spherical_angle(v8, v2, v0);
 	  }
-	  if (max(angle_44a,angle_44b)<=angle_44) {
+	  if (in_angle(angle_44a,angle_44b,angle_44)) {
 	    found=1;
 	    index[0]=i_in;
 	    index[1]=j_in-1;
-- 
2.43.0


From e19b491d37fae708d6aa3f9871528368891c5329 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:50:18 +0000
Subject: [PATCH 141/148] fix: fregrid read the rotation angles of a vector
 grid past their end

The cell centres are the odd points of the supergrid.
---
 src/fre-grid/fregrid_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 29c3a3f..d0902d9 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -258,7 +258,7 @@ void get_input_grid(int ntiles, Grid_config *grid, Bound_config *bound_T, const
 	grid[n].rotate = 0;
 	for(j=0; j<ny[n]; j++) for(i=0; i<nx[n]; i++) {
           m1 = j*nx[n]+i;
-	  m2 = (2*j+2)*(2*nx[n]+2)+2*i+2;
+	  m2 = (2*j+1)*(2*nx[n]+1)+2*i+1;
 	  grid[n].cosrot[m1] = cos(angle[m2]*D2R);
 	  grid[n].sinrot[m1] = sin(angle[m2]*D2R);
 	  if(fabs(grid[n].sinrot[m1]) > EPSLN10) grid[n].rotate = 1;
-- 
2.43.0


From 266f34feff770ce6256c496b0a9a6000e31100fc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:50:18 +0000
Subject: [PATCH 142/148] fix: fregrid regridded only one, undefined level of a
 vector field

The level indices were those left over from the scalar fields, unset when
there is none, and the tile index was past the last tile.
---
 src/fre-grid/fregrid.c | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index cb78054..abe3ad4 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -1112,27 +1112,31 @@ int main(int argc, char* argv[])
    if(debug) print_mem_usage("After do interp");
     /* then interp vector field */
     for(l=0; l<nvector; l++) {
-      if( !u_in[n].var[l].has_taxis && m>0) continue;
+      if( !u_in->var[l].has_taxis && m>0) continue;
       level_t = m + u_in->var[l].lstart;
-      get_input_data(ntiles_in, u_in, grid_in, bound_T, l, level_z, level_n, level_t, extrapolate, stop_crit);
-      get_input_data(ntiles_in, v_in, grid_in, bound_T, l, level_z, level_n, level_t, extrapolate, stop_crit);
-      allocate_field_data(ntiles_out, u_out, grid_out, u_in[n].var[l].nz);
-      allocate_field_data(ntiles_out, v_out, grid_out, u_in[n].var[l].nz);
-      if( opcode & BILINEAR )
-	do_vector_bilinear_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, u_in, v_in, u_out, v_out, finer_step, fill_missing);
-      else
-	do_vector_conserve_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, u_in, v_in, u_out, v_out, opcode);
+      /*--- as for the scalars, one horizontal level at a time */
+      for(level_n=0; level_n < u_in->var[l].nn; level_n++)
+	for(level_z=u_in->var[l].kstart; level_z <= u_in->var[l].kend; level_z++) {
+	  get_input_data(ntiles_in, u_in, grid_in, bound_T, l, level_z, level_n, level_t, extrapolate, stop_crit);
+	  get_input_data(ntiles_in, v_in, grid_in, bound_T, l, level_z, level_n, level_t, extrapolate, stop_crit);
+	  allocate_field_data(ntiles_out, u_out, grid_out, 1);
+	  allocate_field_data(ntiles_out, v_out, grid_out, 1);
+	  if( opcode & BILINEAR )
+	    do_vector_bilinear_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, u_in, v_in, u_out, v_out, finer_step, fill_missing);
+	  else
+	    do_vector_conserve_interp(interp, l, ntiles_in, grid_in, ntiles_out, grid_out, u_in, v_in, u_out, v_out, opcode);
 
-      write_field_data(ntiles_out, u_out, grid_out, l, level_z, level_n, m);
-      write_field_data(ntiles_out, v_out, grid_out, l, level_z, level_n, m);
-      for(n=0; n<ntiles_in; n++) {
-	free(u_in[n].data);
-	free(v_in[n].data);
-      }
-      for(n=0; n<ntiles_out; n++) {
-	free(u_out[n].data);
-	free(v_out[n].data);
-      }
+	  write_field_data(ntiles_out, u_out, grid_out, l, level_z, level_n, m);
+	  write_field_data(ntiles_out, v_out, grid_out, l, level_z, level_n, m);
+	  for(n=0; n<ntiles_in; n++) {
+	    free(u_in[n].data);
+	    free(v_in[n].data);
+	  }
+	  for(n=0; n<ntiles_out; n++) {
+	    free(u_out[n].data);
+	    free(v_out[n].data);
+	  }
+	}
     }
   }
 
-- 
2.43.0


From 5116ba7c541c551116e31804a4a3cc2847ce28e6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:50:18 +0000
Subject: [PATCH 143/148] fix: fregrid kept the buffer of every vector level

---
 src/fre-grid/bilinear_interp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fre-grid/bilinear_interp.c b/src/fre-grid/bilinear_interp.c
index 82bf69b..5222769 100644
--- a/src/fre-grid/bilinear_interp.c
+++ b/src/fre-grid/bilinear_interp.c
@@ -530,6 +530,7 @@ void do_vector_bilinear_interp(Interp_config *interp, int vid, int ntiles_in, co
   free(x_latlon);
   free(y_latlon);
   free(z_latlon);
+  free(var_latlon);
 
 }; /* do_vector_bilinear_interp */
 
-- 
2.43.0


From a8171ed6055719a31b2a8c136b955b8ec82fe964 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:52:10 +0000
Subject: [PATCH 144/148] fix: fregrid looked for the components of a vector in
 the wrong list

Whether a variable holds axis data was asked for the variables of the last
field list only, past its end when there are several.
---
 src/fre-grid/fregrid_util.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index d0902d9..ad017ff 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1368,12 +1368,27 @@ void get_input_metadata(int ntiles, int nfiles, File_config *file1, File_config
 
       /* loop through each variable to see if will be axis data */
       for (l = 0; l < nfield; l++) {
-        field[n].var[l].is_axis_data = 0;
+        if (nfiles == 1) {
+          if (l < nscalar) {
+            field = scalar;
+            ll = l;
+          } else if (l < nscalar + nvector) {
+            field = u_comp;
+            ll = l - nscalar;
+          } else {
+            field = v_comp;
+            ll = l - nscalar - nvector;
+          }
+        } else {
+          ll = l;
+          field = (m == 0) ? u_comp : v_comp;
+        }
+        field[n].var[ll].is_axis_data = 0;
         for (i = 0; i < file[n].ndim; i++) {
-          if (!strcmp(field[n].var[l].name, file[n].axis[i].name) ||
-              !strcmp(field[n].var[l].name, file[n].axis[i].bndname) ||
-              !strcmp(field[n].var[l].name, orig_bnd_dimname)) {
-            field[n].var[l].is_axis_data = 1;
+          if (!strcmp(field[n].var[ll].name, file[n].axis[i].name) ||
+              !strcmp(field[n].var[ll].name, file[n].axis[i].bndname) ||
+              !strcmp(field[n].var[ll].name, orig_bnd_dimname)) {
+            field[n].var[ll].is_axis_data = 1;
             break;
           }
         }
-- 
2.43.0


From 072c0e1b35adb5cf58d1c2559d0c115822395048 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:53:48 +0000
Subject: [PATCH 145/148] fix: fregrid took the missing points of a vector for
 data

A missing component was rotated and averaged as if it were a value.
---
 src/fre-grid/bilinear_interp.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/fre-grid/bilinear_interp.c b/src/fre-grid/bilinear_interp.c
index 5222769..73e1718 100644
--- a/src/fre-grid/bilinear_interp.c
+++ b/src/fre-grid/bilinear_interp.c
@@ -481,7 +481,10 @@ void do_vector_bilinear_interp(Interp_config *interp, int vid, int ntiles_in, co
     for(k=0; k<nz; k++) for(j=0; j<nyd; j++) for(i=0; i<nxd; i++) {
       n1 = k*nxd*nyd + j*nxd + i;
       n2 = j*nxd + i;
-      var_cubsph[n].data[n1] = u_in[n].data[n1]*grid_in[n].vlon_t[3*n2]+v_in[n].data[n1]*grid_in[n].vlat_t[3*n2];
+      if(has_missing && (u_in[n].data[n1] == missing || v_in[n].data[n1] == missing))
+	var_cubsph[n].data[n1] = missing;
+      else
+        var_cubsph[n].data[n1] = u_in[n].data[n1]*grid_in[n].vlon_t[3*n2]+v_in[n].data[n1]*grid_in[n].vlat_t[3*n2];
     }
   }
 
@@ -491,7 +494,10 @@ void do_vector_bilinear_interp(Interp_config *interp, int vid, int ntiles_in, co
     for(k=0; k<nz; k++) for(j=0; j<nyd; j++) for(i=0; i<nxd; i++) {
       n1 = k*nxd*nyd + j*nxd + i;
       n2 = j*nxd + i;
-      var_cubsph[n].data[n1] = u_in[n].data[n1]*grid_in[n].vlon_t[3*n2+1]+v_in[n].data[n1]*grid_in[n].vlat_t[3*n2+1];
+      if(has_missing && (u_in[n].data[n1] == missing || v_in[n].data[n1] == missing))
+	var_cubsph[n].data[n1] = missing;
+      else
+        var_cubsph[n].data[n1] = u_in[n].data[n1]*grid_in[n].vlon_t[3*n2+1]+v_in[n].data[n1]*grid_in[n].vlat_t[3*n2+1];
     }
   }
   do_c2l_interp(interp, nx_in, ny_in, nz, var_cubsph, nx_out, ny_out, y_latlon, has_missing, missing, fill_missing);
@@ -500,7 +506,10 @@ void do_vector_bilinear_interp(Interp_config *interp, int vid, int ntiles_in, co
     for(k=0; k<nz; k++) for(j=0; j<nyd; j++) for(i=0; i<nxd; i++) {
       n1 = k*nxd*nyd + j*nxd + i;
       n2 = j*nxd + i;
-      var_cubsph[n].data[n1] = u_in[n].data[n1]*grid_in[n].vlon_t[3*n2+2]+v_in[n].data[n1]*grid_in[n].vlat_t[3*n2+2];
+      if(has_missing && (u_in[n].data[n1] == missing || v_in[n].data[n1] == missing))
+	var_cubsph[n].data[n1] = missing;
+      else
+        var_cubsph[n].data[n1] = u_in[n].data[n1]*grid_in[n].vlon_t[3*n2+2]+v_in[n].data[n1]*grid_in[n].vlat_t[3*n2+2];
     }
   }
 
@@ -513,7 +522,10 @@ void do_vector_bilinear_interp(Interp_config *interp, int vid, int ntiles_in, co
   for(k=0; k<nz; k++) for(j=0; j<ny_out; j++) for(i=0; i<nx_out; i++) {
     n1 = k*nx_out*ny_out + j*nx_out + i;
     n2 = j*nx_out + i;
-    var_latlon[n1] = x_latlon[n1]*grid_out->vlon_t[3*n2] +  y_latlon[n1]*grid_out->vlon_t[3*n2+1] +  z_latlon[n1]*grid_out->vlon_t[3*n2+2];
+    if(has_missing && x_latlon[n1] == missing)
+      var_latlon[n1] = missing;
+    else
+      var_latlon[n1] = x_latlon[n1]*grid_out->vlon_t[3*n2] +  y_latlon[n1]*grid_out->vlon_t[3*n2+1] +  z_latlon[n1]*grid_out->vlon_t[3*n2+2];
   }
   do_latlon_coarsening(var_latlon, grid_out->latt1D_fine, nx_out, ny_out, nz, u_out->data,
 		       finer_step, has_missing, missing);
@@ -521,7 +533,10 @@ void do_vector_bilinear_interp(Interp_config *interp, int vid, int ntiles_in, co
   for(k=0; k<nz; k++) for(j=0; j<ny_out; j++) for(i=0; i<nx_out; i++) {
     n1 = k*nx_out*ny_out + j*nx_out + i;
     n2 = j*nx_out + i;
-    var_latlon[n1] = x_latlon[n1]*grid_out->vlat_t[3*n2] +  y_latlon[n1]*grid_out->vlat_t[3*n2+1] +  z_latlon[n1]*grid_out->vlat_t[3*n2+2];
+    if(has_missing && x_latlon[n1] == missing)
+      var_latlon[n1] = missing;
+    else
+      var_latlon[n1] = x_latlon[n1]*grid_out->vlat_t[3*n2] +  y_latlon[n1]*grid_out->vlat_t[3*n2+1] +  z_latlon[n1]*grid_out->vlat_t[3*n2+2];
   }
 
   do_latlon_coarsening(var_latlon, grid_out->latt1D_fine, nx_out, ny_out, nz, v_out->data,
-- 
2.43.0


From 1f4a8169b85312f17d2e4dcb3b5d1096c6679448 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 15:32:51 +0000
Subject: [PATCH 146/148] fix: mpp_get_varid looked up the file -1 of the other
 processes

mpp_open gives -1 for a file to be written on all but the root process, and
remap_land_parallel asks every process for the variables of its output.
---
 lib/libfrencutils/mpp_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/mpp_io.c b/lib/libfrencutils/mpp_io.c
index c49e58d..a725f0d 100644
--- a/lib/libfrencutils/mpp_io.c
+++ b/lib/libfrencutils/mpp_io.c
@@ -335,7 +335,7 @@ int mpp_get_varid(int fid, const char *varname)
 
   /* First look through existing variables to see
      if the fldid of varname is already retrieved. */
-  if(files[fid].action != MPP_READ  && mpp_pe() != mpp_root_pe() ) return -1;
+  if( mpp_pe() != mpp_root_pe() && (fid == -1 || files[fid].action != MPP_READ) ) return -1;
 
   if(fid<0 || fid >=nfiles) mpp_error("mpp_io(mpp_get_varid): invalid id number, id should be "
 				    "a nonnegative integer that less than nfiles");
-- 
2.43.0


From 19430efd6b0377383edba34ee1bc3171b678c6c5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 147/148] fix: transfer_to_mosaic_grid used ds_10_11_C without
 reading it

Without ds_20_21_T the first row of dy is the difference of ds_20_22_T and
ds_10_11_C, which was only read when ds_21_22_T is missing, too.
---
 src/transfer-mosaic-grid/transfer_to_mosaic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transfer-mosaic-grid/transfer_to_mosaic.c b/src/transfer-mosaic-grid/transfer_to_mosaic.c
index 72e16da..13e3675 100644
--- a/src/transfer-mosaic-grid/transfer_to_mosaic.c
+++ b/src/transfer-mosaic-grid/transfer_to_mosaic.c
@@ -226,6 +226,7 @@ int main(int argc, char* argv[])
   else {
     exist_ds_20_21_T = 0;
     vid = mpp_get_varid(fid_old, "ds_11_12_C"); mpp_get_var_value(fid_old, vid, ds_11_12_C);
+    vid = mpp_get_varid(fid_old, "ds_10_11_C"); mpp_get_var_value(fid_old, vid, ds_10_11_C);
   }
   if(mpp_var_exist(fid_old, "ds_21_22_T")) {
     exist_ds_21_22_T = 1;
-- 
2.43.0


From 58efd7c4c27a3dce887d4bcbb4290203f73f6af5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 148/148] fix: transfer_to_mosaic_grid wrote contacts of
 another grid

The contacts of the ocean were those of a grid of 360x180 supergrid cells,
whatever its size, and those of the land counted cells instead of supergrid
cells, as all readers of a mosaic expect.
---
 src/transfer-mosaic-grid/transfer_to_mosaic.c | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/transfer-mosaic-grid/transfer_to_mosaic.c b/src/transfer-mosaic-grid/transfer_to_mosaic.c
index 13e3675..612ff49 100644
--- a/src/transfer-mosaic-grid/transfer_to_mosaic.c
+++ b/src/transfer-mosaic-grid/transfer_to_mosaic.c
@@ -836,11 +836,11 @@ if(is_coupled_grid){
     sprintf(tilefile[0], "%s_hgrid.nc",land_name);
     fid = mpp_open(outfile, MPP_WRITE);
 
-    contact_tile1_istart[0]=nxbl-1; contact_tile1_iend[0]=nxbl-1; 
-    contact_tile1_jstart[0]=1; contact_tile1_jend[0]=nybl-1; 
+    contact_tile1_istart[0]=2*(nxbl-1); contact_tile1_iend[0]=2*(nxbl-1); 
+    contact_tile1_jstart[0]=1; contact_tile1_jend[0]=2*(nybl-1); 
 
     contact_tile2_istart[0]=1; contact_tile2_iend[0]=1; 
-    contact_tile2_jstart[0]=1; contact_tile2_jend[0]=nybl-1;
+    contact_tile2_jstart[0]=1; contact_tile2_jend[0]=2*(nybl-1);
     /*--------Initilize values --------------*/
 
     dim_ntiles = mpp_def_dim(fid, "ntiles", ntiles);
@@ -925,21 +925,21 @@ if(is_coupled_grid){
     mpp_close(fid_old);
     if (strcmp(x_boundary_type1, "cyclic")==0) {
 	n = ncontact; ncontact = ncontact + 1; 
-    	contact_tile1_istart[n]=360; contact_tile1_iend[n]=360; 
-    	contact_tile1_jstart[n]=1; contact_tile1_jend[n]=180; 
+    	contact_tile1_istart[n]=nx; contact_tile1_iend[n]=nx; 
+    	contact_tile1_jstart[n]=1; contact_tile1_jend[n]=ny; 
 
     	contact_tile2_istart[n]=1; contact_tile2_iend[n]=1; 
-    	contact_tile2_jstart[n]=1; contact_tile2_jend[n]=180;
+    	contact_tile2_jstart[n]=1; contact_tile2_jend[n]=ny;
 	printf("\t x_boundary_type = %s, ncontact=%d \n",x_boundary_type1,ncontact);
     }
     
     if (strcmp(y_boundary_type1, "fold_north_edge")==0) {
 	n = ncontact; ncontact = ncontact + 1; 
-        contact_tile1_istart[n]=1; contact_tile1_iend[n]=180;
-        contact_tile1_jstart[n]=180; contact_tile1_jend[n]=180;
+        contact_tile1_istart[n]=1; contact_tile1_iend[n]=nx/2;
+        contact_tile1_jstart[n]=ny; contact_tile1_jend[n]=ny;
 
-        contact_tile2_istart[n]=360; contact_tile2_iend[n]=181;
-        contact_tile2_jstart[n]=180; contact_tile2_jend[n]=180;
+        contact_tile2_istart[n]=nx; contact_tile2_iend[n]=nx/2+1;
+        contact_tile2_jstart[n]=ny; contact_tile2_jend[n]=ny;
 	printf("\t y_boundary_type = %s, ncontact=%d \n",y_boundary_type1,ncontact);
     }
 
-- 
2.43.0


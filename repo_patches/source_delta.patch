From aa9270b75c10790479e67270d18e6e32ded65059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 01/42] fix: parse_elements: keep angle and exponent fields
 within their columns

A line with the right checksum but without a space after an angle made
get_angle run past the end of the line, and a non-digit exponent made sci
count down through the whole range of int.
---
 src/get_el.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 7b92ea7..75e8b1b 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -22,10 +22,11 @@ converted to radians,  all in one step.    */
 static int get_angle( const char *buff)
 {
    int rval = 0;
+   const char *end = buff + 8;         /* the fields are eight columns wide */
 
-   while( *buff == ' ')
+   while( buff < end && *buff == ' ')
       buff++;
-   while( *buff != ' ')
+   while( buff < end && *buff > ' ')
       {
       if( *buff != '.')
          rval = rval * 10 + (int)( *buff - '0');
@@ -54,7 +55,7 @@ static double sci( const char *string)
       if( ival)
          {
          rval = (double)ival * 1.e-5;
-         if( string[7] != '0')
+         if( string[7] > '0' && string[7] <= '9')
             {
             int exponent = string[7] - '0';
 
-- 
2.43.0


From bac53b771cb248a502d0ca3c27b15daddd058bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 02/42] fix: tle_checksum: require the checksum digit

A line cut after 68 columns was accepted one time in ten, with its line
feed taken as the checksum, and the byte after its end was examined.
---
 src/get_el.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 75e8b1b..3ed432e 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -95,8 +95,10 @@ int DLL_FUNC tle_checksum( const char *buff)
          return( -2);
       buff++;
       }
+   if( *buff < '0' || *buff > '9')  /* line cut before the checksum digit */
+      return( -3);
    rval -= *buff++ - '0';
-   if( *buff > ' ')                 /* line unterminated */
+   if( (unsigned char)*buff > ' ')  /* line unterminated */
       rval = -3;
    else
       {
-- 
2.43.0


From ce203aa652a55b304a4979e11610410e52948cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 03/42] fix: parse_elements: reject damaged state vectors
 instead of aborting

A 'H' element set with a bad digit in its state vector ended the whole
program on an assertion, and one with a wrong checksum was accepted.
---
 src/get_el.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 3ed432e..9f4aebe 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -2,7 +2,6 @@
 
 #include <string.h>
 #include <stdint.h>
-#include <assert.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "norad.h"
@@ -144,11 +143,22 @@ vx, vy, vz are in 10^-4 m/s,  range +/- 94% c.  The state vectors
 are in the geocentric ecliptic plane of date.  See 'sdp4.cpp' for
 a discussion of how they're actually used.  */
 
+static int is_high_value( const char *iptr)
+{
+   int i;
+
+   if( *iptr != '+' && *iptr != '-')
+      return( 0);
+   for( i = 1; i < 9; i++)
+      if( mutant_dehex( iptr[i]) < 0)
+         return( 0);
+   return( 1);
+}
+
 static double get_high_value( const char *iptr)
 {
    int64_t rval = 0;
 
-   assert( *iptr == '+' || *iptr == '-');
    if( *iptr == '+' || *iptr == '-')
       {
       int i, digit;
@@ -156,7 +166,6 @@ static double get_high_value( const char *iptr)
       for( i = 1; i < 9; i++)
          {
          digit = mutant_dehex( iptr[i]);
-         assert( digit >= 0);
          rval = rval * (int64_t)36 + (int64_t)digit;
          }
       if( *iptr == '-')
@@ -332,12 +341,16 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
          size_t i;
          double *state_vect = &sat->xincl;
 
+         for( i = 0; i < 3; i++)
+            if( !is_high_value( line1 + 33 + i * 10)
+                        || !is_high_value( line2 + 33 + i * 10))
+               return( -5);
          for( i = 0; i < 3; i++)
             {
             state_vect[i]     = get_high_value( line1 + 33 + i * 10);
             state_vect[i + 3] = get_high_value( line2 + 33 + i * 10) * 1e-4;
             }
-         return( 0);
+         return( checksum_problem);
          }
 
       sat->xmo = (double)get_angle( line2 + 43) * (PI / 180e+4);
-- 
2.43.0


From 36fe62beedce2914f0b1782c144fd6394cb4383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 04/42] fix: parse_elements: the two lines must carry the same
 catalogue number

When the lines between them were lost, the first line of one satellite and
the second line of another one were combined into a set of neither.
---
 src/get_el.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/get_el.c b/src/get_el.c
index 9f4aebe..048cb00 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -314,6 +314,10 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
          }
       }
 
+                        /* halves of two different satellites? */
+   if( !rval && memcmp( line1 + 2, line2 + 2, 5))
+      rval = -5;
+
    if( !rval)
       {
       char tbuff[13];
@@ -344,7 +348,7 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
          for( i = 0; i < 3; i++)
             if( !is_high_value( line1 + 33 + i * 10)
                         || !is_high_value( line2 + 33 + i * 10))
-               return( -5);
+               return( -6);
          for( i = 0; i < 3; i++)
             {
             state_vect[i]     = get_high_value( line1 + 33 + i * 10);
-- 
2.43.0


From cf167796ff40c7783cc3c4568c3dfcc0a217e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 05/42] fix: parse_elements: reject epochs outside their year,
 read the number by columns

A damaged day of the year could put the epoch millions of years away (the
propagators then integrate for ever); the catalogue number was read with
atoi(), which also took the digits of the columns that follow it.
---
 src/get_el.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/get_el.c b/src/get_el.c
index 048cb00..a589478 100644
--- a/src/get_el.c
+++ b/src/get_el.c
@@ -263,7 +263,8 @@ static int get_norad_number( const char *buff)
             + digits[3] * 10 + digits[2] * 100 + (digits[1] - 10) * 1000
             + digits[0] * 24000;
    else        /* last four digits are 0-9;  'standard' NORAD desig */
-      rval = digits[0] * 10000 + atoi( buff + 1);
+      rval = digits[0] * 10000 + digits[1] * 1000 + digits[2] * 100
+               + digits[3] * 10 + digits[4];
    return( rval);
 }
 
@@ -327,8 +328,10 @@ int DLL_FUNC parse_elements( const char *line1, const char *line2, tle_t *sat)
          year += (line1[18] - '0') * 10;
       if( year < 57)          /* cycle around Y2K */
          year += 100;
-      sat->epoch = get_eight_places( line1 + 20) + J1900
-             + (double)( year * 365 + (year - 1) / 4);
+      sat->epoch = get_eight_places( line1 + 20);     /* day of the year */
+      if( sat->epoch < 0. || sat->epoch >= 367.)
+         return( -7);
+      sat->epoch += J1900 + (double)( year * 365 + (year - 1) / 4);
       sat->norad_number = get_norad_number( line1 + 2);
       memcpy( tbuff, line1 + 64, 4);
       tbuff[4] = '\0';
-- 
2.43.0


From afe2a2ff0951867685b288ae96a535ddc0c21d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 06/42] fix: mjd2date: return 0 for dates that do not fit the
 output

Years with more than four digits overflowed the static buffer and a NaN
passed the range check.
---
 src/mjd2date.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mjd2date.c b/src/mjd2date.c
index 8105fd2..731770b 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -30,7 +30,7 @@ char *mjd2date(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj <= DJMAX)) return 0;
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
@@ -61,6 +61,7 @@ char *mjd2date(double mjd)
   l = k / 11L;
   im = (int) (k + 2L - 12L * l);
   iy = (int) (100L * (n - 49L) + i + l);
+  if (iy < 0 || iy > 9999) return 0;  /* the format has a four-digit year */
   h = (int) (f*24);
   f -= h/24.;
   mm = (int) (f*1440);
@@ -84,7 +85,7 @@ char *mjd2datef(double mjd)
 
 /* Verify date is acceptable. */
   dj = DJ1 + mjd;
-  if (dj < DJMIN || dj > DJMAX) return 0;
+  if (!(dj >= DJMIN && dj <= DJMAX)) return 0;
 
 /* Copy the date, big then small, and re-align to midnight. */
   if (DJ1 >= mjd) {
@@ -115,6 +116,7 @@ char *mjd2datef(double mjd)
   l = k / 11L;
   im = (int) (k + 2L - 12L * l);
   iy = (int) (100L * (n - 49L) + i + l);
+  if (iy < 0 || iy > 9999) return 0;  /* the format has a four-digit year */
   h = (int) (f*24);
   f -= h/24.;
   mm = (int) (f*1440);
-- 
2.43.0


From 69026ff79fa31231a4094ec34bba5cff64bf5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 07/42] fix: select_ephemeris: recognise the state vector
 element sets

They are marked 'H'; when the velocity and position in place of the mean
motion and eccentricity looked plausible SGP4 was run on them.
---
 src/basics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basics.c b/src/basics.c
index ebd3b88..319729b 100644
--- a/src/basics.c
+++ b/src/basics.c
@@ -37,7 +37,7 @@ double FMod2p( const double x)
 #define EPHEM_TYPE_SDP4       '3'
 #define EPHEM_TYPE_SGP8       '4'
 #define EPHEM_TYPE_SDP8       '5'
-#define EPHEM_TYPE_HIGH       'h'
+#define EPHEM_TYPE_HIGH       'H'
 
 /*------------------------------------------------------------------*/
 
-- 
2.43.0


From ffc165626f9600aecf4dcc68d9d39d18d83dbeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 08/42] fix: epoch_of_date_to_j2000: keep the result on the
 sphere

Next to the celestial poles the approximation returned a declination beyond
+/-90 degrees (HEALPix then ends the program on an assertion, in the middle
of the report) and a right ascension of many turns.
---
 src/observe.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/observe.c b/src/observe.c
index d41d23b..5f70b12 100644
--- a/src/observe.c
+++ b/src/observe.c
@@ -119,10 +119,17 @@ void DLL_FUNC epoch_of_date_to_j2000( const double jd, double *ra, double *dec)
   *ra -= t_centuries * ra_rate * 100.;
   *dec -= t_centuries * dec_rate * 100.;
 
+/* Close to a pole the approximation can go beyond it */
+  if ( *dec > PI / 2. ) {
+	*dec = PI - *dec;
+	*ra += PI;
+  } else if ( *dec < -PI / 2. ) {
+	*dec = -PI - *dec;
+	*ra += PI;
+  }
+
 /* LN add: RA in 0 - 2pi range */
   //*ra = fmod(*ra + PI*10., TWOPI);
-  if ( *ra < 0. ) 
-	*ra += TWOPI;
-  else if ( *ra >= TWOPI )
-	*ra -= TWOPI;
+  if ( *ra < 0. || *ra >= TWOPI )
+	*ra -= TWOPI * floor( *ra / TWOPI );
 }
-- 
2.43.0


From 50c1b9487aa8440f6d37fba8d4b3f92b03cc9e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 09/42] fix: escape the strings of the JSON reports

Satellite names, file names, dates and command-line arguments were copied
into the report as they are: a quote, a backslash, a control character (the
line feed of the usage example) or a byte that is not UTF-8 made the report
unreadable.
---
 src/Makefile         |  2 +-
 src/sat_io.h         | 42 ++++++++++++++++++++++++++++++++++++++++++
 src/sat_skymap.c     | 32 ++++++++++++++++++++++----------
 src/sat_visibility.c | 33 +++++++++++++++++++++++----------
 4 files changed, 88 insertions(+), 21 deletions(-)
 create mode 100644 src/sat_io.h

diff --git a/src/Makefile b/src/Makefile
index f5da7dc..2e9d308 100644
--- a/src/Makefile
+++ b/src/Makefile
@@ -31,7 +31,7 @@ LIBFILES = $(LIBOBJS:.o=.c)
 EXE = sat_skymap sat_visibility mjdnow
 MAIN = $(EXE:=.c)
 
-EXTRAFILES = Makefile norad.h norad_in.h observe.h const_def.h sat_skymap_def.h sat_visibility_def.h stations.txt default.tle tle_retrive.sh $(HPXDIR)
+EXTRAFILES = Makefile norad.h norad_in.h observe.h const_def.h sat_io.h sat_skymap_def.h sat_visibility_def.h stations.txt default.tle tle_retrive.sh $(HPXDIR)
 
 all: lib libso libhpx $(EXE)
 
diff --git a/src/sat_io.h b/src/sat_io.h
new file mode 100644
index 0000000..5cfb917
--- /dev/null
+++ b/src/sat_io.h
@@ -0,0 +1,42 @@
+/*
+   Input/output helpers shared by sat_skymap and sat_visibility
+*/
+
+#ifndef SAT_IO_H
+#define SAT_IO_H
+
+#include <stdio.h>
+
+/* Length of the valid UTF-8 sequence at s (0 if there is none) */
+static inline int utf8_len(const unsigned char *s)
+{
+  int i, n = (*s < 0x80 ? 1 : *s >= 0xC2 && *s < 0xE0 ? 2 : (*s & 0xF0) == 0xE0 ? 3 : *s >= 0xF0 && *s < 0xF5 ? 4 : 0);
+
+  for (i = 1; i < n; i++)
+	if ( (s[i] & 0xC0) != 0x80 )
+	  return(0);
+  if ( (*s == 0xE0 && s[1] < 0xA0) || (*s == 0xED && s[1] > 0x9F) ||
+       (*s == 0xF0 && s[1] < 0x90) || (*s == 0xF4 && s[1] > 0x8F) )
+	return(0);
+
+  return(n);
+}
+
+/* Print a string as the contents of a json string. Bytes which are not UTF-8 are taken as ISO 8859-1. */
+static inline void print_json_str(const char *str)
+{
+  const unsigned char *s = (const unsigned char *)str;
+
+  while ( *s ) {
+	int n = utf8_len(s);
+	if ( *s == '"' || *s == '\\' )
+	  printf("\\%c", *s);
+	else if ( *s < 0x20 || n == 0 )
+	  printf("\\u%04x", *s);
+	else
+	  printf("%.*s", n, (const char *)s);
+	s += (n > 0 ? n : 1);
+  }
+}
+
+#endif
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 038ea04..57e1719 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -122,6 +122,7 @@
 
 #include "const_def.h"
 #include "chealpix.h"
+#include "sat_io.h"
 #include "sat_skymap_def.h"
 
 
@@ -193,11 +194,15 @@ void open_json() {
 }
 
 void add_params_json(Params p) {
-  printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd\": %11.5lf, \"epoch_UTC\": \"%s\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
+  printf("\"input_params\": {\"tle_file\": \"");
+  print_json_str(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd\": %11.5lf, \"epoch_UTC\": \"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd);
+  print_json_str(p.date);
+  printf("\", \"gmst\":%8.4lf, \"delta_time_s\": %d, \"max_sats\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd, p.date, p.gmst, p.delta_time, p.max_sats);
+    p.gmst, p.delta_time, p.max_sats);
 }
 
 void add_sundata_json(Sun sun) {
@@ -232,15 +237,19 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
   int iarg = 1;
   printf(" \"run_command\": \"%s", progname);
   if ( input_list ) {
-	printf (" @%s", argv[1]);
+	printf (" @");
+	print_json_str(argv[1]);
 	iarg++;
   }
 
   for ( int i = iarg; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	printf (" ");
+	print_json_str(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
-	 " \"n_sunlit_sats\": %d}\n", status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_str(errmsg);
+  printf("\", \"n_sats_found\": %d, \"n_sats\": %d,"
+	 " \"n_sunlit_sats\": %d}\n", n_sats_found, n_sats, n_sunlit_sats);
 }
 
 
@@ -889,8 +898,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  printf(" \"satellites\": [");
 		}
 
-		printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-			sat_name, intl_desig, tle.norad_number);
+		printf("{\"name\": \"");
+		print_json_str(sat_name);
+		printf("\", \"intl_desig\": \"");
+		print_json_str(intl_desig);
+		printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 		if ( p.geoloc_requested )
 			add_satlatlon_json(geo);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d9d0e06..051adec 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -272,6 +272,7 @@
 
 #include "const_def.h"
 #include "chealpix.h"
+#include "sat_io.h"
 #include "sat_visibility_def.h"
 
 
@@ -337,11 +338,17 @@ void open_json() {
 }
 
 void add_params_json() {
-  printf("\"input_params\": {"
-    "\"tle_file\": \"%s\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
-    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"%s\", \"%s\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
+  printf("\"input_params\": {\"tle_file\": \"");
+  print_json_str(p.tle_file_name);
+  printf("\", \"location\": {\"lat\":%8.4lf, \"lon\":%9.4lf, \"alt\":%8.1lf}, \"region\": {\"ra\":%9.4lf, \"dec\":%8.4lf, \"radius\":%8.4lf, \"lmst\":%8.4lf, \"az\":%9.4lf, \"alt\":%8.4lf, \"parang\":%8.3lf}, "
+    "\"mjd_range\": [%11.5lf, %11.5lf], \"date_utc_range\": [\"",
+    p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1]);
+  print_json_str(p.date[0]);
+  printf("\", \"");
+  print_json_str(p.date[1]);
+  printf("\"], \"gmst\":%8.4lf, \"delta_time_s\": %d, "
     "\"notes\": \"All coordinates and radius in degrees. GMST, LMST in hrs.\"}, ",
-    p.tle_file_name, p.lat, p.lon, p.ht_in_meters, p.ra_deg, p.de_deg, p.search_radius, p.lmst, p.az, p.alt, p.parang, p.mjd[0], p.mjd[1], p.date[0], p.date[1], p.gmst, p.delta_time);
+    p.gmst, p.delta_time);
 }
 
 void add_fieldsdesc_json() {
@@ -387,15 +394,18 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
   int iarg = 1;
   printf("\"run_command\": \"%s", progname);
   if ( input_list ) {
-	printf (" @%s", argv[1]);
+	printf (" @");
+	print_json_str(argv[1]);
 	iarg++;
   }
 
   for ( int i = iarg; i < argc; i++ ) {
-	printf (" %s", argv[i]);
+	printf (" ");
+	print_json_str(argv[i]);
   }
-  printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
-	 "}\n", status, errmsg, n_sats_found);
+  printf("\", \"status\": %d, \"errmsg\": \"", status);
+  print_json_str(errmsg);
+  printf("\", \"n_sats_found\": %d}\n", n_sats_found);
 }
 
 
@@ -955,8 +965,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
-	printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
-		sat_name, intl_desig, tle.norad_number);
+	printf("{\"name\": \"");
+	print_json_str(sat_name);
+	printf("\", \"intl_desig\": \"");
+	print_json_str(intl_desig);
+	printf("\", \"norad_n\": %d, ", tle.norad_number);
 
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
-- 
2.43.0


From fa681030848ba0a74aaf1669fd79d02749e8e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 10/42] fix: lost output is an error

The programs ended with exit code 0 when the report could not be written.
---
 src/mjdnow.c         |  5 +++++
 src/sat_io.h         | 11 +++++++++++
 src/sat_skymap.c     |  2 ++
 src/sat_visibility.c |  2 ++
 4 files changed, 20 insertions(+)

diff --git a/src/mjdnow.c b/src/mjdnow.c
index b180ea9..95c94be 100644
--- a/src/mjdnow.c
+++ b/src/mjdnow.c
@@ -13,5 +13,10 @@ int main (void) {
   time_t now = time(&now);
   printf("%lf\n", (double)(40587. + (double)(now / (double) 86400.)));
 
+  if (ferror(stdout) || fflush(stdout) != 0) {
+    perror("mjdnow");
+    return 1;
+  }
+
   return 0;
 }
diff --git a/src/sat_io.h b/src/sat_io.h
index 5cfb917..d5aad38 100644
--- a/src/sat_io.h
+++ b/src/sat_io.h
@@ -6,6 +6,17 @@
 #define SAT_IO_H
 
 #include <stdio.h>
+#include <stdlib.h>
+#include <unistd.h>
+
+/* At exit: no success if any output was lost */
+static void check_stdout(void)
+{
+  if ( ferror(stdout) || fflush(stdout) != 0 ) {
+	fprintf(stderr, "Error writing to standard output\n");
+	_exit(EXIT_FAILURE);
+  }
+}
 
 /* Length of the valid UTF-8 sequence at s (0 if there is none) */
 static inline int utf8_len(const unsigned char *s)
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 57e1719..1a2c997 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -366,6 +366,8 @@ int main(int argc, char **argv)
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
 
+  atexit(check_stdout);
+
   if ( argc < 2 ) {
 	open_json();
 	sprintf(errmsg, "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 051adec..13c05ff 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -560,6 +560,8 @@ int main(int argc, char **argv)
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
 
+  atexit(check_stdout);
+
   if ( argc < 2 ) {
 	open_json();
 	sprintf(errmsg, "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
-- 
2.43.0


From ef2c941d68af0660535c1515a3fa29a2a8e2b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 11/42] fix: mjdnow: do not print a date when the clock cannot
 be read

---
 src/mjdnow.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mjdnow.c b/src/mjdnow.c
index 95c94be..d39ed9d 100644
--- a/src/mjdnow.c
+++ b/src/mjdnow.c
@@ -4,13 +4,19 @@
   LN@INAF-OAS, Nov. 2020                      Last change: 04/05/2020
 */
 
+#include <errno.h>
 #include <stdio.h>
 #include <strings.h>
 #include <time.h>
 
 int main (void) {
 
-  time_t now = time(&now);
+  errno = 0;
+  time_t now = time(NULL);
+  if (now == (time_t)-1 && errno) {
+    perror("mjdnow");
+    return 1;
+  }
   printf("%lf\n", (double)(40587. + (double)(now / (double) 86400.)));
 
   if (ferror(stdout) || fflush(stdout) != 0) {
-- 
2.43.0


From 2dad2affb32f4bfe24348fa2c38ce46cde319828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 12/42] fix: command-line options without a value, joined
 switches, a single dash

'-t' as the last argument crashed the program, '-HV' made it loop for ever
and '-' was read beyond its end.
---
 src/sat_skymap.c     | 15 ++++++++++++---
 src/sat_visibility.c | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 1a2c997..5bf8493 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -411,12 +411,21 @@ int main(int argc, char **argv)
 
   for ( i = 1; i < argc; i++ )
     if ( argv[i][0] == '-' ) {
-		opt = argv[i][1];
+		char *option = argv[i];
+		opt = option[1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt != 0 && strchr("EGHITV", opt) && option[2] != 0 )
+		  opt = 0;  /* switches cannot be joined */
+		if ( opt != 0 && option[2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  ++i;
 		  par_pos = 0;
+		  if ( i == argc && !strchr("hEGHITV", opt) ) {
+			open_json();
+			sprintf(errmsg, "Missing value for command-line option '%s'", option);
+			close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+			exit(-2);
+		  }
 		}
 	switch( opt )
 	{
@@ -531,7 +540,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		sprintf(errmsg, "Unrecognized command-line option '%s'", option);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 13c05ff..f02b12a 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -587,12 +587,21 @@ int main(int argc, char **argv)
 
   for ( i = 1; i < argc; i++ )
     if ( argv[i][0] == '-' ) {
-		opt = argv[i][1];
+		char *option = argv[i];
+		opt = option[1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt != 0 && strchr("NT", opt) && option[2] != 0 )
+		  opt = 0;  /* switches cannot be joined */
+		if ( opt != 0 && option[2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  ++i;
 		  par_pos = 0;
+		  if ( i == argc && !strchr("hNT", opt) ) {
+			open_json();
+			sprintf(errmsg, "Missing value for command-line option '%s'", option);
+			close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+			exit(-2);
+		  }
 		}
 	switch( opt )
 	{
@@ -673,7 +682,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		sprintf(errmsg, "Unrecognized command-line option '%s'", option);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
-- 
2.43.0


From 7ec3ad1d95d12f7e9f67c65b00aa371641bac9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 13/42] fix: long paths, names and options overflowed
 fixed-size buffers

---
 src/sat_io.h             | 10 +++++++
 src/sat_skymap.c         | 61 +++++++++++++++++++---------------------
 src/sat_skymap_def.h     |  4 +--
 src/sat_visibility.c     | 51 ++++++++++++++++-----------------
 src/sat_visibility_def.h |  4 +--
 5 files changed, 67 insertions(+), 63 deletions(-)

diff --git a/src/sat_io.h b/src/sat_io.h
index d5aad38..81c7525 100644
--- a/src/sat_io.h
+++ b/src/sat_io.h
@@ -5,6 +5,8 @@
 #ifndef SAT_IO_H
 #define SAT_IO_H
 
+#include <limits.h>
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
@@ -18,6 +20,14 @@ static void check_stdout(void)
   }
 }
 
+/* File name in a directory (if any). Return false if it does not fit. */
+static inline bool make_path(char path[PATH_MAX], const char *dir, const char *name)
+{
+  int n = (dir ? snprintf(path, PATH_MAX, "%s/%s", dir, name) : snprintf(path, PATH_MAX, "%s", name));
+
+  return(n >= 0 && n < PATH_MAX);
+}
+
 /* Length of the valid UTF-8 sequence at s (0 if there is none) */
 static inline int utf8_len(const unsigned char *s)
 {
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 5bf8493..eb0aaf3 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -355,8 +355,8 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+  char errmsg[PATH_MAX + 64] = {""}, *tle_path = ".", line1[100], line2[100],
+	sat_name[25], tle_path_file[PATH_MAX], opt, *endptr;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
@@ -370,7 +370,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(0);
   }
@@ -400,8 +400,8 @@ int main(int argc, char **argv)
   p.use_deftledir = false;  /* If default directory with TLE files should be used (def. ./) */
   p.altrng_requested = false;  /* If altitude range filter requested */
   p.sunlit_only = false;  /* If only data for illuminated satellites requested */
-  p.intl_desig[0] = '\0';
-  p.satname[0] = '\0';
+  p.intl_desig = "";
+  p.satname = "";
   p.norad_n = 0;
   p.alt_min = 0;
   p.alt_max = 1e32;
@@ -422,7 +422,7 @@ int main(int argc, char **argv)
 		  par_pos = 0;
 		  if ( i == argc && !strchr("hEGHITV", opt) ) {
 			open_json();
-			sprintf(errmsg, "Missing value for command-line option '%s'", option);
+			snprintf(errmsg, sizeof(errmsg), "Missing value for command-line option '%s'", option);
 			close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 			exit(-2);
 		  }
@@ -475,11 +475,11 @@ int main(int argc, char **argv)
 		date2mjd_nf(argv[i] + par_pos, &p.mjd);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		tle_path = argv[i] + par_pos;
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
@@ -496,7 +496,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -509,13 +509,13 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
-		  sprintf(errmsg, "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
+		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( p.de_deg < -90. || p.de_deg > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
+		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -531,7 +531,7 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'S':
-		strcpy(p.satname, argv[i] + par_pos);
+		p.satname = argv[i] + par_pos;
 		len_satname = strlen(p.satname);
 		p.satname_filter = true;
 		break;
@@ -540,7 +540,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", option);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", option);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
@@ -551,7 +551,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
 	Usage();
@@ -566,7 +566,7 @@ int main(int argc, char **argv)
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
   const short fname_len = 64;
-  char *s, row[fname_len], norad_name[7], tle_list_file[200];
+  char *s, row[fname_len], norad_name[7], tle_list_file[PATH_MAX];
   FILE *lisfile, *ifile;
 
   open_json();
@@ -580,9 +580,8 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
-	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+	if ( !make_path(tle_list_file, tle_path, ++argv[iarg]) || !(lisfile = fopen(tle_list_file, "rb")) ) {
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
@@ -601,7 +600,7 @@ int main(int argc, char **argv)
   bool single_sat = false, single_sat_found = false, read_tle_list = true;
 
   if ( (sbuff = (char *)malloc(max_satbuff)) == NULL ) {
-	sprintf(errmsg, "Could not allocate required buffer memory");
+	snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
   	close_stat_json(argc, argv, input_list, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(3);
   }
@@ -691,11 +690,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
   while ( read_tle_list ) {
 
     char *lastchar;
+    bool path_ok;
     if ( !input_list ) {
-	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
-	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	path_ok = make_path(tle_path_file, strchr(p.tle_file_name, '/') == NULL ? tle_path : NULL, p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -709,19 +706,19 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	path_ok = make_path(tle_path_file, tle_path, tle_file_name);
     }
 //printf("\ntle_path_file: %s\n\n", tle_path_file);
  
-    if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+    if ( !path_ok || !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
 
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
@@ -751,10 +748,10 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_found = true;
 	} else if ( p.satname_filter ) {
-		if ( memcmp(sat_name, p.satname, len_satname) )
+		if ( strncmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
@@ -771,7 +768,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
-		    sprintf(errmsg, "Could not allocate required buffer memory");
+		    snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
 		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
@@ -801,7 +798,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
-		sprintf(errmsg, "Could not decode TLE data");
+		snprintf(errmsg, sizeof(errmsg), "Could not decode TLE data");
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
@@ -960,7 +957,7 @@ end_checking:
 
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
-	sprintf(errmsg, "Requested satellite not found in TLE file");
+	snprintf(errmsg, sizeof(errmsg), "Requested satellite not found in TLE file");
 
   close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 
diff --git a/src/sat_skymap_def.h b/src/sat_skymap_def.h
index fd2f72d..9bb8ea2 100644
--- a/src/sat_skymap_def.h
+++ b/src/sat_skymap_def.h
@@ -24,8 +24,8 @@ const char *progname = "sat_skymap",
   typedef struct myParams {
 	  char *tle_file_name,
 		date[24],
-		intl_desig[12],
-		satname[24];
+		*intl_desig,
+		*satname;
 	 double lat,
 		lon,
 		ht_in_meters,
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index f02b12a..5907286 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -550,8 +550,8 @@ void get_sat_PA_and_speed(double t_since) {
 
 int main(int argc, char **argv)
 {
-  char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+  char errmsg[PATH_MAX + 64] = {""}, *tle_path = ".", line1[100], line2[100],
+	sat_name[25], tle_path_file[PATH_MAX], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0,
@@ -564,7 +564,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(0);
   }
@@ -578,8 +578,8 @@ int main(int argc, char **argv)
   p.single_sat_n = false;      /* If enquire for just 1 satellite using its NORAD number */
   p.use_deftledir = false;     /* If default directory with TLE files should be used (def. ./) */
   p.altrng_requested = false;  /* If altitude range filter requested */
-  p.intl_desig[0] = '\0';
-  p.satname[0] = '\0';
+  p.intl_desig = "";
+  p.satname = "";
   p.alt_max = 1e32;
 
 
@@ -598,7 +598,7 @@ int main(int argc, char **argv)
 		  par_pos = 0;
 		  if ( i == argc && !strchr("hNT", opt) ) {
 			open_json();
-			sprintf(errmsg, "Missing value for command-line option '%s'", option);
+			snprintf(errmsg, sizeof(errmsg), "Missing value for command-line option '%s'", option);
 			close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 			exit(-2);
 		  }
@@ -638,11 +638,11 @@ int main(int argc, char **argv)
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		tle_path = argv[i] + par_pos;
 		p.use_deftledir = false;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		p.intl_desig = argv[i] + par_pos;
 		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
@@ -663,7 +663,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
@@ -682,7 +682,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", option);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", option);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
@@ -694,7 +694,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	tle_path = DEF_TLEDIR;
 
   if ( !in_geopos ) {
 	Usage();
@@ -706,7 +706,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = 64;
-  char row[fname_len], norad_name[7], tle_list_file[200];
+  char row[fname_len], norad_name[7], tle_list_file[PATH_MAX];
   FILE *lisfile, *ifile = NULL;
 
   open_json();
@@ -719,9 +719,8 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
-	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+	if ( !make_path(tle_list_file, tle_path, ++argv[iarg]) || !(lisfile = fopen(tle_list_file, "rb")) ) {
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 		exit(2);
 	}
@@ -730,7 +729,7 @@ int main(int argc, char **argv)
   p.tle_file_name = argv[iarg];
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
-	sprintf(errmsg, "Need to input a NORAD ID or an international designator.");
+	snprintf(errmsg, sizeof(errmsg), "Need to input a NORAD ID or an international designator.");
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
   }
@@ -745,11 +744,9 @@ int main(int argc, char **argv)
   while ( read_tle_list ) {
 
     char *lastchar;
+    bool path_ok;
     if ( !input_list ) {
-	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
-	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	path_ok = make_path(tle_path_file, strchr(p.tle_file_name, '/') == NULL ? tle_path : NULL, p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -763,17 +760,17 @@ int main(int argc, char **argv)
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	path_ok = make_path(tle_path_file, tle_path, tle_file_name);
     }
  
-    if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+    if ( !path_ok || !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 	exit(-2);
     }
@@ -798,7 +795,7 @@ int main(int argc, char **argv)
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  single_sat_found = true;
 	}
  
@@ -823,7 +820,7 @@ int main(int argc, char **argv)
   fclose(ifile);
 
   if ( !single_sat_found ) {
-	sprintf(errmsg, "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(1);
   }
@@ -891,7 +888,7 @@ int main(int argc, char **argv)
 
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
-	  sprintf(errmsg, "Satellite altitude out of requested range");
+	  snprintf(errmsg, sizeof(errmsg), "Satellite altitude out of requested range");
 	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	  exit(1);
 	}
diff --git a/src/sat_visibility_def.h b/src/sat_visibility_def.h
index 7552dfd..aac75a7 100644
--- a/src/sat_visibility_def.h
+++ b/src/sat_visibility_def.h
@@ -24,8 +24,8 @@ const char *progname = "sat_visibility",
   typedef struct myParams {
 	  char *tle_file_name,
 		date[2][24],
-		intl_desig[12],
-		satname[24];
+		*intl_desig,
+		*satname;
 	 double lat,
 		lon,
 		ht_in_meters,
-- 
2.43.0


From 4b617814129d2c0a9b755bbcd59f945507c89dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 14/42] fix: check dates, site coordinates, radius and time
 steps

An unreadable or missing date, a date the calendar conversion cannot handle
(which crashed), values like nan or inf (which made the report unreadable)
and a null time step (sat_visibility then ran for ever) are now errors.
---
 src/sat_skymap.c     | 48 +++++++++++++++++++++++++++++++++++---------
 src/sat_visibility.c | 44 +++++++++++++++++++++++++++++++++-------
 2 files changed, 76 insertions(+), 16 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index eb0aaf3..34987d7 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -356,9 +356,9 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 int main(int argc, char **argv)
 {
   char errmsg[PATH_MAX + 64] = {""}, *tle_path = ".", line1[100], line2[100],
-	sat_name[25], tle_path_file[PATH_MAX], opt, *endptr;
+	sat_name[25], tle_path_file[PATH_MAX], opt, *endptr, *date;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
-	 target_ra, target_dec, target_lon = 0, target_lat = 0;
+	 target_ra, target_dec, target_lon = 0, target_lat = 0, delta_t;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
 	 len_intl_desig = 0, len_satname = 0;
   bool in_region = false,  /* used for single satellite request */
@@ -471,8 +471,13 @@ int main(int argc, char **argv)
 		p.geoloc_requested = true;
 		break;
           case 'd':
-		strcpy(p.date, argv[i] + par_pos);
-		date2mjd_nf(argv[i] + par_pos, &p.mjd);
+		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
+		if ( date2mjd_nf(p.date, &p.mjd) != 0 || mjd2date(p.mjd) == NULL )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid date '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		break;
  	  case 'D':
 		tle_path = argv[i] + par_pos;
@@ -487,19 +492,31 @@ int main(int argc, char **argv)
 		break;
           case 'j':
 		p.mjd = atof(argv[i] + par_pos);
-		strcpy(p.date, mjd2date(p.mjd));
+		if ( (date = mjd2date(p.mjd)) == NULL )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid MJD '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		strcpy(p.date, date);
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
 		if ( p.lon < 0. )
 		  p.lon += 360;
-		if ( p.lat < -90. || p.lat > 90. )  {
+		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
+		if ( !(fabs(p.lon) <= 360. && fabs(p.ht_in_meters) <= 1e9) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid geodetic site '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		in_geopos = true;
 		break;
           case 'n':
@@ -507,13 +524,13 @@ int main(int argc, char **argv)
 		break;
           case 'p':
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
-		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
+		if ( !(p.ra_deg >= 0. && p.ra_deg <= 360.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
-		if ( p.de_deg < -90. || p.de_deg > 90. )  {
+		if ( !(p.de_deg >= -90. && p.de_deg <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -523,6 +540,12 @@ int main(int argc, char **argv)
 		break;
           case 'r':
 		p.search_radius = atof(argv[i] + par_pos);
+		if ( !isfinite(p.search_radius) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid radius '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
@@ -536,7 +559,14 @@ int main(int argc, char **argv)
 		p.satname_filter = true;
 		break;
           case 't':
-		p.delta_time = atof(argv[i] + par_pos);
+		delta_t = atof(argv[i] + par_pos);
+		if ( !(fabs(delta_t) >= 1. && fabs(delta_t) <= 1e9) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid delta time (seconds) '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		p.delta_time = delta_t;
 		break;
           default:
 		open_json();
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 5907286..5b7813b 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -553,7 +553,7 @@ int main(int argc, char **argv)
   char errmsg[PATH_MAX + 64] = {""}, *tle_path = ".", line1[100], line2[100],
 	sat_name[25], tle_path_file[PATH_MAX], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
-	 target_ra_rad, target_dec_rad;
+	 target_ra_rad, target_dec_rad, delta_t;
   int i, par_pos, status = 0, n_sats_found = 0,
 	 len_intl_desig = 0;
   bool in_geopos = false,  /* make sure Geo location is passed */
@@ -633,9 +633,14 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
-		sscanf(argv[i] + par_pos, "%19s,%19s", p.date[0], p.date[1]);
-		date2mjd_nf(p.date[0], &p.mjd[0]);
-		date2mjd_nf(p.date[1], &p.mjd[1]);
+		if ( sscanf(argv[i] + par_pos, "%23[^,],%23[^,]", p.date[0], p.date[1]) != 2 ||
+		     date2mjd_nf(p.date[0], &p.mjd[0]) != 0 || mjd2date(p.mjd[0]) == NULL ||
+		     date2mjd_nf(p.date[1], &p.mjd[1]) != 0 || mjd2date(p.mjd[1]) == NULL )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid date range '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		break;
  	  case 'D':
 		tle_path = argv[i] + par_pos;
@@ -652,7 +657,13 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
-		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
+		if ( sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]) != 2 ||
+		     mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid MJD range '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
 		break;
@@ -661,16 +672,28 @@ int main(int argc, char **argv)
 		/* Longitude locally in the range [0, 360[ (not [-180, +180]) degrees */
 		if ( p.lon < 0. )
 		  p.lon += 360;
-		if ( p.lat < -90. || p.lat > 90. )  {
+		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
+		if ( !(fabs(p.lon) <= 360. && fabs(p.ht_in_meters) <= 1e9) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid geodetic site '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		in_geopos = true;
 		break;
           case 'r':
 		p.search_radius = atof(argv[i] + par_pos);
+		if ( !isfinite(p.search_radius) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid radius '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		break;
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
@@ -678,7 +701,14 @@ int main(int argc, char **argv)
 		p.altrng_requested = false;  // No altitude filter
 		break;
           case 't':
-		p.delta_time = atof(argv[i] + par_pos);
+		delta_t = atof(argv[i] + par_pos);
+		if ( !(delta_t >= 1. && fabs(delta_t) <= 1e9) )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid delta time (seconds) '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
+		p.delta_time = delta_t;
 		break;
           default:
 		open_json();
-- 
2.43.0


From 77e48beab4752971491d92c173311f13d7ba8208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 15/42] fix: a satellite's name is the line right before its
 elements

Names were copied without a terminator and read beyond the buffer; an empty
line made trimend run before it; a name beginning with 1 or 2 was ignored
and any satellite without a name line got the name of the previous one; the
tail of a line longer than the buffer was taken as a line of its own.
---
 src/sat_io.h         | 16 ++++++++++++++++
 src/sat_skymap.c     | 31 ++++++++++++++++++++-----------
 src/sat_visibility.c | 31 ++++++++++++++++++++-----------
 3 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/src/sat_io.h b/src/sat_io.h
index 81c7525..fcdcbb1 100644
--- a/src/sat_io.h
+++ b/src/sat_io.h
@@ -9,6 +9,7 @@
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 
 /* At exit: no success if any output was lost */
@@ -28,6 +29,21 @@ static inline bool make_path(char path[PATH_MAX], const char *dir, const char *n
   return(n >= 0 && n < PATH_MAX);
 }
 
+/* Read a line, dropping what does not fit. Return NULL at end of file or in case of error. */
+static inline char *read_line(char *line, int size, FILE *file)
+{
+  int c;
+
+  line[size - 2] = '\n';
+  if ( !fgets(line, size, file) )
+	return(NULL);
+  if ( line[size - 2] != '\n' && line[size - 2] != '\0' )
+	while ( (c = getc(file)) != EOF && c != '\n' )
+	  ;
+
+  return(line);
+}
+
 /* Length of the valid UTF-8 sequence at s (0 if there is none) */
 static inline int utf8_len(const unsigned char *s)
 {
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 34987d7..ee1571f 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -147,14 +147,27 @@ char *trimend(char *str)
 {
   char *end;
 
-  end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
-  end[1] = '\0';
+  end = str + strlen(str);
+  while(end > str && isspace((unsigned char)end[-1])) end--;
+  *end = '\0';
 
   return str;
 }
 
 
+/*
+  Satellite name from the line before the two-line elements (if it is not part of other elements)
+*/
+void get_sat_name(char name[25], const char *line)
+{
+  if ( (line[0] == '1' || line[0] == '2') && line[1] == ' ' )
+	name[0] = '\0';
+  else
+	snprintf(name, 24, "%s", line);
+  trimend(name);
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -747,16 +760,15 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     }
 
 
-    if ( !fgets( line1, sizeof(line1), ifile) ) {
+    if ( !read_line(line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
 
-    strncpy(sat_name, line1, 23);
-    trimend(sat_name);
+    sat_name[0] = '\0';
 
-    while ( fgets(line2, sizeof(line2), ifile) ) {
+    while ( read_line(line2, sizeof(line2), ifile) ) {
 
       tle_t tle;  /* Structure for two-line elements set for satellite */
 
@@ -963,11 +975,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	} // end if ang_sep < p.search_radius
       }  // end TLE found
 
+      get_sat_name(sat_name, line1);
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
-	  strncpy(sat_name, line2, 23);
-	  trimend(sat_name);
-      }
     }  // end while fgets(line2 ...
 
     fclose(ifile);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 5b7813b..27dc7a6 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -298,14 +298,27 @@ char *trimend(char *str)
 {
   char *end;
 
-  end = str + strlen(str) - 1;
-  while(end > str && isspace((unsigned char)*end)) end--;
-  end[1] = '\0';
+  end = str + strlen(str);
+  while(end > str && isspace((unsigned char)end[-1])) end--;
+  *end = '\0';
 
   return str;
 }
 
 
+/*
+  Satellite name from the line before the two-line elements (if it is not part of other elements)
+*/
+void get_sat_name(char name[25], const char *line)
+{
+  if ( (line[0] == '1' || line[0] == '2') && line[1] == ' ' )
+	name[0] = '\0';
+  else
+	snprintf(name, 24, "%s", line);
+  trimend(name);
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -799,16 +812,15 @@ int main(int argc, char **argv)
 	exit(2);
     }
 
-    if ( !fgets( line1, sizeof(line1), ifile) ) {
+    if ( !read_line(line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 	exit(-2);
     }
 
-    strncpy(sat_name, line1, 23);
-    trimend(sat_name);
+    sat_name[0] = '\0';
 
-    while ( fgets(line2, sizeof(line2), ifile) ) {
+    while ( read_line(line2, sizeof(line2), ifile) ) {
 
       if ( !parse_elements(line1, line2, &tle) ) { /* TLE found */
 /* First check if we have processed this sat already */
@@ -835,11 +847,8 @@ int main(int argc, char **argv)
 
       }  // end TLE found
 
+      get_sat_name(sat_name, line1);
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
-	strncpy(sat_name, line2, 23);
-	trimend(sat_name);
-      }
     }  // end while fgets(line2 ...
 
     if ( single_sat_found )
-- 
2.43.0


From f586293a158bf2ee3c0bfd3c84c35cc02faf205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 16/42] fix: close the satellites array when the scan ends with
 an error

---
 src/sat_skymap.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index ee1571f..d02236e 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -246,8 +246,13 @@ void add_satlatlon_json(Geoloc geo) {
     printf( "\"geoloc\": {\"lat\":%7.3lf, \"lon\":%7.3lf, \"alt\":%9.2lf, \"theta\":%8.3lf}, ", geo.lat, geo.lon, geo.alt, geo.theta);
 }
 
+/* If the array of satellites has been opened */
+static bool sats_opened = false;
+
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   int iarg = 1;
+  if ( sats_opened )
+	printf("],");
   printf(" \"run_command\": \"%s", progname);
   if ( input_list ) {
 	printf (" @");
@@ -946,6 +951,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		else {
 		  add_fieldsdesc_json();
 		  printf(" \"satellites\": [");
+		  sats_opened = true;
 		}
 
 		printf("{\"name\": \"");
@@ -991,9 +997,6 @@ end_checking:
 
   free(sbuff);
 
-  if ( !p.info_only && n_sats_found > 0 )
-	printf("],");
-
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
 	snprintf(errmsg, sizeof(errmsg), "Requested satellite not found in TLE file");
-- 
2.43.0


From 02b7f3921eb79295ce5d602fbbb2a05c24eb14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 17/42] fix: a catalogue or list that cannot be read to its end
 is an error

The scan just stopped at the failing point and reported success.
---
 src/sat_skymap.c     | 13 ++++++++++++-
 src/sat_visibility.c | 14 +++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index d02236e..53661fa 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -745,8 +745,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     } else {
 
 	tle_file_name = row;
-	if ( fgets(row, fname_len, lisfile) == NULL )
+	if ( fgets(row, fname_len, lisfile) == NULL ) {
+	  if ( ferror(lisfile) ) {
+		snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_list_file);
+		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		exit(2);
+	  }
 	  break;
+	}
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
 	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
@@ -985,6 +991,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       strcpy(line1, line2);
     }  // end while fgets(line2 ...
 
+    if ( ferror(ifile) ) {
+	snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_path_file);
+	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	exit(2);
+    }
     fclose(ifile);
   }  // end while read_tle_list
 
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 27dc7a6..73c5239 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -794,8 +794,14 @@ int main(int argc, char **argv)
     } else {
 
 	tle_file_name = row;
-	if ( fgets(row, fname_len, lisfile) == NULL )
+	if ( fgets(row, fname_len, lisfile) == NULL ) {
+	  if ( ferror(lisfile) ) {
+		snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_list_file);
+		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+		exit(2);
+	  }
 	  break;
+	}
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
 	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
@@ -854,6 +860,12 @@ int main(int argc, char **argv)
     if ( single_sat_found )
 	break;
 
+    if ( ferror(ifile) ) {
+	snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_path_file);
+	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	exit(2);
+    }
+
   }  // end while read_tle_list
 
   fclose(ifile);
-- 
2.43.0


From 50f77a79a8518c438e6e12bddaec453c1bd1b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 18/42] fix: list rows: DOS line ends, blank lines and names
 longer than 62 characters

A CR or trailing blank was left in the file name, an empty row was examined
before its start and the rest of a long row was taken as another file.
---
 src/sat_skymap.c     | 13 +++++++++----
 src/sat_visibility.c | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 53661fa..98db05f 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -613,7 +613,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd + p.delta_time / SEC_IN_DAY,
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
-  const short fname_len = 64;
+  const short fname_len = PATH_MAX;
   char *s, row[fname_len], norad_name[7], tle_list_file[PATH_MAX];
   FILE *lisfile, *ifile;
 
@@ -755,9 +755,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	}
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	if ( strlen(row) == (size_t)fname_len - 1 ) {
+	  snprintf(errmsg, sizeof(errmsg), "Line too long in input file %s", tle_list_file);
+	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	  exit(2);
+	}
+	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
+	while (lastchar > tle_file_name && (unsigned char)lastchar[-1] <= 32)
+	  *--lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	path_ok = make_path(tle_path_file, tle_path, tle_file_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 73c5239..e16e405 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -748,7 +748,7 @@ int main(int argc, char **argv)
   earth_lat_alt_to_parallax(p.lat * DEG2RAD, p.ht_in_meters, &rho_cos_phi, &rho_sin_phi);
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
-  const short fname_len = 64;
+  const short fname_len = PATH_MAX;
   char row[fname_len], norad_name[7], tle_list_file[PATH_MAX];
   FILE *lisfile, *ifile = NULL;
 
@@ -804,9 +804,14 @@ int main(int argc, char **argv)
 	}
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	if ( strlen(row) == (size_t)fname_len - 1 ) {
+	  snprintf(errmsg, sizeof(errmsg), "Line too long in input file %s", tle_list_file);
+	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	  exit(2);
+	}
+	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
+	while (lastchar > tle_file_name && (unsigned char)lastchar[-1] <= 32)
+	  *--lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	path_ok = make_path(tle_path_file, tle_path, tle_file_name);
-- 
2.43.0


From 585e981affa919de81f2565f90fa50d449055d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 19/42] fix: sat_skymap: grow the buffer of processed
 satellites before it overflows

The buffer was enlarged only when its 70000 bytes were already in use, one
byte (the terminating null of the last entry) too late.
---
 src/sat_skymap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 98db05f..689030c 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -822,7 +822,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("Found string '%s' at index = %ld ... skipping.\n", norad_name, s - sbuff);
 		continue;
 	} else {
-		if ( use_bufflen >= cur_bufflen ) {
+		if ( use_bufflen + (int)strlen(norad_name) >= cur_bufflen ) {
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
@@ -831,8 +831,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		    exit(1);
 		  }
 		}
-		strcat(sbuff, norad_name);
-		use_bufflen += 6;
+		strcpy(sbuff + use_bufflen, norad_name);
+		use_bufflen += strlen(norad_name);
 	}
 
 	int is_deep = select_ephemeris(&tle),
-- 
2.43.0


From 3ab03381c1e9ec7c094e8fdb29226faecf7794c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 20/42] fix: close every catalogue and the list file

sat_visibility kept all the catalogues of a list but the last one open (and
called fclose(NULL), with an uninitialised name in the message, if the list
named none); neither tool closed the list.
---
 src/sat_skymap.c     | 3 +++
 src/sat_visibility.c | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 689030c..f4fada9 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -1006,6 +1006,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 
 end_checking:
+  if ( input_list )
+	fclose(lisfile);
+
   if ( single_sat_found )
 	n_sats = 1;
   else
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index e16e405..4ba54e5 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -870,13 +870,17 @@ int main(int argc, char **argv)
 	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
     }
+    fclose(ifile);
 
   }  // end while read_tle_list
 
-  fclose(ifile);
+  if ( single_sat_found )
+	fclose(ifile);
+  if ( input_list )
+	fclose(lisfile);
 
   if ( !single_sat_found ) {
-	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", input_list ? tle_list_file : tle_path_file);
 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(1);
   }
-- 
2.43.0


From 51a1edff904a1e9bb70ceafab3b97b19f16cf110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 21/42] fix: single satellite requests

- a match dropped by the -a or -V filter let all the following satellites in
- the number is the one of the elements (was: the first 5 characters with
  strtol), an invalid number is an error
- international designators were cut to 9 characters, so 1998-067A also
  matched (and 1998-067AB was reported as) another object
- sat_visibility reported the designator of a previous satellite
- n_sats is set also when the scan ends with an error
---
 src/sat_io.h         | 27 ++++++++++++++++++++++++
 src/sat_skymap.c     | 50 ++++++++++++++++++--------------------------
 src/sat_visibility.c | 49 ++++++++++++++++---------------------------
 3 files changed, 65 insertions(+), 61 deletions(-)

diff --git a/src/sat_io.h b/src/sat_io.h
index fcdcbb1..c51580a 100644
--- a/src/sat_io.h
+++ b/src/sat_io.h
@@ -5,12 +5,14 @@
 #ifndef SAT_IO_H
 #define SAT_IO_H
 
+#include <ctype.h>
 #include <limits.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
+#include "norad.h"
 
 /* At exit: no success if any output was lost */
 static void check_stdout(void)
@@ -76,4 +78,29 @@ static inline void print_json_str(const char *str)
   }
 }
 
+/* International designator, e.g. 1998-067A ("none" if missing) */
+static inline void get_intl_desig(char desig[12], const tle_t *tle)
+{
+  int n;
+
+  strcpy(desig, "none");
+  if ( tle->intl_desig[0] == ' ' )
+	return;
+  n = snprintf(desig, 12, "%s%.2s-%.6s",
+	(atoi(tle->intl_desig) > 57000 ? "19" : "20"),
+	tle->intl_desig, tle->intl_desig + 2);
+  while ( n > 0 && desig[n - 1] == ' ' )
+	desig[--n] = '\0';
+}
+
+/* If a designator is the one requested (or, for a partial request, begins with it) */
+static inline bool match_intl_desig(const char *desig, const char *requested)
+{
+  size_t n = strlen(requested);
+
+  if ( n == 0 || strncmp(desig, requested, n) )
+	return(false);
+  return( !(isalpha((unsigned char)requested[n - 1]) && isalpha((unsigned char)desig[n])) );
+}
+
 #endif
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index f4fada9..2bb107a 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -378,7 +378,8 @@ int main(int argc, char **argv)
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0, delta_t;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
-	 len_intl_desig = 0, len_satname = 0;
+	 len_satname = 0;
+  long norad_n;
   bool in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
@@ -503,7 +504,6 @@ int main(int argc, char **argv)
 		break;
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
@@ -566,7 +566,14 @@ int main(int argc, char **argv)
 		}
 		break;
           case 's':
-		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		if ( *endptr != 0 || norad_n <= 0 || norad_n > INT_MAX )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid NORAD number '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
+		p.norad_n = norad_n;
 		p.single_sat_n = true;
 		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
@@ -615,7 +622,7 @@ int main(int argc, char **argv)
  
   const short fname_len = PATH_MAX;
   char *s, row[fname_len], norad_name[7], tle_list_file[PATH_MAX];
-  FILE *lisfile, *ifile;
+  FILE *lisfile = NULL, *ifile;
 
   open_json();
 
@@ -795,27 +802,20 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("\Satname:->%s\n", sat_name);
 //printf("NORAD:->%s\n", norad_name);
 
-	 char intl_desig[12] = {"none"};
+	 char intl_desig[12];
+	 get_intl_desig(intl_desig, &tle);
+/* Single satellite requested? */
 	 if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
-			single_sat_found = true;
+		if ( tle.norad_number != p.norad_n )
+		continue;
 	 } else if ( p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
-			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
-
-		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
-		  single_sat_found = true;
+		if ( !match_intl_desig(intl_desig, p.intl_desig) )
+		continue;
 	} else if ( p.satname_filter ) {
 		if ( strncmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
-/* Single satellite requested? */
-	if ( single_sat && !single_sat_found )
-		continue;
 /* Add a , to make it unique, and skip any previously met satellite */
 	strcat(norad_name, ",");
 	if ( (s = strstr(sbuff, norad_name)) != NULL ) {
@@ -934,13 +934,6 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
 
-	  if ( !p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
-			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
-	  }
-
 	  d_ra = (ra1 - ra + TWOPI);
 	  if ( d_ra > PI )
 		d_ra -= TWOPI;
@@ -981,10 +974,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Speed is displayed in arcminutes/second (== degrees/minute) */
 	  }
 	  n_sats_found++;
+	  n_sats = n_sats_found;  /* This is TODO using HEALPix IDs */
 
 	  if ( is_sunlit )
 		n_sunlit_sats++;
 
+	  single_sat_found = single_sat;
 	  if ( single_sat_found || n_sats_found == p.max_sats ) {
 		fclose(ifile);
 		goto end_checking;
@@ -1009,11 +1004,6 @@ end_checking:
   if ( input_list )
 	fclose(lisfile);
 
-  if ( single_sat_found )
-	n_sats = 1;
-  else
-	n_sats = n_sats_found;  /* This is TODO using HEALPix IDs */
-
   free(sbuff);
 
 /* For single satellite request report failure but do not rise an error flag */
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 4ba54e5..2376e9d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -567,8 +567,8 @@ int main(int argc, char **argv)
 	sat_name[25], tle_path_file[PATH_MAX], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad, delta_t;
-  int i, par_pos, status = 0, n_sats_found = 0,
-	 len_intl_desig = 0;
+  int i, par_pos, status = 0, n_sats_found = 0;
+  long norad_n;
   bool in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -661,7 +661,6 @@ int main(int argc, char **argv)
 		break;
           case 'i':
 		p.intl_desig = argv[i] + par_pos;
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		break;
@@ -709,7 +708,14 @@ int main(int argc, char **argv)
 		}
 		break;
           case 's':
-		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		norad_n = strtol(argv[i] + par_pos, &endptr, 10);
+		if ( *endptr != 0 || norad_n <= 0 || norad_n > INT_MAX )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Invalid NORAD number '%s'", argv[i] + par_pos);
+  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
+		p.norad_n = norad_n;
 		p.single_sat_n = true;
 		p.altrng_requested = false;  // No altitude filter
 		break;
@@ -749,8 +755,8 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = PATH_MAX;
-  char row[fname_len], norad_name[7], tle_list_file[PATH_MAX];
-  FILE *lisfile, *ifile = NULL;
+  char row[fname_len], tle_list_file[PATH_MAX];
+  FILE *lisfile = NULL, *ifile = NULL;
 
   open_json();
 
@@ -781,7 +787,7 @@ int main(int argc, char **argv)
   char *tle_file_name;
   bool single_sat_found = false, read_tle_list = true;
 
-  char intl_desig[12] = {"none"};
+  char intl_desig[12];
 
 /* Loop on list of tle files or simple open of single input file */
   while ( read_tle_list ) {
@@ -834,23 +840,11 @@ int main(int argc, char **argv)
     while ( read_line(line2, sizeof(line2), ifile) ) {
 
       if ( !parse_elements(line1, line2, &tle) ) { /* TLE found */
-/* First check if we have processed this sat already */
-	strncpy(norad_name, line1+2, 5);  /* this is tle.norad_number */
-	norad_name[5] = '\0';
-
-	if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
-			single_sat_found = true;
-	} else if ( p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
-			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
-
-		if ( !strncmp(intl_desig, p.intl_desig, len_intl_desig) )
-		  single_sat_found = true;
-	}
+	get_intl_desig(intl_desig, &tle);
+	if ( p.single_sat_n )
+		single_sat_found = (tle.norad_number == p.norad_n);
+	else
+		single_sat_found = match_intl_desig(intl_desig, p.intl_desig);
  
 	if ( single_sat_found ) {
 		break;
@@ -1020,13 +1014,6 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sunlit_start_found = true;
 	mjd_sunlit_start = t - JD_OFF;
 
-	if ( !p.single_sat_i ) {
-		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
-			(atoi(tle.intl_desig) > 57000 ? "19" : "20"),
-			tle.intl_desig, tle.intl_desig + 2);
-	}
-
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
 	get_sat_PA_and_speed(t_since);
-- 
2.43.0


From a303f1b613b5eaa049bab76a444996aaabbb02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 22/42] fix: element sets whose position cannot be computed

SGP4/SDP4 error codes were ignored: a decayed satellite was reported at the
centre of the Earth or with values of the previous one, and a NaN ended the
scan of all the others.  Scans now skip such satellites, requests for a single
one fail.  sat_visibility also checks each step and leaves a valid report.
---
 src/sat_skymap.c     | 59 ++++++++++++++++++---------
 src/sat_visibility.c | 95 ++++++++++++++++++++++++++++----------------
 2 files changed, 100 insertions(+), 54 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 2bb107a..16c00a1 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -168,6 +168,29 @@ void get_sat_name(char name[25], const char *line)
 }
 
 
+/*
+  Satellite position at a time since the epoch of its elements (minutes).
+  Return false if it can't be computed (see norad.h; an orbit within the Earth is just a warning).
+*/
+static bool sat_position(int is_deep, double t_since, const tle_t *tle, double *sat_params, double *pos)
+{
+  int err;
+
+  if ( is_deep < 0 )
+	return(false);
+
+  if ( is_deep )
+	err = SDP4(t_since, tle, sat_params, pos, NULL);
+  else
+	err = SGP4(t_since, tle, sat_params, pos, NULL);
+
+  if ( err < 0 && err != SXPX_WARN_ORBIT_WITHIN_EARTH && err != SXPX_WARN_PERIGEE_WITHIN_EARTH )
+	return(false);
+
+  return( isfinite(pos[0]) && isfinite(pos[1]) && isfinite(pos[2]) );
+}
+
+
 void Usage() {
   printf("Usage:\n  %s tle_file [OPTIONS]\n\n"
   "OPTIONS are:\n"
@@ -840,27 +863,32 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("is_deep: %d\n", is_deep);
 	double sat_params[N_SAT_PARAMS], ang_sep, ang_sep1, d_ra, d_dec,
 		ra, dec, ra1, dec1, sep_to_satellite, t_since,
-		pos[3],  /* Satellite position vector */
+		pos[3], pos1[3],  /* Satellite position vectors */
 		unused_delta2;
+	bool decoded;
 
 	t_since = (jd - tle.epoch) * 1440.;  /* From days to minutes */
 
-	if ( is_deep ) {
+	if ( is_deep > 0 )
 		SDP4_init(sat_params, &tle);
-		SDP4(t_since, &tle, sat_params, pos, NULL);
-	} else {
+	else if ( is_deep == 0 )
 		SGP4_init(sat_params, &tle);
-		SGP4(t_since, &tle, sat_params, pos, NULL);
-	}
-	get_satellite_ra_dec_delta(observer_loc, pos, &ra, &dec, &sep_to_satellite);
 
-/* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
-	if ( isnan(ra) || isnan(dec) ) {
+/* Positions at the first and second epoch (delta_time seconds later) */
+	decoded = sat_position(is_deep, t_since, &tle, sat_params, pos) &&
+		  sat_position(is_deep, t_since + p.delta_time * 1440. / SEC_IN_DAY, &tle, sat_params, pos1);
+
+/* For malformed or partial tle (e.g. Bepi-Colombo) and decayed satellites this could happen */
+	if ( !decoded ) {
+		if ( !single_sat )
+			continue;
 		snprintf(errmsg, sizeof(errmsg), "Could not decode TLE data");
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
 
+	get_satellite_ra_dec_delta(observer_loc, pos, &ra, &dec, &sep_to_satellite);
+
 /* For single satellite also report its geo Lat, Lon, Alt, theta...
    but also computed when explicitly requested by the user (and added below)
 */
@@ -875,20 +903,13 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	epoch_of_date_to_j2000(jd, &ra, &dec);  /* Approx precession. Returned RA, Dec in radians. */
 
 
-/* Compute position delta_time seconds later to
+/* Use position delta_time seconds later to
    1. check if object enters the requested region,
    2. compute speed/PA of motion (and then motion direction)
 
   Note: for geolocation only compute the reference position, not that at the second epoch
 */
-	t_since += p.delta_time * 1440. / SEC_IN_DAY;
-
-	if ( is_deep )
-		SDP4(t_since, &tle, sat_params, pos, NULL);
-	else
-		SGP4(t_since, &tle, sat_params, pos, NULL);
-
-	get_satellite_ra_dec_delta(observer_loc2, pos, &ra1, &dec1, &unused_delta2);
+	get_satellite_ra_dec_delta(observer_loc2, pos1, &ra1, &dec1, &unused_delta2);
 	epoch_of_date_to_j2000(jd, &ra1, &dec1);
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
@@ -929,7 +950,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  double speed, posn_ang_of_motion, eray[2];
 
 /* If satellite is in Sun light (this is preliminary. TODO to account for Sun angular size) */
-	  is_sunlit = ! intersect_satsun_sphere(pos, sun.d_km, eray);
+	  is_sunlit = ! intersect_satsun_sphere(pos1, sun.d_km, eray);
 //printf("\n\n%s to Sun ray intersect Earth at %lf  %lf\n\n", sat_name, eray[0], eray[1]);
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 2376e9d..522b5da 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -403,8 +403,13 @@ void add_sundata_json(char *label) {
     sun.ra, sun.dec, sun.az, sun.alt, sun.lon, sun.parang, sun.ang_sep);
 }
 
+/* If the satellite object has been opened */
+static bool sat_opened = false;
+
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
   int iarg = 1;
+  if ( sat_opened )
+	printf("\"incomplete\": true}, ");
   printf("\"run_command\": \"%s", progname);
   if ( input_list ) {
 	printf (" @");
@@ -421,6 +426,12 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
   printf("\", \"n_sats_found\": %d}\n", n_sats_found);
 }
 
+/* For malformed or partial tle and decayed satellites */
+void close_undecoded(int argc, char **argv, bool input_list, int n_sats_found) {
+  close_stat_json(argc, argv, input_list, 2, "Could not decode TLE data", n_sats_found);
+  exit(1);
+}
+
 
 /*
   Compute intesection points distance on Earth of the Satellite --> Sun connecting line.
@@ -532,17 +543,36 @@ void get_sun_data(double t, double target_ra_rad, double target_dec_rad, bool ge
 }
 
 
+/*
+  Satellite position at a time since the epoch of its elements (minutes).
+  Return false if it can't be computed (see norad.h; an orbit within the Earth is just a warning).
+*/
+
+bool sat_position(double t_since, double *pos) {
+  int err;
+
+  if ( sat.is_deep ) {
+	SDP4_init(sat_params, &tle);
+	err = SDP4(t_since, &tle, sat_params, pos, NULL);
+  } else {
+	SGP4_init(sat_params, &tle);
+	err = SGP4(t_since, &tle, sat_params, pos, NULL);
+  }
+
+  if ( err < 0 && err != SXPX_WARN_ORBIT_WITHIN_EARTH && err != SXPX_WARN_PERIGEE_WITHIN_EARTH )
+	return(false);
+
+  return( isfinite(pos[0]) && isfinite(pos[1]) && isfinite(pos[2]) );
+}
+
+
 /* Compute posn_ang_of_motion and speed given initial coords and a time > t_initial */
 
-void get_sat_PA_and_speed(double t_since) {
+bool get_sat_PA_and_speed(double t_since) {
 	double pos[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
-	if ( sat.is_deep ) {
-	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
-	} else {
-	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
-	}
+	if ( !sat_position(t_since, pos) )
+	  return(false);
+
 	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
@@ -555,6 +585,8 @@ void get_sat_PA_and_speed(double t_since) {
 	if ( sat.parang < 0. )
 		sat.parang += TWOPI;
 	sat.speed = skysep_h(sat.ra, sat.dec, ra1, dec1) * 60 / p.delta_time;  /* arcminutes/second */
+
+	return(true);
 }
 
 
@@ -880,7 +912,9 @@ int main(int argc, char **argv)
   }
 
 
-   sat.is_deep = select_ephemeris(&tle);
+   int is_deep = select_ephemeris(&tle);
+   bool decoded = (is_deep >= 0);
+   sat.is_deep = (is_deep > 0);
 
   double t_since, t_min_ang_dist = 0, min_ang_sep = 181, parang_sat,
 	mjd_sunlit_start = 0, mjd_sunlit_mid = 0, mjd_sunlit_end = 0,
@@ -918,7 +952,7 @@ int main(int argc, char **argv)
     }
   }
 
-  while (t <= jd[1]) {  // Final t is approx
+  while (decoded && t <= jd[1]) {  // Final t is approx
 
 /* Local Mean Sidereal Time & GMST */
     p.lmst = lmst_hr(t, p.lon, &p.gmst);
@@ -929,13 +963,8 @@ int main(int argc, char **argv)
 
     t_since = (t - tle.epoch) * 1440.;  /* From days to minutes */
 
-    if ( sat.is_deep ) {
-	SDP4_init(sat_params, &tle);
-	SDP4(t_since, &tle, sat_params, pos, NULL);
-    } else {
-	SGP4_init(sat_params, &tle);
-	SGP4(t_since, &tle, sat_params, pos, NULL);
-    }
+    if ( !(decoded = sat_position(t_since, pos)) )
+	break;
 
     if ( p.altrng_requested ) {
 	sat_geoLocation(pos);
@@ -957,7 +986,8 @@ int main(int argc, char **argv)
 /* Compute initial speed to be used to accelerate visibility search (TODO) */
     if ( is_t_start ) {
 	is_t_start = false;
-	get_sat_PA_and_speed(t_since);
+	if ( !(decoded = get_sat_PA_and_speed(t_since)) )
+	  break;
     }
 
 /*
@@ -1016,10 +1046,12 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
-	get_sat_PA_and_speed(t_since);
+	if ( !(decoded = get_sat_PA_and_speed(t_since)) )
+	  break;
 
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
+	sat_opened = true;
 	printf("{\"name\": \"");
 	print_json_str(sat_name);
 	printf("\", \"intl_desig\": \"");
@@ -1041,6 +1073,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
   }  // end time loop
 
+  if ( !decoded )
+	close_undecoded(argc, argv, input_list, n_sats_found);
 
   t -= p.delta_time / SEC_IN_DAY;
 
@@ -1068,14 +1102,9 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	target_ra_rad = p.lmst / RAD2HRS;
 
 	t_since = (t - tle.epoch) * 1440.;
-	
-	if ( sat.is_deep ) {
-	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
-	} else {
-	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
-	}
+
+	if ( !sat_position(t_since, pos) )
+	  close_undecoded(argc, argv, input_list, n_sats_found);
 
 	sat_geoLocation(pos);
 
@@ -1104,14 +1133,9 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	target_ra_rad = p.lmst / RAD2HRS;
 
 	t_since = (t - tle.epoch) * 1440.;
-	
-	if ( sat.is_deep ) {
-	  SDP4_init(sat_params, &tle);
-	  SDP4(t_since, &tle, sat_params, pos, NULL);
-	} else {
-	  SGP4_init(sat_params, &tle);
-	  SGP4(t_since, &tle, sat_params, pos, NULL);
-	}
+
+	if ( !sat_position(t_since, pos) )
+	  close_undecoded(argc, argv, input_list, n_sats_found);
 
 	sat_geoLocation(pos);
 
@@ -1134,6 +1158,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 
   if ( n_sats_found > 0 ) {
+	sat_opened = false;
 	printf("},"
 	" \"sunlit_duration_minutes\": %.2f, ", (float)(mjd_sunlit_end - mjd_sunlit_start)*1440.);
   } else {
-- 
2.43.0


From 450699feda0f8423bd6a2368c4053e235c275954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 23/42] fix: sat_visibility: dates and MJDs of the visibility
 window

sat_mid and sat_max carried the MJD of sat_end; the window used for the
duration and the mid time was one time step late at its start (and at its end
only if the satellite entered the Earth shadow), with negative durations.
---
 src/sat_visibility.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 522b5da..8fabda9 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -591,6 +591,17 @@ bool get_sat_PA_and_speed(double t_since) {
 
 
 
+/* Date of the current satellite data */
+
+void set_sat_date(double mjd) {
+  char *date = mjd2date(mjd);
+
+  sat.cur_mjd = mjd;
+  snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", date ? date : "");
+}
+
+
+
 /* -- Main -- */
 
 int main(int argc, char **argv)
@@ -1025,12 +1036,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite no longer sunlit */
 	if ( !sunlit_end_found ) {
 	  sunlit_end_found = true;
-	  mjd_sunlit_end = t - JD_OFF;
+	  mjd_sunlit_end = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 	  sat_geoLocation(pos);
 	  add_satlatlon_json("geoloc_end");
 	  add_sundata_json("sun_end");
-	  sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
-	  strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	  set_sat_date(mjd_sunlit_end);
 	  sat.ha = p.lmst - sat.ra * RAD2HRS;
 	  dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	  epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1042,7 +1052,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite is sunlit */
     if ( !sunlit_start_found ) {
 	sunlit_start_found = true;
-	mjd_sunlit_start = t - JD_OFF;
+	mjd_sunlit_start = t - JD_OFF - p.delta_time / SEC_IN_DAY;
 
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
 
@@ -1061,8 +1071,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
 	add_sundata_json("sun_start");
-	sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
-	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	set_sat_date(mjd_sunlit_start);
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1084,8 +1093,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
-	sat.cur_mjd = mjd_sunlit_end;
-	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	set_sat_date(mjd_sunlit_end);
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1117,7 +1125,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_mid");
 	add_sundata_json("sun_mid");
-	strcpy(sat.cur_date, mjd2date(mjd_sunlit_mid));
+	set_sat_date(mjd_sunlit_mid);
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1148,7 +1156,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_max");
 	add_sundata_json("sun_max");
-	strcpy(sat.cur_date, mjd2date(t - JD_OFF));
+	set_sat_date(t - JD_OFF);
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-- 
2.43.0


From 918df1cff2c8f16d65343e58d97af066aff073de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 24/42] fix: run_command: report the list also if it is the
 last argument

It printed the first argument twice (the wrong file name), one option lost.
---
 src/sat_skymap.c     | 60 ++++++++++++++++++----------------------
 src/sat_visibility.c | 65 ++++++++++++++++++++------------------------
 2 files changed, 55 insertions(+), 70 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 16c00a1..0d96c67 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -272,18 +272,11 @@ void add_satlatlon_json(Geoloc geo) {
 /* If the array of satellites has been opened */
 static bool sats_opened = false;
 
-void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
-  int iarg = 1;
+void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
   if ( sats_opened )
 	printf("],");
   printf(" \"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @");
-	print_json_str(argv[1]);
-	iarg++;
-  }
-
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	printf (" ");
 	print_json_str(argv[i]);
   }
@@ -413,7 +406,7 @@ int main(int argc, char **argv)
   if ( argc < 2 ) {
 	open_json();
 	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
- 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+ 	close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(0);
   }
 
@@ -465,7 +458,7 @@ int main(int argc, char **argv)
 		  if ( i == argc && !strchr("hEGHITV", opt) ) {
 			open_json();
 			snprintf(errmsg, sizeof(errmsg), "Missing value for command-line option '%s'", option);
-			close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+			close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 			exit(-2);
 		  }
 		}
@@ -517,7 +510,7 @@ int main(int argc, char **argv)
 		if ( date2mjd_nf(p.date, &p.mjd) != 0 || mjd2date(p.mjd) == NULL )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid date '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		break;
@@ -536,7 +529,7 @@ int main(int argc, char **argv)
 		if ( (date = mjd2date(p.mjd)) == NULL )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid MJD '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		strcpy(p.date, date);
@@ -549,13 +542,13 @@ int main(int argc, char **argv)
 		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( !(fabs(p.lon) <= 360. && fabs(p.ht_in_meters) <= 1e9) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid geodetic site '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		in_geopos = true;
@@ -568,13 +561,13 @@ int main(int argc, char **argv)
 		if ( !(p.ra_deg >= 0. && p.ra_deg <= 360.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( !(p.de_deg >= -90. && p.de_deg <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		in_region = true;
@@ -584,7 +577,7 @@ int main(int argc, char **argv)
 		if ( !isfinite(p.search_radius) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid radius '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		break;
@@ -593,7 +586,7 @@ int main(int argc, char **argv)
 		if ( *endptr != 0 || norad_n <= 0 || norad_n > INT_MAX )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid NORAD number '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		p.norad_n = norad_n;
@@ -611,7 +604,7 @@ int main(int argc, char **argv)
 		if ( !(fabs(delta_t) >= 1. && fabs(delta_t) <= 1e9) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid delta time (seconds) '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		p.delta_time = delta_t;
@@ -619,7 +612,7 @@ int main(int argc, char **argv)
           default:
 		open_json();
 		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", option);
-  		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
 	}  // end switch
@@ -657,10 +650,9 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	//tle_list_file = ++argv[1];
-	if ( !make_path(tle_list_file, tle_path, ++argv[iarg]) || !(lisfile = fopen(tle_list_file, "rb")) ) {
+	if ( !make_path(tle_list_file, tle_path, argv[iarg] + 1) || !(lisfile = fopen(tle_list_file, "rb")) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
-  		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
   }
@@ -679,13 +671,13 @@ int main(int argc, char **argv)
 
   if ( (sbuff = (char *)malloc(max_satbuff)) == NULL ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
-  	close_stat_json(argc, argv, input_list, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  	close_stat_json(argc, argv, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(3);
   }
 
   sbuff[0] = '\0';
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
@@ -778,7 +770,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	if ( fgets(row, fname_len, lisfile) == NULL ) {
 	  if ( ferror(lisfile) ) {
 		snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_list_file);
-		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	  }
 	  break;
@@ -787,7 +779,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  continue;
 	if ( strlen(row) == (size_t)fname_len - 1 ) {
 	  snprintf(errmsg, sizeof(errmsg), "Line too long in input file %s", tle_list_file);
-	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	  close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	  exit(2);
 	}
 	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
@@ -801,14 +793,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
  
     if ( !path_ok || !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
 
 
     if ( !read_line(line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	close_stat_json(argc, argv, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
 
@@ -850,7 +842,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
 		    snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
-		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		    close_stat_json(argc, argv, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
 		}
@@ -883,7 +875,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		if ( !single_sat )
 			continue;
 		snprintf(errmsg, sizeof(errmsg), "Could not decode TLE data");
-		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
 
@@ -1014,7 +1006,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
     if ( ferror(ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+	close_stat_json(argc, argv, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
     fclose(ifile);
@@ -1031,7 +1023,7 @@ end_checking:
   if ( single_sat && !single_sat_found )
 	snprintf(errmsg, sizeof(errmsg), "Requested satellite not found in TLE file");
 
-  close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+  close_stat_json(argc, argv, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 
   return(0);
 }
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 8fabda9..be86726 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -406,18 +406,11 @@ void add_sundata_json(char *label) {
 /* If the satellite object has been opened */
 static bool sat_opened = false;
 
-void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
-  int iarg = 1;
+void close_stat_json(int argc, char **argv, int status, char *errmsg, int n_sats_found) {
   if ( sat_opened )
 	printf("\"incomplete\": true}, ");
   printf("\"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @");
-	print_json_str(argv[1]);
-	iarg++;
-  }
-
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	printf (" ");
 	print_json_str(argv[i]);
   }
@@ -427,8 +420,8 @@ void close_stat_json(int argc, char **argv, bool input_list, int status, char *e
 }
 
 /* For malformed or partial tle and decayed satellites */
-void close_undecoded(int argc, char **argv, bool input_list, int n_sats_found) {
-  close_stat_json(argc, argv, input_list, 2, "Could not decode TLE data", n_sats_found);
+void close_undecoded(int argc, char **argv, int n_sats_found) {
+  close_stat_json(argc, argv, 2, "Could not decode TLE data", n_sats_found);
   exit(1);
 }
 
@@ -621,7 +614,7 @@ int main(int argc, char **argv)
   if ( argc < 2 ) {
 	open_json();
 	snprintf(errmsg, sizeof(errmsg), "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
- 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
+ 	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(0);
   }
 
@@ -655,7 +648,7 @@ int main(int argc, char **argv)
 		  if ( i == argc && !strchr("hNT", opt) ) {
 			open_json();
 			snprintf(errmsg, sizeof(errmsg), "Missing value for command-line option '%s'", option);
-			close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+			close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 			exit(-2);
 		  }
 		}
@@ -694,7 +687,7 @@ int main(int argc, char **argv)
 		     date2mjd_nf(p.date[1], &p.mjd[1]) != 0 || mjd2date(p.mjd[1]) == NULL )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid date range '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		break;
@@ -716,7 +709,7 @@ int main(int argc, char **argv)
 		     mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid MJD range '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
@@ -730,13 +723,13 @@ int main(int argc, char **argv)
 		if ( !(p.lat >= -90. && p.lat <= 90.) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		if ( !(fabs(p.lon) <= 360. && fabs(p.ht_in_meters) <= 1e9) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid geodetic site '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		in_geopos = true;
@@ -746,7 +739,7 @@ int main(int argc, char **argv)
 		if ( !isfinite(p.search_radius) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid radius '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		break;
@@ -755,7 +748,7 @@ int main(int argc, char **argv)
 		if ( *endptr != 0 || norad_n <= 0 || norad_n > INT_MAX )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid NORAD number '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		p.norad_n = norad_n;
@@ -767,7 +760,7 @@ int main(int argc, char **argv)
 		if ( !(delta_t >= 1. && fabs(delta_t) <= 1e9) )  {
 		  open_json();
 		  snprintf(errmsg, sizeof(errmsg), "Invalid delta time (seconds) '%s'", argv[i] + par_pos);
-  		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+  		  close_stat_json(argc, argv, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		p.delta_time = delta_t;
@@ -775,7 +768,7 @@ int main(int argc, char **argv)
           default:
 		open_json();
 		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '%s'", option);
-  		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+  		close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
 	}  // end switch
@@ -811,18 +804,18 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	if ( !make_path(tle_list_file, tle_path, ++argv[iarg]) || !(lisfile = fopen(tle_list_file, "rb")) ) {
+	if ( !make_path(tle_list_file, tle_path, argv[iarg] + 1) || !(lisfile = fopen(tle_list_file, "rb")) ) {
 		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
-  		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  		close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 		exit(2);
 	}
   }
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
 	snprintf(errmsg, sizeof(errmsg), "Need to input a NORAD ID or an international designator.");
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
   }
 
@@ -846,7 +839,7 @@ int main(int argc, char **argv)
 	if ( fgets(row, fname_len, lisfile) == NULL ) {
 	  if ( ferror(lisfile) ) {
 		snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_list_file);
-		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+		close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 		exit(2);
 	  }
 	  break;
@@ -855,7 +848,7 @@ int main(int argc, char **argv)
 	  continue;
 	if ( strlen(row) == (size_t)fname_len - 1 ) {
 	  snprintf(errmsg, sizeof(errmsg), "Line too long in input file %s", tle_list_file);
-	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	  close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	  exit(2);
 	}
 	lastchar = tle_file_name + strlen(tle_file_name);  /* Drop linefeeds, CR, ... */
@@ -868,13 +861,13 @@ int main(int argc, char **argv)
  
     if ( !path_ok || !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
-  	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+  	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !read_line(line1, sizeof(line1), ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+	close_stat_json(argc, argv, -2, errmsg, n_sats_found);
 	exit(-2);
     }
 
@@ -904,7 +897,7 @@ int main(int argc, char **argv)
 
     if ( ferror(ifile) ) {
 	snprintf(errmsg, sizeof(errmsg), "Error reading input file %s", tle_path_file);
-	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	exit(2);
     }
     fclose(ifile);
@@ -918,7 +911,7 @@ int main(int argc, char **argv)
 
   if ( !single_sat_found ) {
 	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", input_list ? tle_list_file : tle_path_file);
-	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
+	close_stat_json(argc, argv, 1, errmsg, n_sats_found);
 	exit(1);
   }
 
@@ -983,7 +976,7 @@ int main(int argc, char **argv)
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
 	  snprintf(errmsg, sizeof(errmsg), "Satellite altitude out of requested range");
-	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
+	  close_stat_json(argc, argv, 2, errmsg, n_sats_found);
 	  exit(1);
 	}
     }
@@ -1083,7 +1076,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
   }  // end time loop
 
   if ( !decoded )
-	close_undecoded(argc, argv, input_list, n_sats_found);
+	close_undecoded(argc, argv, n_sats_found);
 
   t -= p.delta_time / SEC_IN_DAY;
 
@@ -1112,7 +1105,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	t_since = (t - tle.epoch) * 1440.;
 
 	if ( !sat_position(t_since, pos) )
-	  close_undecoded(argc, argv, input_list, n_sats_found);
+	  close_undecoded(argc, argv, n_sats_found);
 
 	sat_geoLocation(pos);
 
@@ -1143,7 +1136,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	t_since = (t - tle.epoch) * 1440.;
 
 	if ( !sat_position(t_since, pos) )
-	  close_undecoded(argc, argv, input_list, n_sats_found);
+	  close_undecoded(argc, argv, n_sats_found);
 
 	sat_geoLocation(pos);
 
@@ -1177,7 +1170,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
   }
 
 
-  close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found);
+  close_stat_json(argc, argv, status, errmsg, n_sats_found);
 
   return(0);
 }
-- 
2.43.0


From 91d1f503fe40e8a5c283ff4ebe613f379b460ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 25/42] fix: library: no state shared between threads or calls

The lunar/solar position and earthtilt caches (the second one also returned
values of a previous date) and the buffers of mjd2date were static.
---
 src/earthtilt.c |  7 +------
 src/mjd2date.c  |  4 ++--
 src/sdp4.c      | 20 +-------------------
 3 files changed, 4 insertions(+), 27 deletions(-)

diff --git a/src/earthtilt.c b/src/earthtilt.c
index f929651..c5f6236 100644
--- a/src/earthtilt.c
+++ b/src/earthtilt.c
@@ -302,10 +302,8 @@ double *deps)
 {
    double t;
 
-   static double tjd_last = 0.0,d_psi,d_eps,mean_obliq,true_obliq,eq_eq;
+   double d_psi,d_eps,mean_obliq,true_obliq,eq_eq;
 
-   if (fabs (tjd - tjd_last) > 1.0e-2)
-   {
       t = (tjd - J2000) / 36525.0;
 
 /*
@@ -340,9 +338,6 @@ double *deps)
       mean_obliq /= 3600.0;
       true_obliq /= 3600.0;
 
-      tjd_last = tjd;
-   }
-
    *dpsi = d_psi;
    *deps = d_eps;
    *eq = eq_eq;
diff --git a/src/mjd2date.c b/src/mjd2date.c
index 731770b..fbf61bc 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -22,7 +22,7 @@ static  const double HALF_S_IN_DAYS = 0.000005787037037037037e0;
 /* No fractional seconds */
 char *mjd2date(double mjd)
 { 
-  static char date[20];
+  static _Thread_local char date[20];
   int iy, im, id, h, mm, s;
   long jd, l, n, i, k;
   double dj, d1, d2, f1, f2, f, d;
@@ -77,7 +77,7 @@ char *mjd2date(double mjd)
 /* With fractional seconds (millisec) */
 char *mjd2datef(double mjd)
 { 
-  static char date[24];
+  static _Thread_local char date[24];
   int iy, im, id, h, mm, s, fs;
   long jd, l, n, i, k;
   double dj, d1, d2, f1, f2, f, d;
diff --git a/src/sdp4.c b/src/sdp4.c
index 505b4bf..dfb9501 100644
--- a/src/sdp4.c
+++ b/src/sdp4.c
@@ -86,24 +86,6 @@ static void lunar_solar_position( const double jd, double *lunar_xyzr, double *s
    *solar_xyzr++ = solar_r;
 }
 
-static void cached_lunar_solar_position( const double jd,
-                    double *lunar_xyzr, double *solar_xyzr)
-{
-   static double curr_jd = 0., lunar[4], solar[4];
-   size_t i;
-
-   if( curr_jd != jd)
-      {
-      curr_jd = jd;
-      lunar_solar_position( jd, lunar, solar);
-      }
-   for( i = 0; i < 4; i++)
-      {
-      lunar_xyzr[i] = lunar[i];
-      solar_xyzr[i] = solar[i];
-      }
-}
-
 static const double sin_obliq_2000 = 0.397777155931913701597179975942380896684;
 static const double cos_obliq_2000 = 0.917482062069181825744000384639406458043;
 
@@ -188,7 +170,7 @@ static int calc_accel( const double jd, const double *pos, double *accel)
 
    for( i = 0; i < 3; i++)
       accel[i] = accel_factor * pos[i];
-   cached_lunar_solar_position( jd, lunar_xyzr, solar_xyzr);
+   lunar_solar_position( jd, lunar_xyzr, solar_xyzr);
    for( obj_idx = 0; obj_idx < 2; obj_idx++)
       {
       double *opos = (obj_idx ? lunar_xyzr : solar_xyzr);
-- 
2.43.0


From 0a6690df6ab0429f60651c762ef72702df6681ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 26/42] fix: scripts: work only in the given TLE directory

cd was neither quoted nor checked (files were then overwritten or removed in
the current directory), relative directories did not find the long range
ephemeris files, and tle_satcount.sh was always run on the default directory.
---
 scripts/tle_retrieve.sh | 19 ++++++++++++-------
 scripts/tle_satcount.sh |  9 +++++++--
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 6ad85f5..6b66aac 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -39,8 +39,13 @@ else
 	OUTDIR=$1
 fi
 
-# Goto destination directory
-cd $OUTDIR
+# Goto destination directory ("./" keeps any name relative to the current one)
+case "$OUTDIR" in
+	"") echo Empty TLE directory name. >&2; exit 1;;
+	/*) ;;
+	*) OUTDIR="./$OUTDIR";;
+esac
+cd "$OUTDIR" || exit 1
 
 # List of most relevant TLE files
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other )
@@ -146,7 +151,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
 
 
 # Add Gaia TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 13074a25.tle)
-  if [ ! -f $OUTDIR/gaia_2025.txt ]; then
+  if [ ! -f gaia_2025.txt ]; then
 	echo To have Gaia TLEs move gaia_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -155,7 +160,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add James Webb TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 21130a25.tle)
-  if [ ! -f $OUTDIR/jwt_2025.txt ]; then
+  if [ ! -f jwt_2025.txt ]; then
 	echo To have JWT TLEs move jwt_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -164,7 +169,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add EUCLID TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 23092a25.tle)
-  if [ ! -f $OUTDIR/euclid_2025.txt ]; then
+  if [ ! -f euclid_2025.txt ]; then
 	echo To have JWT TLEs move euclid_2025.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -173,7 +178,7 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
   fi
 
 # Add JUICE TLE from 2024 list (see https://github.com/Bill-Gray/tles/ => 23053a.tle - 2025 not present)
-  if [ ! -f $OUTDIR/juice_2024.txt ]; then
+  if [ ! -f juice_2024.txt ]; then
 	echo To have JUICE TLEs move juice_2024.txt from the scripts to the TLE dir.
   else
 # Use approx int MJD. See also the C code in src directory.
@@ -185,6 +190,6 @@ awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.tx
 #
 # Produce the updated list of number of sats in the TLE file. Comment out if not needed.
 #
-$BINDIR/tle_satcount.sh
+$BINDIR/tle_satcount.sh "$(pwd)"
 
 date | tee -a $LOGFILE
diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index 3ac284c..53ed859 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -26,8 +26,13 @@ else
 	TLEDIR=$1
 fi
 
-# Goto TLE dir
-cd $TLEDIR
+# Goto TLE dir ("./" keeps any name relative to the current one)
+case "$TLEDIR" in
+	"") echo Empty TLE directory name. >&2; exit 1;;
+	/*) ;;
+	*) TLEDIR="./$TLEDIR";;
+esac
+cd "$TLEDIR" || exit 1
 
 # Remove old log files (if they exist)
 rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD
-- 
2.43.0


From cee4d8765f157adf608bee76c941329335a96997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 27/42] fix: tle_retrieve.sh: replace a file only after a
 complete transfer

An interrupted transfer with code 200 replaced the file, a transfer without a
body stored the body of another file, and a gps.txt left by an interrupted run
replaced a newer gps-ops.txt.
---
 scripts/tle_retrieve.sh | 68 +++++++++++++----------------------------
 1 file changed, 21 insertions(+), 47 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 6b66aac..254c1f0 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -50,20 +50,24 @@ cd "$OUTDIR" || exit 1
 # List of most relevant TLE files
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other )
 
+# Retrieve a file: replace the present one only after a complete and successful transfer
+retrieve() {
+	rm -f $TMPFILE
+	if [ "`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$1" || echo ' failed'`" = 200 ] && mv $TMPFILE $2; then
+		echo retrieved. | tee -a $LOGFILE
+	else
+		echo retrieval failed. | tee -a $LOGFILE
+	fi
+	rm -f $TMPFILE
+}
+
 date | tee $LOGFILE
 
 for TLE_NAME in "${tlesmain[@]}"
 do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
-	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$URL$TLE_NAME"` -eq 200 ]; then  # Check for success code
-		mv $TMPFILE $TLE
-		echo retrieved. | tee -a $LOGFILE
-	else
-		echo retrieval failed. | tee -a $LOGFILE
-	fi
-
+	retrieve "$URL$TLE_NAME" $TLE_NAME".txt"
 done
 
 # Supplemental TLE files (see https://celestrak.com/NORAD/elements/supplemental/).
@@ -83,27 +87,14 @@ for TLE_NAME in "${tlessupp[@]}"
 do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
-	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME $URLSUPP$TLE_NAME` -eq 200 ]; then
-		if [ $TLE_NAME = iridium ]; then
-			mv $TMPFILE iridium-NEXT.txt
-		else
-			mv $TMPFILE $TLE
-		fi
-
-		echo retrieved. | tee -a $LOGFILE
-	else
-		echo Retrieval failed. | tee -a $LOGFILE
-	fi
-
+	case $TLE_NAME in
+		iridium) TLE=iridium-NEXT.txt;;
+		gps) TLE=gps-ops.txt;;  # gps file name mismatch
+		*) TLE=$TLE_NAME".txt";;
+	esac
+	retrieve "$URLSUPP$TLE_NAME" $TLE
 done
 
-# Patch for gps file name mismatch
-if [ -f gps.txt ]; then
-	mv gps.txt gps-ops.txt
-fi
-
-
 
 # List of Debris TLE files
 tlesdeb=( 1982-092 1999-025 iridium-33-debris cosmos-2251-debris )  # 2019-006 replaced with 1982-092
@@ -112,34 +103,17 @@ for TLE_NAME in "${tlesdeb[@]}"
 do
 	echo -n "===> $TLE_NAME ..." | tee -a $LOGFILE
 
-	TLE=$TLE_NAME".txt"
-	if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$URL$TLE_NAME"` -eq 200 ]; then
-		mv $TMPFILE $TLE
-		echo retrieved. | tee -a $LOGFILE
-	else
-		echo Retrieval failed. | tee -a $LOGFILE
-	fi
-
+	retrieve "$URL$TLE_NAME" $TLE_NAME".txt"
 done
 
 
 # TLE files with different url/extension name (in Communications Satellites section)
   echo -n "===> SPECIAL gpz ..." | tee -a $LOGFILE
 
-  if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "${URLS}gpz"` -eq 200 ]; then
-	mv $TMPFILE gpz.txt
-	echo retrieved. | tee -a $LOGFILE
-  else
-	echo Retrieval failed. | tee -a $LOGFILE
-  fi
+  retrieve "${URLS}gpz" gpz.txt
 
   echo -n "===> SPECIAL gpz-plus ..." | tee -a $LOGFILE
-  if [ `curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "${URLS}gpz-plus"` -eq 200 ]; then
-	mv $TMPFILE gpz-plus.txt
-	echo retrieved. | tee -a $LOGFILE
-  else
-	echo Retrieval failed. | tee -a $LOGFILE
-  fi
+  retrieve "${URLS}gpz-plus" gpz-plus.txt
 
 
 #
-- 
2.43.0


From 13e60028db7c038a23e6acf986b6097124d9ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 28/42] fix: tle_retrieve.sh: replace special.txt only when it
 is complete

Also select the ephemeris by the MJD of its heading (the number could match
inside the elements) and read the date just once.
---
 scripts/tle_retrieve.sh | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 254c1f0..efd0d05 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -118,46 +118,49 @@ done
 
 #
 # Produce the TLE list file for special satellites. Comment out if not needed.
+# The present one is replaced when complete.
 #
-awk '/HST|CXO|GLAST|SWIFT|NUSTAR|AGILE|INTEGRAL|ASTROSAT|HXMT|XMM|WISE|SDO|IXPE/ { print ; for(n=0; n<2; n++) { getline ; print } }' science.txt | tr -d '\r' > special.txt
-awk '/ZARYA/ { print ; for(n=0; n<2; n++) { getline ; print } }' stations.txt | tr -d '\r' >> special.txt
-awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.txt | tr -d '\r' >> special.txt
+special_ok=yes
+awk '/HST|CXO|GLAST|SWIFT|NUSTAR|AGILE|INTEGRAL|ASTROSAT|HXMT|XMM|WISE|SDO|IXPE/ { print ; for(n=0; n<2; n++) { getline ; print } }' science.txt | tr -d '\r' > $TMPFILE || special_ok=no
+awk '/ZARYA/ { print ; for(n=0; n<2; n++) { getline ; print } }' stations.txt | tr -d '\r' >> $TMPFILE || special_ok=no
+awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.txt | tr -d '\r' >> $TMPFILE || special_ok=no
 
+# Use approx int MJD. See also the C code in src directory.
+MJD=`expr $(date +%s) / 86400 + 40588`
 
 # Add Gaia TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 13074a25.tle)
   if [ ! -f gaia_2025.txt ]; then
 	echo To have Gaia TLEs move gaia_2025.txt from the scripts to the TLE dir.
   else
-# Use approx int MJD. See also the C code in src directory.
-	MJD=`expr $(date +%s) / 86400 + 40588`
-	awk -v mjd="${MJD}" '$0 ~ mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "Gaia") > 0 ) { print "GAIA"} else { print } } }' gaia_2025.txt >> special.txt
+	awk -v mjd="${MJD}" '$2 == "MJD" && int($3) == mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "Gaia") > 0 ) { print "GAIA"} else { print } } }' gaia_2025.txt >> $TMPFILE || special_ok=no
   fi
 
 # Add James Webb TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 21130a25.tle)
   if [ ! -f jwt_2025.txt ]; then
 	echo To have JWT TLEs move jwt_2025.txt from the scripts to the TLE dir.
   else
-# Use approx int MJD. See also the C code in src directory.
-	MJD=`expr $(date +%s) / 86400 + 40588`
-	awk -v mjd="${MJD}" '$0 ~ mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "James") > 0 ) { print "JAMES WEBB"} else { print } } }' jwt_2025.txt >> special.txt
+	awk -v mjd="${MJD}" '$2 == "MJD" && int($3) == mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "James") > 0 ) { print "JAMES WEBB"} else { print } } }' jwt_2025.txt >> $TMPFILE || special_ok=no
   fi
 
 # Add EUCLID TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 23092a25.tle)
   if [ ! -f euclid_2025.txt ]; then
 	echo To have JWT TLEs move euclid_2025.txt from the scripts to the TLE dir.
   else
-# Use approx int MJD. See also the C code in src directory.
-	MJD=`expr $(date +%s) / 86400 + 40588`
-	awk -v mjd="${MJD}" '$0 ~ mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "Euclid") > 0 ) { print "EUCLID"} else { print } } }' euclid_2025.txt >> special.txt
+	awk -v mjd="${MJD}" '$2 == "MJD" && int($3) == mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "Euclid") > 0 ) { print "EUCLID"} else { print } } }' euclid_2025.txt >> $TMPFILE || special_ok=no
   fi
 
 # Add JUICE TLE from 2024 list (see https://github.com/Bill-Gray/tles/ => 23053a.tle - 2025 not present)
   if [ ! -f juice_2024.txt ]; then
 	echo To have JUICE TLEs move juice_2024.txt from the scripts to the TLE dir.
   else
-# Use approx int MJD. See also the C code in src directory.
-	MJD=`expr $(date +%s) / 86400 + 40588`
-	awk -v mjd="${MJD}" '$0 ~ mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "JUICE") > 0 ) { print "JUICE"} else { print } } }' juice_2024.txt >> special.txt
+	awk -v mjd="${MJD}" '$2 == "MJD" && int($3) == mjd { print ; for(n=0; n<3; n++) { getline ; if ( index($1, "JUICE") > 0 ) { print "JUICE"} else { print } } }' juice_2024.txt >> $TMPFILE || special_ok=no
+  fi
+
+  if [ $special_ok = yes ]; then
+	mv $TMPFILE special.txt
+  else
+	echo Could not produce special.txt. | tee -a $LOGFILE
+	rm -f $TMPFILE
   fi
 
 
-- 
2.43.0


From c3c71bce92d157e6847a588732813e6862942396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 29/42] fix: tle_satcount.sh: count the element sets of the
 present files

The IDs left by an interrupted run were added to the list, files without a
final newline were counted short.
---
 scripts/tle_satcount.sh | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/scripts/tle_satcount.sh b/scripts/tle_satcount.sh
index 53ed859..5f53a3c 100755
--- a/scripts/tle_satcount.sh
+++ b/scripts/tle_satcount.sh
@@ -35,7 +35,7 @@ esac
 cd "$TLEDIR" || exit 1
 
 # Remove old log files (if they exist)
-rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD
+rm -f $OUTFILE $OUTFILE_DEB $OUTFILE_NORAD ${OUTFILE_NORAD}_tmp
 
 # List of most relevant TLE files, excluding debris
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other gpz gpz-plus )
@@ -47,27 +47,32 @@ tlessupp=( starlink oneweb planet glonass meteosat intelsat ses telesat orbcomm
 # List of debris TLE files
 tlesdeb=( 1982-092 1999-025 iridium-33-debris cosmos-2251-debris )
 
+# Number of element sets in a file
+count_sats() {
+	[ -f $1.txt ] && awk -v name=$1 'prev ~ /^1 / && /^2 / {n++} {prev = $0} END {print name" "n+0}' $1.txt
+}
+
+# NORAD IDs in a file
+list_ids() {
+	[ -f $1.txt ] && awk 'prev ~ /^1 / && /^2 / {print substr($0, 3, 5)} {prev = $0}' $1.txt
+}
+
 for TLE_NAME in "${tlesmain[@]}"
 do
-	TLE=$TLE_NAME".txt"
-	wc -l $TLE | awk '{print substr($2, 0, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE
-
-	sed -n 3~3p $TLE | cut -d " " -f 2 >> ${OUTFILE_NORAD}_tmp
+	count_sats $TLE_NAME | tee -a $OUTFILE
+	list_ids $TLE_NAME >> ${OUTFILE_NORAD}_tmp
 done
 
 for TLE_NAME in "${tlessupp[@]}"
 do
-	TLE=$TLE_NAME".txt"
-	wc -l $TLE | awk '{print substr($2, 0, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE
-
-	sed -n 3~3p $TLE | cut -d " " -f 2 >> ${OUTFILE_NORAD}_tmp
+	count_sats $TLE_NAME | tee -a $OUTFILE
+	list_ids $TLE_NAME >> ${OUTFILE_NORAD}_tmp
 done
 
 # Debris names are all the same in a file
 for TLE_NAME in "${tlesdeb[@]}"
 do
-	TLE=$TLE_NAME".txt"
-	wc -l $TLE | awk '{print substr($2, 0, index($2, ".")-1)" "$1/3}' | tee -a $OUTFILE_DEB
+	count_sats $TLE_NAME | tee -a $OUTFILE_DEB
 done
 
 # Count "unique" NORAD IDs
-- 
2.43.0


From c81709ada0e883f0de01daaa932f40c19423dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 30/42] fix: lists name the files retrieved by tle_retrieve.sh

tle-new.txt (now last-30-days.txt) and 2019-006.txt (replaced with 1982-092)
are not retrieved: any query of the lists failed.
---
 ALL_merged.lis       | 4 ++--
 ALL_merged_nodeb.lis | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ALL_merged.lis b/ALL_merged.lis
index be89cde..b513a77 100644
--- a/ALL_merged.lis
+++ b/ALL_merged.lis
@@ -1,7 +1,7 @@
 active.txt
 visual.txt
 stations.txt
-tle-new.txt
+last-30-days.txt
 analyst.txt
 weather.txt
 noaa.txt
@@ -48,7 +48,7 @@ cubesat.txt
 other.txt
 gpz.txt
 gpz-plus.txt
-2019-006.txt
+1982-092.txt
 1999-025.txt
 iridium-33-debris.txt
 cosmos-2251-debris.txt
diff --git a/ALL_merged_nodeb.lis b/ALL_merged_nodeb.lis
index 97a7f8e..3f242b1 100644
--- a/ALL_merged_nodeb.lis
+++ b/ALL_merged_nodeb.lis
@@ -1,7 +1,7 @@
 active.txt
 visual.txt
 stations.txt
-tle-new.txt
+last-30-days.txt
 analyst.txt
 weather.txt
 noaa.txt
-- 
2.43.0


From 3e9a146a15bf57c2e7a0bbffb5f9a3ba860a1696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 31/42] fix: keep the coordinates of date when the visibility
 window starts and ends at one instant

---
 src/sat_visibility.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index be86726..ed8aa18 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1067,8 +1067,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	set_sat_date(mjd_sunlit_start);
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
+	double ra_of_date = sat.ra, dec_of_date = sat.dec;
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
 	add_satdata_json("sat_start");
+	sat.ra = ra_of_date;  /* the window could end here too */
+	sat.dec = dec_of_date;
 	  n_sats_found++;
 
     } // end if !sunlit_start_found
-- 
2.43.0


From 5dc94e2380e012abb6fca872ea5c328be48d59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:08 +0000
Subject: [PATCH 32/42] fix: altitude of a source with the observer's latitude
 as declination but away from the meridian

---
 src/dechalat2alt.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index c2cde5a..07ebad3 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -73,9 +73,6 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 	   *parang = 0.;
    }
 
-/* Altitude */
-  if ( fabs(dec - lat) < 1e-6 )
-	*alt = 90.;
-  else
-	*alt = RAD2DEG * asin(cosdec*cosha*coslat + sindec*sinlat);
+/* Altitude (rounding must not take its sine out of -1, 1) */
+  *alt = RAD2DEG * asin(fmax(-1., fmin(1., cosdec*cosha*coslat + sindec*sinlat)));
 }
-- 
2.43.0


From 29d2ccb892e6e439f89b9a400ab14880080fb183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 33/42] fix: tle_retrieve.sh: take the end of a transfer from
 its exit code

---
 scripts/tle_retrieve.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index efd0d05..556855e 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -53,7 +53,7 @@ tlesmain=( last-30-days stations visual active analyst weather noaa goes resourc
 # Retrieve a file: replace the present one only after a complete and successful transfer
 retrieve() {
 	rm -f $TMPFILE
-	if [ "`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$1" || echo ' failed'`" = 200 ] && mv $TMPFILE $2; then
+	if CODE=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$1"` && [ "$CODE" = 200 ] && mv $TMPFILE $2; then
 		echo retrieved. | tee -a $LOGFILE
 	else
 		echo retrieval failed. | tee -a $LOGFILE
-- 
2.43.0


From 6c922f0044ea36aecf846ee5ba9290b55762a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 34/42] fix: tle_retrieve.sh: keep special.txt if one of its
 parts cannot be produced

---
 scripts/tle_retrieve.sh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 556855e..16efb5a 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -121,12 +121,14 @@ done
 # The present one is replaced when complete.
 #
 special_ok=yes
-awk '/HST|CXO|GLAST|SWIFT|NUSTAR|AGILE|INTEGRAL|ASTROSAT|HXMT|XMM|WISE|SDO|IXPE/ { print ; for(n=0; n<2; n++) { getline ; print } }' science.txt | tr -d '\r' > $TMPFILE || special_ok=no
-awk '/ZARYA/ { print ; for(n=0; n<2; n++) { getline ; print } }' stations.txt | tr -d '\r' >> $TMPFILE || special_ok=no
-awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.txt | tr -d '\r' >> $TMPFILE || special_ok=no
+set -o pipefail
+: > $TMPFILE || special_ok=no
+[ ! -f science.txt ] || awk '/HST|CXO|GLAST|SWIFT|NUSTAR|AGILE|INTEGRAL|ASTROSAT|HXMT|XMM|WISE|SDO|IXPE/ { print ; for(n=0; n<2; n++) { getline ; print } }' science.txt | tr -d '\r' >> $TMPFILE || special_ok=no
+[ ! -f stations.txt ] || awk '/ZARYA/ { print ; for(n=0; n<2; n++) { getline ; print } }' stations.txt | tr -d '\r' >> $TMPFILE || special_ok=no
+[ ! -f active.txt ] || awk '/CHEOPS|TESS/ { print ; for(n=0; n<2; n++) { getline ; print } }' active.txt | tr -d '\r' >> $TMPFILE || special_ok=no
 
 # Use approx int MJD. See also the C code in src directory.
-MJD=`expr $(date +%s) / 86400 + 40588`
+MJD=`expr $(date +%s) / 86400 + 40588` || special_ok=no
 
 # Add Gaia TLE from 2025 list (see https://github.com/Bill-Gray/tles/ => 13074a25.tle)
   if [ ! -f gaia_2025.txt ]; then
-- 
2.43.0


From bf5acbbb239bc51fe86acf4a885e9b38aaf8ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 35/42] fix: read_healpix_map, get_fits_size: keep long keyword
 values inside the caller's buffers

A FITS string can have 68 characters; the buffers offered by callers (see
test_chealpix.c) have room for 10.
---
 HealpixC/chealpix.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index d6e89c0..7533852 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -938,6 +938,18 @@ static void setCoordSysHP(char coordsys,char *coordsys9)
                     " Celestial system was set.\n", __FILE__, __LINE__);
   }
 
+/* Reads a string keyword; at most 9 characters are returned, which is the room
+   callers provide. */
+static int read_key_str (fitsfile *fptr, const char *key, char *value,
+  int *status)
+  {
+  char val[FLEN_VALUE];
+  if (fits_read_key(fptr, TSTRING, key, val, NULL, status)) return *status;
+  val[9] = '\0';
+  strcpy(value,val);
+  return 0;
+  }
+
 float *read_healpix_map(const char *infile, long *nside, char *coordsys,
   char *ordering)
   {
@@ -968,13 +980,13 @@ float *read_healpix_map(const char *infile, long *nside, char *coordsys,
   npix = 12*(*nside)*(*nside);
   UTIL_ASSERT((npix%naxis[1])==0,"Problem with npix.");
 
-  if (fits_read_key(fptr, TSTRING, "COORDSYS",coordsys, NULL, &status)) {
+  if (read_key_str(fptr, "COORDSYS", coordsys, &status)) {
     fprintf(stderr, "WARNING: Could not find %s keyword in in file %s\n",
             "COORDSYS",infile);
     status = 0;
   }
 
-  if (fits_read_key(fptr, TSTRING, "ORDERING", ordering, NULL, &status)) {
+  if (read_key_str(fptr, "ORDERING", ordering, &status)) {
     fprintf(stderr, "WARNING: Could not find %s keyword in in file %s\n",
             "ORDERING",infile);
     status = 0;
@@ -1003,7 +1015,7 @@ long get_fits_size(const char *filename, long *nside, char *ordering)
   fits_open_file(&fptr, filename, READONLY, &status);
   fits_movabs_hdu(fptr, 2, &hdutype, &status); /* move to 2nd HDU */
 
-  fits_read_key(fptr, TSTRING, "ORDERING", ordering, NULL, &status);
+  read_key_str(fptr, "ORDERING", ordering, &status);
   fits_read_key(fptr, TLONG, "NSIDE", nside, NULL, &status);
   printerror(status);
 
-- 
2.43.0


From 327bd6ddcbcfa65d23971fd7b0693d5cd1885938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 36/42] fix: read_healpix_map, get_fits_size: only a missing
 keyword may be left out

A read error, a failed allocation or an unreadable value of COORDSYS, ORDERING
or OBS_NPIX was taken for a missing keyword.
---
 HealpixC/chealpix.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 7533852..1c1bd81 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -980,17 +980,19 @@ float *read_healpix_map(const char *infile, long *nside, char *coordsys,
   npix = 12*(*nside)*(*nside);
   UTIL_ASSERT((npix%naxis[1])==0,"Problem with npix.");
 
-  if (read_key_str(fptr, "COORDSYS", coordsys, &status)) {
+  if (read_key_str(fptr, "COORDSYS", coordsys, &status)==KEY_NO_EXIST) {
     fprintf(stderr, "WARNING: Could not find %s keyword in in file %s\n",
             "COORDSYS",infile);
     status = 0;
   }
+  printerror(status);
 
-  if (read_key_str(fptr, "ORDERING", ordering, &status)) {
+  if (read_key_str(fptr, "ORDERING", ordering, &status)==KEY_NO_EXIST) {
     fprintf(stderr, "WARNING: Could not find %s keyword in in file %s\n",
             "ORDERING",infile);
     status = 0;
   }
+  printerror(status);
 
   /* Read the array */
   map = RALLOC(float,npix);
@@ -1019,7 +1021,8 @@ long get_fits_size(const char *filename, long *nside, char *ordering)
   fits_read_key(fptr, TLONG, "NSIDE", nside, NULL, &status);
   printerror(status);
 
-  if (fits_read_key(fptr, TLONG, "OBS_NPIX", &obs_npix, NULL, &status)) {
+  if (fits_read_key(fptr, TLONG, "OBS_NPIX", &obs_npix, NULL, &status)
+      ==KEY_NO_EXIST) {
     obs_npix = 12 * (*nside) * (*nside);
     status = 0;
   }
-- 
2.43.0


From 7c2d27b5c946671751fecd245ceafb0d810919f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 37/42] fix: chealpix: refuse FITS maps with an invalid
 resolution or without rows

A table without rows ended read_healpix_map with a division by zero; NSIDE
values which are not positive or overflow the number of pixels were accepted.
---
 HealpixC/chealpix.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 1c1bd81..293354f 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -902,6 +902,9 @@ void ring2nest64(int64_t nside, int64_t ipring, int64_t *ipnest)
 
 #include "fitsio.h"
 
+/* largest supported resolution parameter */
+#define MAX_NSIDE (1L<<29)
+
 #define RALLOC(type,num) \
   ((type *)util_malloc_((num)*sizeof(type)))
 #define DEALLOC(ptr) \
@@ -977,8 +980,10 @@ float *read_healpix_map(const char *infile, long *nside, char *coordsys,
   fits_read_key_lng(fptr, "NSIDE", nside, NULL, &status);
   printerror(status);
 
+  UTIL_ASSERT((*nside>=1)&&(*nside<=MAX_NSIDE),"Problem with NSIDE.");
+
   npix = 12*(*nside)*(*nside);
-  UTIL_ASSERT((npix%naxis[1])==0,"Problem with npix.");
+  UTIL_ASSERT((naxes>=2)&&(naxis[1]>=1)&&(npix%naxis[1])==0,"Problem with npix.");
 
   if (read_key_str(fptr, "COORDSYS", coordsys, &status)==KEY_NO_EXIST) {
     fprintf(stderr, "WARNING: Could not find %s keyword in in file %s\n",
@@ -1020,6 +1025,7 @@ long get_fits_size(const char *filename, long *nside, char *ordering)
   read_key_str(fptr, "ORDERING", ordering, &status);
   fits_read_key(fptr, TLONG, "NSIDE", nside, NULL, &status);
   printerror(status);
+  UTIL_ASSERT((*nside>=1)&&(*nside<=MAX_NSIDE),"Problem with NSIDE.");
 
   if (fits_read_key(fptr, TLONG, "OBS_NPIX", &obs_npix, NULL, &status)
       ==KEY_NO_EXIST) {
@@ -1046,6 +1052,8 @@ void write_healpix_map (const float *signal, long nside, const char *filename,
   char *tunit[] = { " " };
   char coordsys9[9];
 
+  UTIL_ASSERT((nside>=1)&&(nside<=MAX_NSIDE),"Problem with NSIDE.");
+
   /* create new FITS file */
   fits_create_file(&fptr, filename, &status);
   fits_create_img(fptr, SHORT_IMG, 0, naxes, &status);
-- 
2.43.0


From b7ab2ef77597a6d711ba630c8d5e85d3dee7a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 38/42] fix: write_healpix_map: notice data lost in the last
 flush

cfitsio ignores a failure of the last flush before the file is closed, so that
a map could be reported as written although its end was missing (full disk).
Read the file back.
---
 HealpixC/chealpix.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index 293354f..a6091fd 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -1038,6 +1038,28 @@ long get_fits_size(const char *filename, long *nside, char *ordering)
   return obs_npix;
   }
 
+/* Checks that the values on disk are those in memory. cfitsio does not report
+   it if the last part of a file could not be written. */
+static void verify_map (const char *filename, const float *signal, long npix)
+  {
+  fitsfile *fptr;
+  int status=0, anynul;
+  long ofs, num;
+  float buf[1024];
+
+  fits_open_file(&fptr, filename, READONLY, &status);
+  fits_movabs_hdu(fptr, 2, NULL, &status);
+  for (ofs=0; (status==0)&&(ofs<npix); ofs+=num) {
+    num = (npix-ofs<1024) ? npix-ofs : 1024;
+    fits_read_col(fptr, TFLOAT, 1, ofs+1, 1, num, NULL, buf, &anynul, &status);
+    if (status==0)
+      UTIL_ASSERT(memcmp(buf,signal+ofs,num*sizeof(float))==0,
+        "values were not written correctly");
+  }
+  fits_close_file(fptr, &status);
+  printerror(status);
+  }
+
 void write_healpix_map (const float *signal, long nside, const char *filename,
   char nest, const char *coordsys)
   {
@@ -1051,6 +1073,7 @@ void write_healpix_map (const float *signal, long nside, const char *filename,
   char *tform[] = { "1E" };
   char *tunit[] = { " " };
   char coordsys9[9];
+  char urltype[FLEN_FILENAME], name[FLEN_FILENAME];
 
   UTIL_ASSERT((nside>=1)&&(nside<=MAX_NSIDE),"Problem with NSIDE.");
 
@@ -1079,8 +1102,14 @@ void write_healpix_map (const float *signal, long nside, const char *filename,
     "G = Galactic, E = ecliptic, C = celestial = equatorial", &status);
 
   fits_write_col(fptr, TFLOAT, 1, 1, 1, 12*nside*nside, (void *)signal,&status);
+  if (status==0) {
+    fits_url_type(fptr, urltype, &status);
+    fits_file_name(fptr, name, &status);
+  }
   fits_close_file(fptr, &status);
   printerror(status);
+  if (strcmp(urltype,"file://")==0)
+    verify_map(name, signal, 12*nside*nside);
   }
 
 #endif
-- 
2.43.0


From 544da23aa0ad09c80b18c4fd20820b543d7bdb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 39/42] fix: overlapping runs of tle_retrieve.sh stored one
 catalogue under the name of another

---
 scripts/tle_retrieve.sh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index 16efb5a..d665311 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -47,6 +47,11 @@ case "$OUTDIR" in
 esac
 cd "$OUTDIR" || exit 1
 
+# One run at a time in this directory (what a killed one left behind counts until it ends)
+if command -v flock > /dev/null; then
+	exec 9< . && flock -n 9 || { echo "Another run is updating $OUTDIR" >&2; exit 1; }
+fi
+
 # List of most relevant TLE files
 tlesmain=( last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other )
 
-- 
2.43.0


From 12bf26b775c9c34b268afd4290fef4ea418dcee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 40/42] fix: check a compressed HEALPix map after writing it
 too

cfitsio does not report it when the compressed copy of a map (file name
ending in .gz) could not be written at close. write_healpix_map read the
map back only for uncompressed files, so a full disk left no map behind and
was presented as success.
---
 HealpixC/chealpix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HealpixC/chealpix.c b/HealpixC/chealpix.c
index a6091fd..a8afb5f 100644
--- a/HealpixC/chealpix.c
+++ b/HealpixC/chealpix.c
@@ -1108,7 +1108,7 @@ void write_healpix_map (const float *signal, long nside, const char *filename,
   }
   fits_close_file(fptr, &status);
   printerror(status);
-  if (strcmp(urltype,"file://")==0)
+  if ((strcmp(urltype,"file://")==0)||(strcmp(urltype,"compressoutfile://")==0))
     verify_map(name, signal, 12*nside*nside);
   }
 
-- 
2.43.0


From 93e524ccda9c03cd21749c6c173dc113813d8775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 41/42] fix: store no transfer when the remains of an earlier
 one cannot be removed

A curl before 7.42 writes no file for an empty body: what an earlier,
interrupted transfer left was then stored as the catalogue.
---
 scripts/tle_retrieve.sh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/tle_retrieve.sh b/scripts/tle_retrieve.sh
index d665311..621604c 100755
--- a/scripts/tle_retrieve.sh
+++ b/scripts/tle_retrieve.sh
@@ -57,8 +57,7 @@ tlesmain=( last-30-days stations visual active analyst weather noaa goes resourc
 
 # Retrieve a file: replace the present one only after a complete and successful transfer
 retrieve() {
-	rm -f $TMPFILE
-	if CODE=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$1"` && [ "$CODE" = 200 ] && mv $TMPFILE $2; then
+	if rm -f $TMPFILE && CODE=`curl -L -s -w '%{http_code}' -o $TMPFILE --max-time $TIME "$1"` && [ "$CODE" = 200 ] && mv $TMPFILE $2; then
 		echo retrieved. | tee -a $LOGFILE
 	else
 		echo retrieval failed. | tee -a $LOGFILE
-- 
2.43.0


From 44317eb11bba35b33ca2221b328dd92a787ac1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 42/42] fix: sun_end of a satellite leaving the region was that
 of the previous step

---
 src/sat_visibility.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index ed8aa18..a7dbd0d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1086,6 +1086,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* Still sunlit at the end of the requested time range */
   if ( sunlit_start_found && !sunlit_end_found ) {
 	mjd_sunlit_end = t - JD_OFF;
+	get_sun_data(t, target_ra_rad, target_dec_rad, false);  /* the Sun of this instant too */
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
-- 
2.43.0


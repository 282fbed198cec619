From 9e03d15d915cfbe0b9f8a165483d2a5cfbad41bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 01/75] fix: release log registry entries with the installed
 allocation functions

---
 libmseed/logging.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 32b3859..764ec0f 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -492,7 +492,7 @@ add_message_int (MSLogRegistry *logreg, const char *function, int level,
         logentry->next = NULL;
 
       if (count > logreg->maxmessages)
-        free (logentry);
+        libmseed_memory.free (logentry);
 
       logentry = lognext;
     }
@@ -617,7 +617,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
     print_message_int (logp, logprint->level, message, "\n");
 
     logentry = logprint->next;
-    free (logprint);
+    libmseed_memory.free (logprint);
     logprint = logentry;
   }
 
@@ -649,7 +649,7 @@ ms_rlog_free (MSLogParam *logp)
     freed++;
 
     logp->registry.messages = logentry->next;
-    free (logentry);
+    libmseed_memory.free (logentry);
     logentry = logp->registry.messages;
   }
 
-- 
2.43.0


From e8015bff20a37a82c3d8e7d0cef42c0e5ce2e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 02/75] fix: use reentrant local time conversion in
 mstl3_printsynclist()

---
 libmseed/tracelist.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 920dede..68d4281 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2261,7 +2261,7 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   char loc[11] = {0};
   char chan[11] = {0};
   time_t now;
-  struct tm *nt;
+  struct tm nt;
 
   if (!mstl)
   {
@@ -2269,11 +2269,14 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   }
 
   /* Generate current time stamp */
+  memset (&nt, 0, sizeof (nt));
   now = time (NULL);
-  nt = localtime (&now);
-  nt->tm_year += 1900;
-  nt->tm_yday += 1;
-  snprintf (yearday, sizeof (yearday), "%04d,%03d", nt->tm_year, nt->tm_yday);
+#if defined(LMP_WIN)
+  localtime_s (&nt, &now);
+#else
+  localtime_r (&now, &nt);
+#endif
+  snprintf (yearday, sizeof (yearday), "%04d,%03d", nt.tm_year + 1900, nt.tm_yday + 1);
 
   /* Print SYNC header line */
   ms_log (0, "%s|%s\n", (dccid) ? dccid : "DCC", yearday);
-- 
2.43.0


From 644b0a93422f1c0b077d867a8919867ab63104cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:27 +0000
Subject: [PATCH 03/75] fix: size identifier code buffers in
 mstl3_printsynclist() for any source identifier

---
 libmseed/tracelist.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 68d4281..cbb68ed 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2256,10 +2256,10 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   char starttime[40];
   char endtime[40];
   char yearday[32];
-  char net[11] = {0};
-  char sta[11] = {0};
-  char loc[11] = {0};
-  char chan[11] = {0};
+  char net[LM_SIDLEN] = {0};
+  char sta[LM_SIDLEN] = {0};
+  char loc[LM_SIDLEN] = {0};
+  char chan[LM_SIDLEN] = {0};
   time_t now;
   struct tm nt;
 
-- 
2.43.0


From 9b3b91f848c072f0ec06fb0be80eb9f5687556fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 04/75] fix: ms3_detect() reads only supplied bytes and
 computes lengths without wrapping

---
 libmseed/parseutils.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 0ce29ec..40644d8 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -204,7 +204,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 3;
 
-    reclen = MS3FSDH_LENGTH                   /* Length of fixed portion of header */
+    reclen = (int64_t)MS3FSDH_LENGTH          /* Length of fixed portion of header */
              + *pMS3FSDH_SIDLENGTH (record)   /* Length of source identifier */
              + *pMS3FSDH_EXTRALENGTH (record) /* Length of extra headers */
              + *pMS3FSDH_DATALENGTH (record); /* Length of data payload */
@@ -215,6 +215,10 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 2;
 
+    /* Length cannot be determined without the complete fixed header */
+    if (recbuflen < 48)
+      return 0;
+
     /* Check to see if byte swapping is needed by checking for sane year and day */
     if (!MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR(record), *pMS2FSDH_DAY(record)))
       swapflag = 1;
@@ -224,7 +228,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
     /* Loop through blockettes as long as number is non-zero and viable */
     while (blkt_offset != 0 &&
            blkt_offset > 47 &&
-           blkt_offset <= recbuflen)
+           (uint64_t)blkt_offset + 4 <= recbuflen)
     {
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
@@ -239,6 +243,14 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
       if (blkt_type == 1000 &&
           (uint64_t)(blkt_offset + 8) <= recbuflen)
       {
+        /* Sanity check for a record length that cannot be represented */
+        if (*pMS2B1000_RECLEN (record + blkt_offset) > 31)
+        {
+          ms_log (2, "Invalid record length in blockette 1000: 2^%u\n",
+                  *pMS2B1000_RECLEN (record + blkt_offset));
+          return -1;
+        }
+
         foundlen = 1;
 
         /* Field 3 of B1000 is a uint8_t value describing the record
-- 
2.43.0


From f6edc6f220a0591fa1f39ffa755347395feecc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 05/75] fix: decoders never read past the encoded payload or
 write past the output

---
 libmseed/unpack.c     | 38 +++++++++++---------
 libmseed/unpackdata.c | 84 +++++++++++++++++++++----------------------
 libmseed/unpackdata.h | 32 ++++++++---------
 3 files changed, 79 insertions(+), 75 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 06a59aa..8bfc312 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1293,6 +1293,13 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
   if (ms_encoding_sizetype(encoding, &samplesize, sampletype))
     samplesize = 0;
 
+  /* Limit sample count to values for which the sizes can be represented */
+  if (samplecount > UINT64_MAX / sizeof (double))
+  {
+    ms_log (2, "%s: Too many samples to decode: %" PRIu64 "\n", (sid) ? sid : "", samplecount);
+    return MS_GENERROR;
+  }
+
   /* Calculate buffer size needed for unpacked samples */
   decodedsize = samplecount * samplesize;
 
@@ -1310,22 +1317,19 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     if (verbose > 1)
       ms_log (0, "%s: Decoding TEXT data\n", (sid) ? sid : "");
 
-    nsamples = (int64_t)samplecount;
-    if (nsamples > 0)
-    {
-      memcpy (output, input, nsamples);
-    }
-    else
-    {
-      nsamples = 0;
-    }
+    /* Limit to the available input and output bytes */
+    if (decodedsize > inputsize)
+      decodedsize = inputsize;
+
+    memcpy (output, input, (size_t)decodedsize);
+    nsamples = (int64_t)decodedsize;
     break;
 
   case DE_INT16:
     if (verbose > 1)
       ms_log (0, "%s: Decoding INT16 data samples\n", (sid) ? sid : "");
 
-    nsamples = msr_decode_int16 ((int16_t *)input, samplecount,
+    nsamples = msr_decode_int16 ((int16_t *)input, inputsize, samplecount,
                                  (int32_t *)output, decodedsize, swapflag);
     break;
 
@@ -1333,7 +1337,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     if (verbose > 1)
       ms_log (0, "%s: Decoding INT32 data samples\n", (sid) ? sid : "");
 
-    nsamples = msr_decode_int32 ((int32_t *)input, samplecount,
+    nsamples = msr_decode_int32 ((int32_t *)input, inputsize, samplecount,
                                  (int32_t *)output, decodedsize, swapflag);
     break;
 
@@ -1341,7 +1345,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     if (verbose > 1)
       ms_log (0, "%s: Decoding FLOAT32 data samples\n", (sid) ? sid : "");
 
-    nsamples = msr_decode_float32 ((float *)input, samplecount,
+    nsamples = msr_decode_float32 ((float *)input, inputsize, samplecount,
                                    (float *)output, decodedsize, swapflag);
     break;
 
@@ -1349,7 +1353,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     if (verbose > 1)
       ms_log (0, "%s: Decoding FLOAT64 data samples\n", (sid) ? sid : "");
 
-    nsamples = msr_decode_float64 ((double *)input, samplecount,
+    nsamples = msr_decode_float64 ((double *)input, inputsize, samplecount,
                                    (double *)output, decodedsize, swapflag);
     break;
 
@@ -1396,7 +1400,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
         ms_log (0, "%s: Decoding GEOSCOPE 16bit gain ranged/4bit exponent data samples\n", (sid) ? sid : "");
     }
 
-    nsamples = msr_decode_geoscope ((char *)input, samplecount, (float *)output,
+    nsamples = msr_decode_geoscope ((char *)input, inputsize, samplecount, (float *)output,
                                     decodedsize, encoding, (sid) ? sid : "", swapflag);
     break;
 
@@ -1404,7 +1408,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     if (verbose > 1)
       ms_log (0, "%s: Decoding CDSN encoded data samples\n", (sid) ? sid : "");
 
-    nsamples = msr_decode_cdsn ((int16_t *)input, samplecount, (int32_t *)output,
+    nsamples = msr_decode_cdsn ((int16_t *)input, inputsize, samplecount, (int32_t *)output,
                                 decodedsize, swapflag);
     break;
 
@@ -1412,7 +1416,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     if (verbose > 1)
       ms_log (0, "%s: Decoding SRO encoded data samples\n", (sid) ? sid : "");
 
-    nsamples = msr_decode_sro ((int16_t *)input, samplecount, (int32_t *)output,
+    nsamples = msr_decode_sro ((int16_t *)input, inputsize, samplecount, (int32_t *)output,
                                decodedsize, (sid) ? sid : "", swapflag);
     break;
 
@@ -1420,7 +1424,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     if (verbose > 1)
       ms_log (0, "%s: Decoding DWWSSN encoded data samples\n", (sid) ? sid : "");
 
-    nsamples = msr_decode_dwwssn ((int16_t *)input, samplecount, (int32_t *)output,
+    nsamples = msr_decode_dwwssn ((int16_t *)input, inputsize, samplecount, (int32_t *)output,
                                   decodedsize, swapflag);
     break;
 
diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index 0414b67..53c522d 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -44,11 +44,11 @@
  * Return number of samples in output buffer on success, -1 on error.
  ************************************************************************/
 int64_t
-msr_decode_int16 (int16_t *input, uint64_t samplecount, int32_t *output,
-                  uint64_t outputlength, int swapflag)
+msr_decode_int16 (int16_t *input, uint64_t inputlength, uint64_t samplecount,
+                  int32_t *output, uint64_t outputlength, int swapflag)
 {
   int16_t sample;
-  uint32_t idx;
+  uint64_t idx;
 
   if (samplecount == 0)
     return 0;
@@ -56,7 +56,7 @@ msr_decode_int16 (int16_t *input, uint64_t samplecount, int32_t *output,
   if (!input || !output || outputlength < sizeof (int32_t))
     return -1;
 
-  for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t) && inputlength >= sizeof (int16_t); idx++)
   {
     sample = input[idx];
 
@@ -66,6 +66,7 @@ msr_decode_int16 (int16_t *input, uint64_t samplecount, int32_t *output,
     output[idx] = (int32_t)sample;
 
     outputlength -= sizeof (int32_t);
+    inputlength -= sizeof (int16_t);
   }
 
   return idx;
@@ -80,11 +81,11 @@ msr_decode_int16 (int16_t *input, uint64_t samplecount, int32_t *output,
  * Return number of samples in output buffer on success, -1 on error.
  ************************************************************************/
 int64_t
-msr_decode_int32 (int32_t *input, uint64_t samplecount, int32_t *output,
-                  uint64_t outputlength, int swapflag)
+msr_decode_int32 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
+                  int32_t *output, uint64_t outputlength, int swapflag)
 {
   int32_t sample;
-  uint32_t idx;
+  uint64_t idx;
 
   if (samplecount == 0)
     return 0;
@@ -92,7 +93,7 @@ msr_decode_int32 (int32_t *input, uint64_t samplecount, int32_t *output,
   if (!input || !output || outputlength < sizeof (int32_t))
     return -1;
 
-  for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t) && inputlength >= sizeof (int32_t); idx++)
   {
     sample = input[idx];
 
@@ -102,6 +103,7 @@ msr_decode_int32 (int32_t *input, uint64_t samplecount, int32_t *output,
     output[idx] = sample;
 
     outputlength -= sizeof (int32_t);
+    inputlength -= sizeof (int32_t);
   }
 
   return idx;
@@ -116,11 +118,11 @@ msr_decode_int32 (int32_t *input, uint64_t samplecount, int32_t *output,
  * Return number of samples in output buffer on success, -1 on error.
  ************************************************************************/
 int64_t
-msr_decode_float32 (float *input, uint64_t samplecount, float *output,
-                    uint64_t outputlength, int swapflag)
+msr_decode_float32 (float *input, uint64_t inputlength, uint64_t samplecount,
+                    float *output, uint64_t outputlength, int swapflag)
 {
   float sample;
-  uint32_t idx;
+  uint64_t idx;
 
   if (samplecount == 0)
     return 0;
@@ -128,7 +130,7 @@ msr_decode_float32 (float *input, uint64_t samplecount, float *output,
   if (!input || !output || outputlength < sizeof (float))
     return -1;
 
-  for (idx = 0; idx < samplecount && outputlength >= sizeof (float); idx++)
+  for (idx = 0; idx < samplecount && outputlength >= sizeof (float) && inputlength >= sizeof (float); idx++)
   {
     memcpy (&sample, &input[idx], sizeof (float));
 
@@ -138,6 +140,7 @@ msr_decode_float32 (float *input, uint64_t samplecount, float *output,
     output[idx] = sample;
 
     outputlength -= sizeof (float);
+    inputlength -= sizeof (float);
   }
 
   return idx;
@@ -152,11 +155,11 @@ msr_decode_float32 (float *input, uint64_t samplecount, float *output,
  * Return number of samples in output buffer on success, -1 on error.
  ************************************************************************/
 int64_t
-msr_decode_float64 (double *input, uint64_t samplecount, double *output,
-                    uint64_t outputlength, int swapflag)
+msr_decode_float64 (double *input, uint64_t inputlength, uint64_t samplecount,
+                    double *output, uint64_t outputlength, int swapflag)
 {
   double sample;
-  uint32_t idx;
+  uint64_t idx;
 
   if (samplecount == 0)
     return 0;
@@ -164,7 +167,7 @@ msr_decode_float64 (double *input, uint64_t samplecount, double *output,
   if (!input || !output || outputlength < sizeof (double))
     return -1;
 
-  for (idx = 0; idx < samplecount && outputlength >= sizeof (double); idx++)
+  for (idx = 0; idx < samplecount && outputlength >= sizeof (double) && inputlength >= sizeof (double); idx++)
   {
     memcpy (&sample, &input[idx], sizeof (double));
 
@@ -174,6 +177,7 @@ msr_decode_float64 (double *input, uint64_t samplecount, double *output,
     output[idx] = sample;
 
     outputlength -= sizeof (double);
+    inputlength -= sizeof (double);
   }
 
   return idx;
@@ -616,11 +620,12 @@ msr_decode_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
  * \ref MessageOnError - this function logs a message on error
  ************************************************************************/
 int64_t
-msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
-                     uint64_t outputlength, int encoding,
+msr_decode_geoscope (char *input, uint64_t inputlength, uint64_t samplecount,
+                     float *output, uint64_t outputlength, int encoding,
                      const char *srcname, int swapflag)
 {
-  uint32_t idx = 0;
+  uint64_t idx = 0;
+  uint64_t samplebytes = (encoding == DE_GEOSCOPE24) ? 3 : 2; /* encoded sample size */
   int32_t mantissa;  /* mantissa from SEED data */
   int32_t gainrange; /* gain range factor */
   int32_t exponent;  /* total exponent */
@@ -650,7 +655,7 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
     return -1;
   }
 
-  for (idx = 0; idx < samplecount && outputlength >= sizeof (float); idx++)
+  for (idx = 0; idx < samplecount && outputlength >= sizeof (float) && inputlength >= samplebytes; idx++)
   {
     switch (encoding)
     {
@@ -712,18 +717,10 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
     /* Save sample in output array */
     output[idx] = (float)dsample;
     outputlength -= sizeof (float);
+    inputlength -= samplebytes;
 
     /* Increment edata pointer depending on size */
-    switch (encoding)
-    {
-    case DE_GEOSCOPE24:
-      input += 3;
-      break;
-    case DE_GEOSCOPE163:
-    case DE_GEOSCOPE164:
-      input += 2;
-      break;
-    }
+    input += samplebytes;
   }
 
   return idx;
@@ -772,10 +769,10 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
  * Return number of samples in output buffer on success, -1 on error.
  ************************************************************************/
 int64_t
-msr_decode_cdsn (int16_t *input, uint64_t samplecount, int32_t *output,
-                 uint64_t outputlength, int swapflag)
+msr_decode_cdsn (int16_t *input, uint64_t inputlength, uint64_t samplecount,
+                 int32_t *output, uint64_t outputlength, int swapflag)
 {
-  uint32_t idx = 0;
+  uint64_t idx = 0;
   int32_t mantissa;  /* mantissa */
   int32_t gainrange; /* gain range factor */
   int32_t mult = -1; /* multiplier for gain range */
@@ -788,7 +785,7 @@ msr_decode_cdsn (int16_t *input, uint64_t samplecount, int32_t *output,
   if (!input || !output || outputlength == 0)
     return -1;
 
-  for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t) && inputlength >= sizeof (int16_t); idx++)
   {
     memcpy (&sint, &input[idx], sizeof (int16_t));
     if (swapflag)
@@ -819,6 +816,7 @@ msr_decode_cdsn (int16_t *input, uint64_t samplecount, int32_t *output,
     /* Save sample in output array */
     output[idx] = sample;
     outputlength -= sizeof (int32_t);
+    inputlength -= sizeof (int16_t);
   }
 
   return idx;
@@ -861,10 +859,10 @@ msr_decode_cdsn (int16_t *input, uint64_t samplecount, int32_t *output,
  * Return number of samples in output buffer on success, -1 on error.
  ************************************************************************/
 int64_t
-msr_decode_sro (int16_t *input, uint64_t samplecount, int32_t *output,
-                uint64_t outputlength, const char *srcname, int swapflag)
+msr_decode_sro (int16_t *input, uint64_t inputlength, uint64_t samplecount,
+                int32_t *output, uint64_t outputlength, const char *srcname, int swapflag)
 {
-  uint32_t idx = 0;
+  uint64_t idx = 0;
   int32_t mantissa;   /* mantissa */
   int32_t gainrange;  /* gain range factor */
   int32_t add2gr;     /* added to gainrage factor */
@@ -884,7 +882,7 @@ msr_decode_sro (int16_t *input, uint64_t samplecount, int32_t *output,
   mult       = -1;
   add2result = 10;
 
-  for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t) && inputlength >= sizeof (int16_t); idx++)
   {
     memcpy (&sint, &input[idx], sizeof (int16_t));
     if (swapflag)
@@ -913,6 +911,7 @@ msr_decode_sro (int16_t *input, uint64_t samplecount, int32_t *output,
     /* Save sample in output array */
     output[idx] = sample;
     outputlength -= sizeof (int32_t);
+    inputlength -= sizeof (int16_t);
   }
 
   return idx;
@@ -927,10 +926,10 @@ msr_decode_sro (int16_t *input, uint64_t samplecount, int32_t *output,
  * Return number of samples in output buffer on success, -1 on error.
  ************************************************************************/
 int64_t
-msr_decode_dwwssn (int16_t *input, uint64_t samplecount, int32_t *output,
-                   uint64_t outputlength, int swapflag)
+msr_decode_dwwssn (int16_t *input, uint64_t inputlength, uint64_t samplecount,
+                   int32_t *output, uint64_t outputlength, int swapflag)
 {
-  uint32_t idx = 0;
+  uint64_t idx = 0;
   int32_t sample;
   uint16_t sint;
 
@@ -940,7 +939,7 @@ msr_decode_dwwssn (int16_t *input, uint64_t samplecount, int32_t *output,
   if (!input || !output || outputlength == 0)
     return -1;
 
-  for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t) && inputlength >= sizeof (int16_t); idx++)
   {
     memcpy (&sint, &input[idx], sizeof (uint16_t));
     if (swapflag)
@@ -954,6 +953,7 @@ msr_decode_dwwssn (int16_t *input, uint64_t samplecount, int32_t *output,
     /* Save sample in output array */
     output[idx] = sample;
     outputlength -= sizeof (int32_t);
+    inputlength -= sizeof (int16_t);
   }
 
   return idx;
diff --git a/libmseed/unpackdata.h b/libmseed/unpackdata.h
index 3afa46c..8b0423f 100644
--- a/libmseed/unpackdata.h
+++ b/libmseed/unpackdata.h
@@ -28,29 +28,29 @@ extern "C" {
 
 #include "libmseed.h"
 
-extern int64_t msr_decode_int16 (int16_t *input, uint64_t samplecount, int32_t *output,
-                                 uint64_t outputlength, int swapflag);
-extern int64_t msr_decode_int32 (int32_t *input, uint64_t samplecount, int32_t *output,
-                                 uint64_t outputlength, int swapflag);
-extern int64_t msr_decode_float32 (float *input, uint64_t samplecount, float *output,
-                                   uint64_t outputlength, int swapflag);
-extern int64_t msr_decode_float64 (double *input, uint64_t samplecount, double *output,
-                                   uint64_t outputlength, int swapflag);
+extern int64_t msr_decode_int16 (int16_t *input, uint64_t inputlength, uint64_t samplecount,
+                               int32_t *output, uint64_t outputlength, int swapflag);
+extern int64_t msr_decode_int32 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
+                               int32_t *output, uint64_t outputlength, int swapflag);
+extern int64_t msr_decode_float32 (float *input, uint64_t inputlength, uint64_t samplecount,
+                               float *output, uint64_t outputlength, int swapflag);
+extern int64_t msr_decode_float64 (double *input, uint64_t inputlength, uint64_t samplecount,
+                               double *output, uint64_t outputlength, int swapflag);
 extern int64_t msr_decode_steim1 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
                                   int32_t *output, uint64_t outputlength, const char *srcname,
                                   int swapflag);
 extern int64_t msr_decode_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
                                   int32_t *output, uint64_t outputlength, const char *srcname,
                                   int swapflag);
-extern int64_t msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
-                                    uint64_t outputlength, int encoding, const char *srcname,
+extern int64_t msr_decode_geoscope (char *input, uint64_t inputlength, uint64_t samplecount,
+                                    float *output, uint64_t outputlength, int encoding, const char *srcname,
                                     int swapflag);
-extern int64_t msr_decode_cdsn (int16_t *input, uint64_t samplecount, int32_t *output,
-                                uint64_t outputlength, int swapflag);
-extern int64_t msr_decode_sro (int16_t *input, uint64_t samplecount, int32_t *output,
-                               uint64_t outputlength, const char *srcname, int swapflag);
-extern int64_t msr_decode_dwwssn (int16_t *input, uint64_t samplecount, int32_t *output,
-                                  uint64_t outputlength, int swapflag);
+extern int64_t msr_decode_cdsn (int16_t *input, uint64_t inputlength, uint64_t samplecount,
+                               int32_t *output, uint64_t outputlength, int swapflag);
+extern int64_t msr_decode_sro (int16_t *input, uint64_t inputlength, uint64_t samplecount,
+                               int32_t *output, uint64_t outputlength, const char *srcname, int swapflag);
+extern int64_t msr_decode_dwwssn (int16_t *input, uint64_t inputlength, uint64_t samplecount,
+                               int32_t *output, uint64_t outputlength, int swapflag);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From f85148039efa6096d4d1da12d9a92a40bf9b1fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 06/75] fix: CRC-32C of short unaligned input reads past its
 end

---
 libmseed/crc32c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/crc32c.c b/libmseed/crc32c.c
index d553409..1a0673d 100644
--- a/libmseed/crc32c.c
+++ b/libmseed/crc32c.c
@@ -328,7 +328,7 @@ static inline uint32_t s_crc_generic_align(
     size_t leading = (4 - input_alignment) & 0x3;
 
     /* Determine what's left without the leading input bytes (might be negative)*/
-    size_t remaining = *length - leading;
+    int remaining = *length - (int)leading;
 
     /* Process unaligned leading input bytes one at a time*/
     if (leading && remaining > 0) {
-- 
2.43.0


From e02a6aa5d94f3e2b05f0b5da08e27cd6bf948127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 07/75] fix: lengths of blockettes 200, 201, 300, 310, 320 and
 500

---
 libmseed/unpack.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 8bfc312..c170a0c 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1578,19 +1578,19 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 12;
     break;
   case 200: /* Generic Event Detection */
-    blktlen = 28;
+    blktlen = 52;
     break;
   case 201: /* Murdock Event Detection */
-    blktlen = 36;
+    blktlen = 60;
     break;
   case 300: /* Step Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 310: /* Sine Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 320: /* Pseudo-random Calibration */
-    blktlen = 28;
+    blktlen = 64;
     break;
   case 390: /* Generic Calibration */
     blktlen = 28;
@@ -1602,7 +1602,7 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 16;
     break;
   case 500: /* Timing */
-    blktlen = 8;
+    blktlen = 200;
     break;
   case 1000: /* Data Only SEED */
     blktlen = 8;
-- 
2.43.0


From ea0f6c20c2ca7c3f92f06772142b255bd523fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 08/75] fix: reading the blockette chain and using the
 blockette 1000 length beyond the record

---
 libmseed/unpack.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index c170a0c..d832358 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -411,8 +411,9 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   /* Traverse the blockettes */
   blkt_offset = HO2u (*pMS2FSDH_BLOCKETTEOFFSET (record), msr->swapflag);
 
+  /* The smallest blockette is 8 bytes and must be contained in the record */
   while ((blkt_offset != 0) &&
-         (blkt_offset < reclen) &&
+         (blkt_offset + 8 <= reclen) &&
          (blkt_offset < MAXRECLEN))
   {
     /* Every blockette has a similar 4 byte header: type and next */
@@ -822,13 +823,19 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       B1000offset = blkt_offset;
 
       /* Calculate record length in bytes as 2^(B1000->reclen) */
-      msr->reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+      length = (*pMS2B1000_RECLEN (record + blkt_offset) < 31) ? 1 << *pMS2B1000_RECLEN (record + blkt_offset) : 0;
 
       /* Compare against the specified length */
-      if (msr->reclen != reclen && verbose)
+      if (length != reclen && verbose)
       {
         ms_log (1, "%s: Record length in Blockette 1000 (%d) != specified length (%d)\n",
-                msr->sid, msr->reclen, reclen);
+                msr->sid, length, reclen);
+      }
+
+      /* Never use a length beyond the specified length, i.e. the available data */
+      if (length >= MINRECLEN && length <= reclen)
+      {
+        msr->reclen = length;
       }
 
       msr->encoding = *pMS2B1000_ENCODING (record + blkt_offset);
-- 
2.43.0


From 0518dfe614f6b07235d2356e9dca8b63fbecfc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 09/75] fix: version 3 identifier, extra headers and payload
 must be inside the record

---
 libmseed/unpack.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index d832358..f5ec392 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -115,6 +115,15 @@ msr3_unpack_mseed3 (const char *record, int reclen, MS3Record **ppmsr,
 
   sidlength = *pMS3FSDH_SIDLENGTH (record);
 
+  /* Verify that the identifier, extra headers and data payload are contained in the record */
+  if ((uint64_t)MS3FSDH_LENGTH + sidlength +
+      HO2u (*pMS3FSDH_EXTRALENGTH (record), swapflag) +
+      HO4u (*pMS3FSDH_DATALENGTH (record), swapflag) > (uint64_t)reclen)
+  {
+    ms_log (2, "Record header specifies a length beyond the record length: %d\n", reclen);
+    return MS_OUTOFRANGE;
+  }
+
   /* Record SID length must be at most one less than maximum size to leave a byte for termination */
   if (sidlength >= sizeof (msr->sid))
   {
-- 
2.43.0


From 85d81bf2c8c561bffc558c4f9e94c423f7cb0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 10/75] fix: msr3_data_bounds() only reports and reads a
 payload within the record

---
 libmseed/unpack.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index f5ec392..e03b14c 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -964,7 +964,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
   msr->datalength = HO2u (*pMS2FSDH_DATAOFFSET (record), msr->swapflag);
   if (msr->datalength > 0)
-    msr->datalength = msr->reclen - msr->datalength;
+    msr->datalength = ((uint32_t)msr->reclen > msr->datalength) ? msr->reclen - msr->datalength : 0;
 
   /* Determine byte order of the data and set the swapflag as needed;
      if no Blkt1000, assume the order is the same as the header */
@@ -1053,10 +1053,15 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
     *dataoffset = MS3FSDH_LENGTH + (uint32_t)strlen (msr->sid) + msr->extralength;
     *datasize = msr->datalength;
   }
-  else if (msr->formatversion == 2)
+  else if (msr->formatversion == 2 && msr->reclen >= MS2FSDH_LENGTH)
   {
     *dataoffset = HO2u (*pMS2FSDH_DATAOFFSET (msr->record), msr->swapflag & MSSWAP_HEADER);
-    *datasize = msr->reclen - *dataoffset;
+    *datasize = (*dataoffset <= (uint32_t)msr->reclen) ? msr->reclen - *dataoffset : 0;
+  }
+  else if (msr->formatversion == 2)
+  {
+    ms_log (2, "%s: Record length is too small: %d\n", msr->sid, msr->reclen);
+    return MS_GENERROR;
   }
   else
   {
@@ -1064,6 +1069,15 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
     return MS_GENERROR;
   }
 
+  /* Verify that the payload is contained in the record */
+  if (msr->reclen < 0 || *dataoffset > (uint32_t)msr->reclen ||
+      *datasize > (uint32_t)msr->reclen - *dataoffset)
+  {
+    ms_log (2, "%s: Data payload (offset: %u, size: %u) is not within record (length: %d)\n",
+            msr->sid, *dataoffset, *datasize, msr->reclen);
+    return MS_GENERROR;
+  }
+
   /* If a fixed sample length encoding, calculate size and use if less
    * than otherwise determined. */
   if (msr->encoding == DE_TEXT ||
@@ -1090,7 +1104,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
     rawsize = msr->samplecnt * samplebytes;
 
     if (rawsize < *datasize)
-      *datasize = (uint16_t)rawsize;
+      *datasize = (uint32_t)rawsize;
   }
 
   /* If datasize is a multiple of 64-bytes and a Steim encoding, test for
@@ -1099,7 +1113,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
       (msr->encoding == DE_STEIM1 || msr->encoding == DE_STEIM2))
   {
     while (*datasize > 0 &&
-           memcmp (msr->record + (*datasize - 64), nullframe, 64) == 0)
+           memcmp (msr->record + *dataoffset + (*datasize - 64), nullframe, 64) == 0)
     {
       *datasize -= 64;
     }
-- 
2.43.0


From 90c9e7d9c437f6f558a881c11205c9f1fd836368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 11/75] fix: msr3_unpack_mseed2() releases parsed extra headers
 on errors and with repeated blockette 1001

---
 libmseed/unpack.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index e03b14c..f339462 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -487,7 +487,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B200_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       memset (eventdetection.medsnr, 0, 6);
       eventdetection.medlookback = -1;
@@ -497,6 +500,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 200 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -520,7 +524,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B201_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       memcpy (eventdetection.medsnr, pMS2B201_MEDSNR (record + blkt_offset), 6);
       eventdetection.medlookback = *pMS2B201_LOOPBACK (record + blkt_offset);
@@ -530,6 +537,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 201 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -543,7 +551,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B300_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = *pMS2B300_NUMCALIBRATIONS (record + blkt_offset);
@@ -585,6 +596,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 300 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -598,7 +610,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B310_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -642,6 +657,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 310 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -655,7 +671,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B320_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -693,6 +712,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 320 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -706,7 +726,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B390_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -740,6 +763,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 390 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -755,7 +779,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.endtime = ms_btime2nstime ((uint8_t*)pMS2B395_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.endtime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.steps = -1;
       calibration.firstpulsepositive = -1;
@@ -778,6 +805,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 395 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -803,7 +831,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       exception.time = ms_btime2nstime ((uint8_t*)pMS2B500_YEAR (record + blkt_offset), msr->swapflag);
       if (exception.time == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       /* Apply microsecond precision if non-zero */
       if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0)
@@ -819,6 +850,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_timing_exception_r (msr, NULL, &exception, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 500 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
 
@@ -855,7 +887,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       B1001offset = blkt_offset;
 
       /* Optimization: if no other extra headers yet, directly print this common value */
-      if (parsestate == NULL)
+      if (parsestate == NULL && msr->extra == NULL)
       {
         length = snprintf (sval, sizeof(sval), "{\"FDSN\":{\"Time\":{\"Quality\":%d}}}",
                            *pMS2B1001_TIMINGQUALITY (record + blkt_offset));
-- 
2.43.0


From f3cf55d5b3c5fa91e784f272856d2f6c682250f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 12/75] fix: extra header parsing state leak and unreported
 serialization failure

---
 libmseed/extraheaders.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index ae9f896..d92684c 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -58,6 +58,7 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
   yyjson_read_flag flg = YYJSON_READ_NOFLAG;
   yyjson_read_err err;
   yyjson_alc alc = {_priv_malloc, _priv_realloc, _priv_free, NULL};
+  LM_PARSED_JSON *allocated = NULL;
 
   /* Allocate parsed state if needed */
   if (!parsed)
@@ -69,6 +70,7 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
     }
     else
     {
+      allocated       = parsed;
       parsed->doc     = NULL;
       parsed->mut_doc = NULL;
     }
@@ -99,6 +101,8 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
   {
     ms_log (2, "%s() Cannot parse extra header JSON: %s\n",
             __func__, (err.msg) ? err.msg : "Unknown error");
+    if (allocated)
+      libmseed_memory.free (allocated);
     return NULL;
   }
 
@@ -462,11 +466,14 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   /* Serialized extra headers and free parse state if not being retained */
   if (parsestate == NULL)
   {
-    mseh_serialize (msr, &parsed);
+    if (rv == true && mseh_serialize (msr, &parsed) < 0)
+    {
+      rv = false;
+    }
     mseh_free_parsestate (&parsed);
   }
   /* If changes were applied, the immutable form of the document is now invalid */
-  else if (rv ==true && parsed->doc != NULL)
+  else if (rv == true && parsed->doc != NULL)
   {
     yyjson_doc_free (parsed->doc);
     parsed->doc = NULL;
-- 
2.43.0


From acaa7cb8e9104e4093a92ae1b058ce7477600472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 13/75] fix: mseh_replace() leaks the parsed document

---
 libmseed/extraheaders.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index d92684c..056d6b9 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -1122,6 +1122,7 @@ mseh_replace (MS3Record *msr, char *jsonstring)
 
     /* Serialize new JSON string */
     serialized = yyjson_write_opts (doc, write_flg, &alc, &serialsize, &write_err);
+    yyjson_doc_free (doc);
 
     if (serialized == NULL)
     {
-- 
2.43.0


From b70f476127bb10cb7c884426712fa676e35c2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 14/75] fix: report header values that cannot be mapped to
 extra headers

---
 libmseed/unpack.c | 50 +++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index f339462..4ee7e4b 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -275,6 +275,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   char errorsid[64];
 
   int length;
+  int exterror = 0;
   int ione = 1;
   int64_t ival;
   double dval;
@@ -362,51 +363,51 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   if (*pMS2FSDH_ACTFLAGS (record) & 0x01) /* Bit 0 */
     msr->flags |= 0x01;
   if (*pMS2FSDH_ACTFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/Begin", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Event/Begin", &ione, 'b', &parsestate);
   if (*pMS2FSDH_ACTFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/End", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Event/End", &ione, 'b', &parsestate);
   if (*pMS2FSDH_ACTFLAGS (record) & 0x10) /* Bit 4 */
   {
     ival = 1;
-    mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
   }
   if (*pMS2FSDH_ACTFLAGS (record) & 0x20) /* Bit 5 */
   {
     ival = -1;
-    mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
   }
   if (*pMS2FSDH_ACTFLAGS (record) & 0x40) /* Bit 6 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/InProgress", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Event/InProgress", &ione, 'b', &parsestate);
 
   /* Map I/O and clock flags */
   if (*pMS2FSDH_IOFLAGS (record) & 0x01) /* Bit 0 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/StationVolumeParityError", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/StationVolumeParityError", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x02) /* Bit 1 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/LongRecordRead", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/LongRecordRead", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/ShortRecordRead", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/ShortRecordRead", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/StartOfTimeSeries", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/StartOfTimeSeries", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x10) /* Bit 4 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/EndOfTimeSeries", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/EndOfTimeSeries", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x20) /* Bit 5 */
     msr->flags |= 0x04;
 
   /* Map data quality flags */
   if (*pMS2FSDH_DQFLAGS (record) & 0x01) /* Bit 0 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/AmplifierSaturation", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/AmplifierSaturation", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x02) /* Bit 1 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/DigitizerClipping", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/DigitizerClipping", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/Spikes", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/Spikes", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/Glitches", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/Glitches", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x10) /* Bit 4 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/MissingData", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/MissingData", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x20) /* Bit 5 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/TelemetrySyncError", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/TelemetrySyncError", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x40) /* Bit 6 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/FilterCharging", &ione, 'b', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/FilterCharging", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x80) /* Bit 7 */
     msr->flags |= 0x02;
 
@@ -414,7 +415,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   if (dval != 0.0)
   {
     dval = dval / 10000.0;
-    mseh_set_ptr_r (msr, "/FDSN/Time/Correction", &dval, 'n', &parsestate);
+    exterror |= mseh_set_ptr_r (msr, "/FDSN/Time/Correction", &dval, 'n', &parsestate);
   }
 
   /* Traverse the blockettes */
@@ -856,7 +857,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       /* Clock model maps to a single value at /FDSN/Clock/Model */
       ms_strncpcleantail (sval, pMS2B500_CLOCKMODEL (record + blkt_offset), 32);
-      mseh_set_ptr_r (msr, "/FDSN/Clock/Model", sval, 's', &parsestate);
+      exterror |= mseh_set_ptr_r (msr, "/FDSN/Clock/Model", sval, 's', &parsestate);
     }
 
     else if (blkt_type == 1000)
@@ -905,7 +906,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       else
       {
         ival = *pMS2B1001_TIMINGQUALITY (record + blkt_offset);
-        mseh_set_ptr_r (msr, "/FDSN/Time/Quality", &ival, 'i', &parsestate);
+        exterror |= mseh_set_ptr_r (msr, "/FDSN/Time/Quality", &ival, 'i', &parsestate);
       }
     }
 
@@ -946,10 +947,17 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   /* Serialize extra header JSON structure and free parsed state */
   if (parsestate)
   {
-    mseh_serialize (msr, &parsestate);
+    if (mseh_serialize (msr, &parsestate) < 0)
+      exterror = MS_GENERROR;
+
     mseh_free_parsestate (&parsestate);
   }
 
+  if (exterror)
+  {
+    ms_log (1, "%s: Warning: Not all header values could be mapped to extra headers\n", msr->sid);
+  }
+
   /* Check for a Blockette 1000 and log warning if not found */
   if (B1000offset == 0 && verbose > 1)
   {
-- 
2.43.0


From c74f715be82f4fdc5b08c8e11f7c91b3e926b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 15/75] fix: ms_parse_raw2() stays in the supplied buffer and
 always advances along the blockette chain

---
 libmseed/parseutils.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 40644d8..e3d1c91 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -821,6 +821,15 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     /* Traverse blockette chain */
     while (blkt_offset != 0 && blkt_offset < maxreclen)
     {
+      /* Sanity check that the smallest blockette (8 bytes) is contained in the record */
+      if (blkt_offset + 8 > maxreclen)
+      {
+        ms_log (2, "%s: Blockette at offset %d does not fit in record (%d)\n",
+                sid, blkt_offset, maxreclen);
+        retval++;
+        break;
+      }
+
       /* Every blockette has a similar 4 byte header: type and next */
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
@@ -844,13 +853,16 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
       {
         ms_log (2, "%s: Unknown blockette length for type %d\n", sid, blkt_type);
         retval++;
+
+        /* Only the common header fields are known to be present */
+        blkt_length = 4;
       }
 
       /* Track end of blockette chain */
       endofblockettes = blkt_offset + blkt_length - 1;
 
       /* Sanity check that the blockette is contained in the record */
-      if (endofblockettes > maxreclen)
+      if (endofblockettes >= maxreclen)
       {
         ms_log (2, "%s: Blockette type %d at offset %d with length %d does not fit in record (%d)\n",
                 sid, blkt_type, blkt_offset, blkt_length, maxreclen);
@@ -858,6 +870,14 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         break;
       }
 
+      /* Sanity check that the length of opaque data includes the header of the blockette */
+      if (blkt_type == 2000 && blkt_length < 15)
+      {
+        ms_log (2, "%s: Blockette 2000 length invalid (>=15): %d\n", sid, blkt_length);
+        retval++;
+        break;
+      }
+
       if (blkt_type == 100)
       {
         if (details >= 1)
@@ -1287,7 +1307,9 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
           ms_log (0, "           number of headers: %u\n", *pMS2B2000_NUMHEADERS (record + blkt_offset));
 
           /* Crude display of the opaque data headers, hopefully printable */
-          if (details > 1)
+          if (details > 1 &&
+              HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) >= 15 &&
+              HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) <= blkt_length)
             ms_log (0, "                     headers: %.*s\n",
                     (HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) - 15),
                     pMS2B2000_PAYLOAD (record + blkt_offset));
-- 
2.43.0


From 8a0a853d78393e76bc8dbe2c51dcc04aecd2bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 16/75] fix: oversized shift for invalid blockette 1000 record
 length in ms_parse_raw2()

---
 libmseed/parseutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index e3d1c91..f90ca4d 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -1192,7 +1192,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         char order[40];
 
         /* Calculate record size in bytes as 2^(blkt_1000->rec_len) */
-        b1000reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        b1000reclen = (*pMS2B1000_RECLEN (record + blkt_offset) < 31) ? 1 << *pMS2B1000_RECLEN (record + blkt_offset) : 0;
 
         /* Big or little endian? */
         if (*pMS2B1000_BYTEORDER (record + blkt_offset) == 0)
-- 
2.43.0


From 8071487af55dff7c86a1a839259cf5b3b2e6b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 17/75] fix: ms_parse_raw2() honors the requested byte swapping

---
 libmseed/parseutils.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index f90ca4d..c233c4b 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -564,10 +564,8 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
   ms2_recordsid (record, sid, sizeof (sid));
 
   /* Check to see if byte swapping is needed by testing the year and day */
-  if (swapflag == -1 && !MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record)))
-    swapflag = 1;
-  else
-    swapflag = 0;
+  if (swapflag == -1)
+    swapflag = (MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record))) ? 0 : 1;
 
   if (details > 1)
   {
-- 
2.43.0


From ae6f08d7de587757d979862b71b6bf75323be74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 18/75] fix: UTF-8 length determination reads past the maximum
 length

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 8a2b650..794472a 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -549,7 +549,7 @@ utf8length_int (const char *str, int maxlength)
   int length = 0;
   int offset;
 
-  for (offset = 0; str[offset] && offset < maxlength; offset++)
+  for (offset = 0; offset < maxlength && str[offset]; offset++)
   {
     type = utf8d[(uint8_t)str[offset]];
     state = utf8d[256 + state * 16 + type];
-- 
2.43.0


From a65fbf356779f5f77e73991ca20ec4d5bc36e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 19/75] fix: rlog_int() uses the length of the stored message
 to remove a trailing newline

The number of characters formatted exceeds the message buffer when a message is
truncated, so the newline test read and wrote beyond it.
---
 libmseed/logging.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 764ec0f..e6cab6b 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -409,10 +409,12 @@ rlog_int (MSLogParam *logp, const char *function, int level,
   /* Add warning/error message to registry if enabled */
   if (level >= 1 && logp->registry.maxmessages > 0)
   {
-    /* Remove trailing newline if present */
-    if (message[printed - 1] == '\n')
+    /* Remove trailing newline if present, the message may have been truncated */
+    size_t length = strlen (message);
+
+    if (length > 0 && message[length - 1] == '\n')
     {
-      message[printed - 1] = '\0';
+      message[length - 1] = '\0';
       printed -= 1;
     }
 
-- 
2.43.0


From fa3977731877bc4b8667daa0d85e31be2f929af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 20/75] fix: response header parsing reads past the supplied
 bytes

---
 libmseed/msio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 8eacc9f..e1549df 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -119,7 +119,7 @@ header_callback (char *buffer, size_t size, size_t num, void *userdata)
   if (size > 22 && strncasecmp (buffer, "Content-Range: bytes", 20) == 0)
   {
     /* Process each character, starting just afer "bytes" unit */
-    for (ptr = buffer + 20; *ptr != '\0' && (ptr - buffer) < size; ptr++)
+    for (ptr = buffer + 20; (size_t)(ptr - buffer) < size && *ptr != '\0'; ptr++)
     {
       /* Skip spaces before start of range */
       if (*ptr == ' ' && startdigits == 0)
-- 
2.43.0


From dd7d6788f40cd479c6e7586849c1438bf9ec2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 21/75] fix: truncating a long path name at its byte range
 suffix writes past the path buffer

---
 libmseed/fileutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 43cd33e..15333eb 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -340,7 +340,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
     strncpy (msfp->path, mspath, sizeof (msfp->path) - 1);
 
     /* Truncate to remove byte range suffix if present or maximum range */
-    if (pathname_range)
+    if (pathname_range && (size_t)(pathname_range - mspath) < sizeof (msfp->path))
     {
       msfp->path[pathname_range - mspath] = '\0';
     }
-- 
2.43.0


From 3ea885cabcafe112558c15fdb8bd181d4caa1caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 22/75] fix: timing exception text members have no room for the
 terminator

ms_strncpcleantail() copies 16 and 128 characters of blockette 500 plus a
terminator into these members.
---
 libmseed/libmseed.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/libmseed.h b/libmseed/libmseed.h
index c0e1f92..7e347e6 100644
--- a/libmseed/libmseed.h
+++ b/libmseed/libmseed.h
@@ -883,8 +883,8 @@ typedef struct MSEHTimingException
   int usec; /**< [DEPRECATED] microsecond time offset, 0 = not included */
   int receptionquality; /**< Reception quality, 0 to 100% clock accurracy, <0 = not included */
   uint32_t count; /**< The count thereof, 0 = not included */
-  char type[16]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
-  char clockstatus[128]; /**< Description of clock-specific parameters, zero length = not included */
+  char type[17]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
+  char clockstatus[129]; /**< Description of clock-specific parameters, zero length = not included */
 } MSEHTimingException;
 
 /**
-- 
2.43.0


From cf26c0d6c55ff87eaa615e0afe2b283d5ba30bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 23/75] fix: msi time string buffer is too small for nanosecond
 ISO times

---
 src/msi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msi.c b/src/msi.c
index 4497db3..bc71876 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -88,7 +88,7 @@ main (int argc, char **argv)
   int64_t totalsamps = 0;
   int64_t totalfiles = 0;
 
-  char stime[30];
+  char stime[40];
 
   /* Set default error message prefix */
   ms_loginit (NULL, NULL, NULL, "ERROR: ");
-- 
2.43.0


From a87d5ca4591213d0b52b4849e449c89d4bcf43ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:04 +0000
Subject: [PATCH 24/75] fix: close the leap second file when reading it fails

---
 libmseed/genutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 794472a..328a35f 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1814,6 +1814,7 @@ ms_readleapsecondfile (const char *filename)
       if ((ls = (LeapSecond *)libmseed_memory.malloc (sizeof (LeapSecond))) == NULL)
       {
         ms_log (2, "Cannot allocate LeapSecond entry, out of memory?\n");
+        fclose (fp);
         return -1;
       }
 
@@ -1844,6 +1845,7 @@ ms_readleapsecondfile (const char *filename)
   if (ferror (fp))
   {
     ms_log (2, "Error reading leap second file (%s): %s\n", filename, strerror (errno));
+    fclose (fp);
     return -1;
   }
 
-- 
2.43.0


From 2973805d46b60aabe6a594725b97368b51a7a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:04 +0000
Subject: [PATCH 25/75] fix: ms3_addselect() releases the time window when it
 fails

---
 libmseed/selection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index cd7cb31..672df13 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -209,6 +209,7 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
     if (!(newsl = (MS3Selections *)libmseed_memory.malloc (sizeof (MS3Selections))))
     {
       ms_log (2, "Cannot allocate memory\n");
+      libmseed_memory.free (newst);
       return -1;
     }
     memset (newsl, 0, sizeof (MS3Selections));
@@ -250,6 +251,7 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
       if (!(newsl = (MS3Selections *)libmseed_memory.malloc (sizeof (MS3Selections))))
       {
         ms_log (2, "Cannot allocate memory\n");
+        libmseed_memory.free (newst);
         return -1;
       }
       memset (newsl, 0, sizeof (MS3Selections));
-- 
2.43.0


From 93d2142fdfd56f560b135dd2890328dbab20614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 26/75] fix: ms3_readselectionsfile() detects unparsable times

---
 libmseed/selection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 672df13..afa0219 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -555,7 +555,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       starttime = ms_timestr2nstime (cp);
-      if (starttime == NSTUNSET)
+      if (starttime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection start time (line %d): %s\n", linecount, cp);
         return -1;
@@ -572,7 +572,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       endtime = ms_timestr2nstime (cp);
-      if (endtime == NSTUNSET)
+      if (endtime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection end time (line %d): %s\n", linecount, cp);
         return -1;
-- 
2.43.0


From 49ff49b27aeb80cfa6d3261636436997a0818487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:13 +0000
Subject: [PATCH 27/75] fix: ms3_readselectionsfile() closes the file on errors

---
 libmseed/selection.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index afa0219..77a1d3a 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -558,6 +558,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (starttime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection start time (line %d): %s\n", linecount, cp);
+        if (fp != stdin)
+          fclose (fp);
         return -1;
       }
     }
@@ -575,6 +577,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (endtime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection end time (line %d): %s\n", linecount, cp);
+        if (fp != stdin)
+          fclose (fp);
         return -1;
       }
     }
@@ -596,6 +600,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
         if (longpver < 0 || longpver > 255 )
         {
           ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[3]);
+          if (fp != stdin)
+            fclose (fp);
           return -1;
         }
         else
@@ -608,6 +614,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (ms3_addselect (ppselections, fields[0], starttime, endtime, pubversion))
       {
         ms_log (2, "%s: Error adding selection on line %d\n", filename, linecount);
+        if (fp != stdin)
+          fclose (fp);
         return -1;
       }
     }
@@ -627,6 +635,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
         if (longpver < 0 || longpver > 255 )
         {
           ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[4]);
+          if (fp != stdin)
+            fclose (fp);
           return -1;
         }
         else
@@ -639,6 +649,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
                               starttime, endtime, pubversion))
       {
         ms_log (2, "%s: Error adding selection on line %d\n", filename, linecount);
+        if (fp != stdin)
+          fclose (fp);
         return -1;
       }
     }
-- 
2.43.0


From 3dd5d520a43b7cab2f984e70d2fbad941ccc7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 28/75] fix: msr3_resize_buffer() keeps the sample buffer when
 resizing fails

---
 libmseed/msrutils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 763bbd9..3837f5a 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -306,6 +306,7 @@ msr3_resize_buffer (MS3Record *msr)
 {
   uint8_t samplesize = 0;
   size_t datasize;
+  void *resized;
 
   if (!msr)
   {
@@ -321,14 +322,15 @@ msr3_resize_buffer (MS3Record *msr)
 
     if (msr->datasize > datasize)
     {
-      msr->datasamples = libmseed_memory.realloc (msr->datasamples, datasize);
+      resized = libmseed_memory.realloc (msr->datasamples, datasize);
 
-      if (msr->datasamples == NULL)
+      if (resized == NULL)
       {
         ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
         return MS_GENERROR;
       }
 
+      msr->datasamples = resized;
       msr->datasize = datasize;
     }
   }
-- 
2.43.0


From 8e4a5df0e006750a7e058ad022199a71b39ffca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 29/75] fix: mstl3_resize_buffers() keeps the sample buffer
 when resizing fails

---
 libmseed/tracelist.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index cbb68ed..0cf0824 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1548,14 +1548,15 @@ mstl3_resize_buffers (MS3TraceList *mstl)
 
         if (seg->datasize > datasize)
         {
-          seg->datasamples = libmseed_memory.realloc (seg->datasamples, datasize);
+          void *resized = libmseed_memory.realloc (seg->datasamples, datasize);
 
-          if (seg->datasamples == NULL)
+          if (resized == NULL)
           {
             ms_log (2, "%s: Cannot (re)allocate memory\n", id->sid);
             return MS_GENERROR;
           }
 
+          seg->datasamples = resized;
           seg->datasize = datasize;
         }
       }
-- 
2.43.0


From 20d33c667619c8d9628ae53e957b5317ed626c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 30/75] fix: msr3_unpack_data() keeps the sample buffer when
 growing it fails

---
 libmseed/unpack.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 4ee7e4b..2fd333a 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1277,26 +1277,29 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
   /* (Re)Allocate space for the unpacked data */
   if (unpacksize > 0)
   {
+    size_t current_size = msr->datasize;
+    void *resized;
+
     if (libmseed_prealloc_block_size)
     {
-      size_t current_size  = msr->datasize;
-      msr->datasamples = libmseed_memory_prealloc (msr->datasamples, unpacksize, &current_size);
-      msr->datasize = current_size;
+      resized = libmseed_memory_prealloc (msr->datasamples, unpacksize, &current_size);
     }
     else
     {
-      msr->datasamples = libmseed_memory.realloc (msr->datasamples, unpacksize);
-      msr->datasize = unpacksize;
+      resized = libmseed_memory.realloc (msr->datasamples, unpacksize);
+      current_size = unpacksize;
     }
 
-    if (msr->datasamples == NULL)
+    if (resized == NULL)
     {
       ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
-      msr->datasize = 0;
       if (encoded_allocated)
         libmseed_memory.free (encoded_allocated);
       return MS_GENERROR;
     }
+
+    msr->datasamples = resized;
+    msr->datasize = current_size;
   }
   else
   {
-- 
2.43.0


From 911b45d4e4402b8021ec541201380b0a1f2ea0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 31/75] fix: mstl3_convertsamples() keeps the sample buffer
 when resizing fails

---
 libmseed/tracelist.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 0cf0824..23d7e54 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1375,6 +1375,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   int32_t *idata;
   float *fdata;
   double *ddata;
+  void *resized;
   int64_t idx;
 
   if (!seg)
@@ -1433,12 +1434,14 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
       if (libmseed_prealloc_block_size == 0)
       {
-        if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
-                                                          (size_t) (seg->numsamples * sizeof (int32_t)))))
+        if (!(resized = libmseed_memory.realloc (seg->datasamples,
+                                                 (size_t) (seg->numsamples * sizeof (int32_t)))))
         {
           ms_log (2, "Cannot re-allocate buffer for sample conversion\n");
+          seg->sampletype = 'i';
           return -1;
         }
+        seg->datasamples = resized;
         seg->datasize = seg->numsamples * sizeof (int32_t);
       }
     }
@@ -1462,12 +1465,14 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
       if (libmseed_prealloc_block_size == 0)
       {
-        if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
-                                                          (size_t) (seg->numsamples * sizeof (float)))))
+        if (!(resized = libmseed_memory.realloc (seg->datasamples,
+                                                 (size_t) (seg->numsamples * sizeof (float)))))
         {
           ms_log (2, "Cannot re-allocate buffer after sample conversion\n");
+          seg->sampletype = 'f';
           return -1;
         }
+        seg->datasamples = resized;
         seg->datasize = seg->numsamples * sizeof (float);
       }
     }
-- 
2.43.0


From 274f3d9170c16a007d3bd52726c33899ca1a6a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 32/75] fix: mstl3_convertsamples() leaves the samples
 unchanged when precision would be lost

---
 libmseed/tracelist.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 23d7e54..1ba1951 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1403,31 +1403,37 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   {
     if (seg->sampletype == 'f') /* Convert floats to integers with simple rounding */
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      /* Check for loss of sub-integer before changing any sample */
+      for (idx = 0; !truncate && idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (fdata[idx] - (int32_t)fdata[idx]) > 0.000001)
+        if ((fdata[idx] - (int32_t)fdata[idx]) > 0.000001)
         {
           ms_log (2, "Loss of precision when converting floats to integers, loss: %g\n",
                   (fdata[idx] - (int32_t)fdata[idx]));
           return -1;
         }
+      }
 
+      for (idx = 0; idx < seg->numsamples; idx++)
+      {
         idata[idx] = (int32_t) (fdata[idx] + 0.5);
       }
     }
     else if (seg->sampletype == 'd') /* Convert doubles to integers with simple rounding */
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      /* Check for loss of sub-integer before changing any sample */
+      for (idx = 0; !truncate && idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (ddata[idx] - (int32_t)ddata[idx]) > 0.000001)
+        if ((ddata[idx] - (int32_t)ddata[idx]) > 0.000001)
         {
           ms_log (2, "Loss of precision when converting doubles to integers, loss: %g\n",
                   (ddata[idx] - (int32_t)ddata[idx]));
           return -1;
         }
+      }
 
+      for (idx = 0; idx < seg->numsamples; idx++)
+      {
         idata[idx] = (int32_t) (ddata[idx] + 0.5);
       }
 
-- 
2.43.0


From 2d97c742756259d3bd1cdd651e161ca7fd71915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 33/75] fix: mstl3_unpack_recordlist() swaps samples only when
 the payload needs it

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 1ba1951..ac2c6ec 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1836,7 +1836,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
     unpackedsamples = ms_decode_data (input, recordptr->msr->reclen - recordptr->dataoffset,
                                       (uint8_t)recordptr->msr->encoding, recordptr->msr->samplecnt,
                                       (unsigned char *)output + outputoffset, decodedsize - outputoffset,
-                                      &sampletype, recordptr->msr->swapflag, id->sid, verbose);
+                                      &sampletype, (recordptr->msr->swapflag & MSSWAP_PAYLOAD), id->sid, verbose);
 
     if (unpackedsamples < 0)
     {
-- 
2.43.0


From 427065842ab27f5a1ec232732d7f4b67a8da2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 34/75] fix: mstl3_unpack_recordlist() releases its file list
 entry and read buffer on errors

---
 libmseed/tracelist.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index ac2c6ec..ce2bb1a 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1770,6 +1770,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
           {
             ms_log (2, "%s: Cannot open file (%s): %s\n", id->sid, recordptr->filename, strerror(errno));
 
+            libmseed_memory.free (filelistptr);
             totalunpackedsamples = -1;
             break;
           }
@@ -1786,7 +1787,9 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       /* Allocate memory if needed, over-allocating (x2) to minimize reallocation */
       if (recordptr->msr->reclen > filebuffersize)
       {
-        if ((filebuffer = libmseed_memory.realloc (filebuffer, recordptr->msr->reclen * 2)) == NULL)
+        char *newbuffer = libmseed_memory.realloc (filebuffer, recordptr->msr->reclen * 2);
+
+        if (newbuffer == NULL)
         {
           ms_log (2, "%s: Cannot allocate memory for file read buffer\n", id->sid);
 
@@ -1794,6 +1797,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
           break;
         }
 
+        filebuffer = newbuffer;
         filebuffersize = recordptr->msr->reclen * 2;
       }
 
-- 
2.43.0


From bc4b40e539e6d2ce7dd56c85e50b7c78678de2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:02 +0000
Subject: [PATCH 35/75] fix: mstl3_free() accepts a handle that is already NULL

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index ce2bb1a..f12e545 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -95,7 +95,7 @@ mstl3_free (MS3TraceList **ppmstl, int8_t freeprvtptr)
   MS3RecordPtr *recordptr;
   MS3RecordPtr *nextrecordptr;
 
-  if (!ppmstl)
+  if (!ppmstl || !*ppmstl)
     return;
 
   /* Free any associated traces */
-- 
2.43.0


From b1d1fc6d09e199ff936715df599cac112ba4fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:02 +0000
Subject: [PATCH 36/75] fix: mstl3_addID() sets every link level and links
 nothing when it fails

---
 libmseed/tracelist.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index f12e545..25f2115 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -272,13 +272,13 @@ mstl3_addID (MS3TraceList *mstl, MS3TraceID *id, MS3TraceID **prev)
 
   /* Set all pointers above new entry level to NULL */
   for (level = MSTRACEID_SKIPLIST_HEIGHT - 1;
-       level > id->height;
+       level >= id->height;
        level--)
   {
     id->next[level] = NULL;
   }
 
-  /* Connect previous and new ID pointers */
+  /* Check all previous pointers before changing any link */
   for (level = id->height - 1;
        level >= 0;
        level--)
@@ -289,7 +289,13 @@ mstl3_addID (MS3TraceList *mstl, MS3TraceID *id, MS3TraceID **prev)
               level, id->sid);
       return NULL;
     }
+  }
 
+  /* Connect previous and new ID pointers */
+  for (level = id->height - 1;
+       level >= 0;
+       level--)
+  {
     id->next[level] = prev[level]->next[level];
     prev[level]->next[level] = id;
   }
-- 
2.43.0


From 92b6fb5089e82bc9642cfbd686cc57e3fe6b2ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:02 +0000
Subject: [PATCH 37/75] fix: mstl3_msr2seg() releases the segment when it fails

---
 libmseed/tracelist.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 25f2115..7c019ae 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1024,6 +1024,7 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
     if (!(samplesize = ms_samplesize (msr->sampletype)))
     {
       ms_log (2, "Unknown sample size for sample type: %c\n", msr->sampletype);
+      libmseed_memory.free (seg);
       return NULL;
     }
 
@@ -1032,6 +1033,7 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
     if (!(seg->datasamples = libmseed_memory.malloc ((size_t) (datasize))))
     {
       ms_log (2, "Error allocating memory\n");
+      libmseed_memory.free (seg);
       return NULL;
     }
     seg->datasize = datasize;
-- 
2.43.0


From 2a49b1cfd4cd029fc1c063209cdbf3a450398412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:02 +0000
Subject: [PATCH 38/75] fix: mstl3_add_recordptr() releases the duplicated
 record when it fails

---
 libmseed/tracelist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 7c019ae..b3e27e6 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1314,6 +1314,7 @@ mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, i
     if (seg->recordlist == NULL)
     {
       ms_log (2, "Cannot allocate memory\n");
+      msr3_free (&recordptr->msr);
       libmseed_memory.free (recordptr);
       return NULL;
     }
-- 
2.43.0


From 234794af441ad21647720107dd0d1ca922f40be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:27 +0000
Subject: [PATCH 39/75] fix: a sample rate tolerance function makes rates
 within the tolerance similar

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index b3e27e6..2f771ea 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -35,7 +35,7 @@ static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 
 /* Test if two sample rates are similar using either specified tolerance (if positive) or default tolerance */
-#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) > SRT : MS_ISRATETOLERABLE (SR1, SR2))
+#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) <= SRT : MS_ISRATETOLERABLE (SR1, SR2))
 
 /**********************************************************************/ /**
  * @brief Initialize a ::MS3TraceList container
-- 
2.43.0


From 21b28a1124f9da69fc7377fe1b6c5face754fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:40 +0000
Subject: [PATCH 40/75] fix: mstl3_addmsr_recordptr() releases new entries when
 it fails

---
 libmseed/tracelist.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 2f771ea..330293a 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -33,6 +33,7 @@ MS3RecordPtr *mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstim
 
 static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
+static void lm_free_segment (MS3TraceSeg *seg);
 
 /* Test if two sample rates are similar using either specified tolerance (if positive) or default tolerance */
 #define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) <= SRT : MS_ISRATETOLERABLE (SR1, SR2))
@@ -431,6 +432,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
     if (!(seg = mstl3_msr2seg (msr, endtime)))
     {
+      libmseed_memory.free (id);
       return NULL;
     }
     id->first = id->last = seg;
@@ -438,6 +440,8 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
     /* Add MS3RecordPtr if requested */
     if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 1)))
     {
+      lm_free_segment (seg);
+      libmseed_memory.free (id);
       return NULL;
     }
 
@@ -445,6 +449,10 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
     if (mstl3_addID (mstl, id, previd) == NULL)
     {
       ms_log (2, "Error adding new ID to trace list\n");
+      if (pprecptr)
+        *pprecptr = NULL;
+      lm_free_segment (seg);
+      libmseed_memory.free (id);
       return NULL;
     }
   }
@@ -688,6 +696,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
         /* Add MS3RecordPtr if requested */
         if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
         {
+          lm_free_segment (seg);
           return NULL;
         }
 
@@ -1045,6 +1054,36 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
   return seg;
 } /* End of mstl3_msr2seg() */
 
+/***************************************************************************
+ * Free a new MS3TraceSeg that is not linked to a trace ID, including any
+ * sample buffer and record list.
+ ***************************************************************************/
+static void
+lm_free_segment (MS3TraceSeg *seg)
+{
+  if (seg->recordlist)
+  {
+    MS3RecordPtr *recordptr = seg->recordlist->first;
+
+    while (recordptr)
+    {
+      MS3RecordPtr *nextrecordptr = recordptr->next;
+
+      msr3_free (&recordptr->msr);
+      libmseed_memory.free (recordptr);
+
+      recordptr = nextrecordptr;
+    }
+
+    libmseed_memory.free (seg->recordlist);
+  }
+
+  if (seg->datasamples)
+    libmseed_memory.free (seg->datasamples);
+
+  libmseed_memory.free (seg);
+} /* End of lm_free_segment() */
+
 /***************************************************************************
  * Add data coverage from a MS3Record structure to a MS3TraceSeg structure.
  *
-- 
2.43.0


From e27a574c9724d77ae6225f7d0b2cfb252e9fd030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:34 +0000
Subject: [PATCH 41/75] fix: mstl3_readbuffer_selection() releases the record
 when its data bounds are invalid

---
 libmseed/tracelist.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 330293a..13e7c94 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -972,7 +972,10 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
     {
       /* Determine offset to data and length of data payload */
       if (msr3_data_bounds (msr, &dataoffset, &datasize))
+      {
+        msr3_free (&msr);
         return MS_GENERROR;
+      }
 
       recordptr->bufferptr  = buffer + offset;
       recordptr->fileptr    = NULL;
-- 
2.43.0


From c9b4c179da7abfc1087339491e0d0105a8d4fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:34 +0000
Subject: [PATCH 42/75] fix: mstl3_pack() reports packing failures and releases
 only its own record

---
 libmseed/tracelist.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 13e7c94..ac5ba56 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2051,6 +2051,8 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     if (extralength > UINT16_MAX)
     {
       ms_log (2, "Extra headers are too long: %"PRIsize_t"\n", extralength);
+      msr->extra = NULL;
+      msr3_free (&msr);
       return -1;
     }
 
@@ -2111,6 +2113,9 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
         if (!(samplesize = ms_samplesize (seg->sampletype)))
         {
           ms_log (2, "Unknown sample size for sample type: %c\n", seg->sampletype);
+          msr->datasamples = NULL;
+          msr->extra = NULL;
+          msr3_free (&msr);
           return -1;
         }
 
@@ -2125,14 +2130,21 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
           /* Reallocate buffer for reduced size needed, only if not pre-allocating */
           if (libmseed_prealloc_block_size == 0)
           {
-            seg->datasamples = libmseed_memory.realloc (seg->datasamples, bufsize);
+            void *resized = libmseed_memory.realloc (seg->datasamples, bufsize);
 
-            if (seg->datasamples == NULL)
+            /* The larger buffer remains usable if it could not be reduced */
+            if (resized == NULL)
             {
               ms_log (2, "Cannot (re)allocate datasamples buffer\n");
+              seg->samplecnt -= segpackedsamples;
+              seg->numsamples -= segpackedsamples;
+              msr->datasamples = NULL;
+              msr->extra = NULL;
+              msr3_free (&msr);
               return -1;
             }
 
+            seg->datasamples = resized;
             seg->datasize = bufsize;
           }
         }
@@ -2148,6 +2160,15 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
         seg->numsamples -= segpackedsamples;
       }
 
+      if (segpackedrecords < 0)
+      {
+        ms_log (2, "%s: Error packing segment\n", msr->sid);
+        msr->datasamples = NULL;
+        msr->extra = NULL;
+        msr3_free (&msr);
+        return -1;
+      }
+
       totalpackedrecords += segpackedrecords;
       totalpackedsamples += segpackedsamples;
 
@@ -2157,8 +2178,9 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     id = id->next[0];
   }
 
-  /* The record structure never owns the actual data so it should not free it */
+  /* The record structure never owns the actual data or extra headers so it should not free them */
   msr->datasamples = NULL;
+  msr->extra = NULL;
   msr3_free (&msr);
 
   if (packedsamples)
-- 
2.43.0


From 47dbe3656cae6dd0e66babf64c176241c4a0bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:15 +0000
Subject: [PATCH 43/75] fix: record packing releases its buffers on every error

---
 libmseed/pack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index d9a97dc..f06cc2e 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -225,6 +225,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (dataoffset < 0)
   {
     ms_log (2, "%s: Cannot pack miniSEED version 3 header\n", msr->sid);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -258,6 +259,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -348,6 +350,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     if (ms_nstime2time (nextstarttime, &year, &day, &hour, &min, &sec, &nsec))
     {
       ms_log (2, "%s: Cannot convert next record starttime: %" PRId64 "\n", msr->sid, nextstarttime);
+      libmseed_memory.free (encoded);
       libmseed_memory.free (rawrec);
       return -1;
     }
@@ -668,7 +671,10 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   headerlen = msr3_pack_header2 (msr, rawrec, reclen, verbose);
 
   if (headerlen < 0)
+  {
+    libmseed_memory.free (rawrec);
     return -1;
+  }
 
   /* Short cut: if there are no samples, record packing is complete */
   if (msr->numsamples <= 0)
@@ -698,6 +704,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
-- 
2.43.0


From 237c4757688d47a13a6e84aff4d90ea03ca51d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:15 +0000
Subject: [PATCH 44/75] fix: packing samples into records without room for any
 sample never ends

---
 libmseed/pack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index f06cc2e..a031676 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -302,11 +302,11 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   {
     packsamples = msr_pack_data (encoded,
                                  (char *)msr->datasamples + packoffset,
-                                 (int)(msr->numsamples - totalpackedsamples), maxdatabytes,
+                                 msr->numsamples - totalpackedsamples, maxdatabytes,
                                  msr->sampletype, encoding, swapflag,
                                  &datalength, msr->sid, verbose);
 
-    if (packsamples < 0)
+    if (packsamples <= 0)
     {
       ms_log (2, "%s: Error packing data samples\n", msr->sid);
       libmseed_memory.free (encoded);
@@ -765,11 +765,11 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   {
     packsamples = msr_pack_data (encoded,
                                  (char *)msr->datasamples + packoffset,
-                                 (int)(msr->numsamples - totalpackedsamples), maxdatabytes,
+                                 msr->numsamples - totalpackedsamples, maxdatabytes,
                                  msr->sampletype, encoding, swapflag,
                                  &datalength, msr->sid, verbose);
 
-    if (packsamples < 0)
+    if (packsamples <= 0)
     {
       ms_log (2, "%s: Error packing data samples\n", msr->sid);
       libmseed_memory.free (encoded);
-- 
2.43.0


From 3e9c014369c7b36540751f08212aa16becde46e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:15 +0000
Subject: [PATCH 45/75] fix: version 2 header larger than the record length
 makes the data size wrap

---
 libmseed/pack.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index a031676..beb2042 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -715,14 +715,23 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     while (dataoffset < headerlen)
       dataoffset += 64;
 
-    /* Zero memory between blockettes and data if any */
-    memset (rawrec + headerlen, 0, dataoffset - headerlen);
   }
   else
   {
     dataoffset = headerlen;
   }
 
+  if ((uint32_t)dataoffset > reclen || dataoffset > UINT16_MAX)
+  {
+    ms_log (2, "%s: Record length (%u) is not large enough for header (%d bytes)\n",
+            msr->sid, reclen, dataoffset);
+    libmseed_memory.free (rawrec);
+    return -1;
+  }
+
+  /* Zero memory between blockettes and data if any */
+  memset (rawrec + headerlen, 0, dataoffset - headerlen);
+
   /* Set data offset in header */
   *pMS2FSDH_DATAOFFSET(rawrec) = HO2u (dataoffset, swapflag);
 
-- 
2.43.0


From 82be29124f9f6bc19f6e2d3aebd4d0fb52efeda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:15 +0000
Subject: [PATCH 46/75] fix: msr3_pack_header2() does not check the buffer
 length for the fixed header and blockettes 1000, 1001 and 100

---
 libmseed/pack.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index beb2042..e308b4b 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1001,6 +1001,14 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
     ehroot = yyjson_doc_get_root (ehdoc);
   }
 
+  /* Check that the fixed header and mandatory blockette 1000 fit */
+  if (recbuflen < 56)
+  {
+    ms_log (2, "%s: Buffer length (%u) is not large enough for header\n", msr->sid, recbuflen);
+    yyjson_doc_free (ehdoc);
+    return -1;
+  }
+
   /* Build fixed header */
   memcpy (pMS2FSDH_SEQNUM (record), "000000", 6);
 
@@ -1138,6 +1146,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   /* Add Blockette 1001 if microsecond offset or timing quality is present */
   if (yyjson_ptr_get_uint (ehroot, "/FDSN/Time/Quality", &header_uint) || msec_offset)
   {
+    if ((recbuflen - written) < 8)
+    {
+      ms_log (2, "%s: Record length not large enough for B1001\n", msr->sid);
+      yyjson_doc_free (ehdoc);
+      return -1;
+    }
+
     *next_blockette = HO2u ((uint16_t)written, swapflag);
     next_blockette = pMS2B1001_NEXT (record + written);
     *pMS2FSDH_NUMBLOCKETTES (record) += 1;
@@ -1160,6 +1175,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   /* Add Blockette 100 if sample rate is not well represented by factor/multiplier */
   if (fabs(msr3_sampratehz(msr) - ms_nomsamprate(factor, multiplier)) > 0.0001)
   {
+    if ((recbuflen - written) < 12)
+    {
+      ms_log (2, "%s: Record length not large enough for B100\n", msr->sid);
+      yyjson_doc_free (ehdoc);
+      return -1;
+    }
+
     *next_blockette = HO2u ((uint16_t)written, swapflag);
     next_blockette = pMS2B100_NEXT (record + written);
     *pMS2FSDH_NUMBLOCKETTES (record) += 1;
-- 
2.43.0


From 7faa841cf604885a63500e4955c579a4dbec0e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:15 +0000
Subject: [PATCH 47/75] fix: more than 6 MEDSNR values are written beyond the
 blockette 201 field

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index e308b4b..52ea399 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1359,7 +1359,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
         {
           yyjson_arr_iter_init (ehsubarr, &ehsubiter);
 
-          while ((ehsubiterval = yyjson_arr_iter_next (&ehsubiter)))
+          while (idx < 6 && (ehsubiterval = yyjson_arr_iter_next (&ehsubiter)))
           {
             if (!yyjson_is_num (ehsubiterval))
               continue;
-- 
2.43.0


From baa076e06cb0fd218d0086fee3cf4faef2dc67e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:15 +0000
Subject: [PATCH 48/75] fix: msr3_repack_mseed3() does not count the identifier
 when checking the buffer length

---
 libmseed/pack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 52ea399..954b4b1 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -441,10 +441,10 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
     return -1;
   }
 
-  if (recbuflen < (uint32_t)(MS3FSDH_LENGTH + msr->extralength + origdatasize))
+  if (recbuflen - (uint32_t)dataoffset < origdatasize)
   {
-    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%d)\n",
-            msr->sid, recbuflen, (MS3FSDH_LENGTH + msr->extralength + origdatasize));
+    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%u)\n",
+            msr->sid, recbuflen, dataoffset + origdatasize);
     return -1;
   }
 
-- 
2.43.0


From bb46c96d60b29227987630acb99dd777a95b0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:02 +0000
Subject: [PATCH 49/75] fix: msi parameter processing leaks its list file, list
 entry and patterns

---
 src/msi.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index bc71876..a2d466d 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -389,8 +389,8 @@ processparam (int argcount, char **argvec)
 {
   int optind;
   int timeformat_option = -1;
-  char *match_pattern = NULL;
-  char *reject_pattern = NULL;
+  const char *match_pattern = NULL;
+  const char *reject_pattern = NULL;
   char *tptr;
 
   /* Process all command line arguments */
@@ -436,11 +436,11 @@ processparam (int argcount, char **argvec)
     }
     else if (strcmp (argvec[optind], "-m") == 0)
     {
-      match_pattern = strdup (getoptval (argcount, argvec, optind++));
+      match_pattern = getoptval (argcount, argvec, optind++);
     }
     else if (strcmp (argvec[optind], "-r") == 0)
     {
-      reject_pattern = strdup (getoptval (argcount, argvec, optind++));
+      reject_pattern = getoptval (argcount, argvec, optind++);
     }
     else if (strcmp (argvec[optind], "-n") == 0)
     {
@@ -741,6 +741,7 @@ addfile (char *filename)
   if (!newlp->filename)
   {
     ms_log (2, "addfile(): Cannot duplicate string\n");
+    free (newlp);
     return -1;
   }
 
@@ -802,7 +803,10 @@ addlistfile (char *filename)
       ms_log (1, "Adding '%s' from list file\n", filelistent);
 
     if (addfile (filelistent))
+    {
+      fclose (fp);
       return -1;
+    }
 
     filecount++;
   }
-- 
2.43.0


From d06456f24ad228a9c4fdba1e7c6fae7c847edbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:02 +0000
Subject: [PATCH 50/75] fix: msi reports output files that cannot be written or
 finished

---
 src/msi.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index a2d466d..16ebba0 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -316,7 +316,13 @@ main (int argc, char **argv)
 
           if (samplesize)
           {
-            fwrite (msr->datasamples, samplesize, msr->numsamples, bfp);
+            if (fwrite (msr->datasamples, samplesize, msr->numsamples, bfp) != (size_t)msr->numsamples)
+            {
+              ms_log (2, "Cannot write to binary data output file: %s (%s)\n",
+                      binfile, strerror (errno));
+              ms3_readmsr_r (&msfp, &msr, NULL, 0, 0);
+              return 1;
+            }
           }
           else
           {
@@ -328,7 +334,13 @@ main (int argc, char **argv)
 
       if (outfile)
       {
-        fwrite (msr->record, 1, msr->reclen, ofp);
+        if (fwrite (msr->record, 1, msr->reclen, ofp) != (size_t)msr->reclen)
+        {
+          ms_log (2, "Cannot write to output file: %s (%s)\n",
+                  outfile, strerror (errno));
+          ms3_readmsr_r (&msfp, &msr, NULL, 0, 0);
+          return 1;
+        }
       }
     }
 
@@ -346,11 +358,19 @@ main (int argc, char **argv)
     flp = flp->next;
   } /* End of looping over file list */
 
-  if (binfile)
-    fclose (bfp);
+  if (binfile && fclose (bfp))
+  {
+    ms_log (2, "Cannot finish binary data output file: %s (%s)\n",
+            binfile, strerror (errno));
+    return 1;
+  }
 
-  if (outfile)
-    fclose (ofp);
+  if (outfile && fclose (ofp))
+  {
+    ms_log (2, "Cannot finish output file: %s (%s)\n",
+            outfile, strerror (errno));
+    return 1;
+  }
 
   if (basicsum)
     ms_log (0, "Files: %" PRId64 ", Records: %" PRId64 ", Samples: %" PRId64 "\n",
-- 
2.43.0


From dc0d2e41995907bbf801a9781cf496238f60ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:39 +0000
Subject: [PATCH 51/75] fix: msi reports records that cannot be added to a
 trace list or unpacked

---
 src/msi.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index 16ebba0..f1eded4 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -81,6 +81,7 @@ main (int argc, char **argv)
   FILE *bfp = 0;
   FILE *ofp = 0;
   int retcode = MS_NOERROR;
+  int status = 0; /* Exit status, non-zero when a record could not be processed */
 
   uint32_t flags = 0;
   int dataflag = 0;
@@ -238,12 +239,24 @@ main (int argc, char **argv)
       }
 
       if (tracegapsum || tracegaponly)
-        mstl3_addmsr (mstl, msr, splitversion, flags, 1, &tolerance);
+      {
+        if (!mstl3_addmsr (mstl, msr, splitversion, 1, flags, &tolerance))
+        {
+          ms_log (2, "%s: Cannot add record to trace list\n", msr->sid);
+          status = 1;
+        }
+      }
 
       if (dataflag)
       {
         /* Parse the record (again) and unpack the data */
-        int unpacked = msr3_unpack_data (msr, verbose);
+        int64_t unpacked = msr3_unpack_data (msr, verbose);
+
+        if (unpacked < 0)
+        {
+          ms_log (2, "%s: Cannot unpack data samples\n", msr->sid);
+          status = 1;
+        }
 
         if (unpacked > 0 && printdata && !tracegaponly)
         {
@@ -395,7 +408,7 @@ main (int argc, char **argv)
   if (mstl)
     mstl3_free (&mstl, 0);
 
-  return 0;
+  return status;
 } /* End of main() */
 
 /***************************************************************************
-- 
2.43.0


From 6f17ff8c521a5340c069af34fe9fcafb92edb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 52/75] fix: ms3_shift_msfp() never refuses an invalid shift

---
 libmseed/fileutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 15333eb..c4f3cda 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -165,7 +165,7 @@ ms3_shift_msfp (MS3FileParam *msfp, int shift)
     return;
   }
 
-  if (shift <= 0 && shift > msfp->readlength)
+  if (shift <= 0 || shift > msfp->readlength)
   {
     ms_log (2, "Cannot shift buffer, shift: %d, readlength: %d, readoffset: %d\n",
             shift, msfp->readlength, msfp->readoffset);
-- 
2.43.0


From 675ec26e47d7a43d45a3dc1e3f1a185d9a8225d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 53/75] fix: msr3_writemseed() and mstl3_writemseed() report
 data that could not be written

---
 libmseed/fileutils.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index c4f3cda..b44e079 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -864,6 +864,7 @@ ms3_url_freeheaders (void)
 static void
 ms_record_handler_int (char *record, int reclen, void *ofp)
 {
+  /* A failed write is left in the stream's error indicator for the writing routine */
   if (fwrite (record, reclen, 1, (FILE *)ofp) != 1)
   {
     ms_log (2, "Error writing to output file\n");
@@ -902,6 +903,7 @@ msr3_writemseed (MS3Record *msr, const char *mspath, int8_t overwrite,
   FILE *ofp;
   const char *perms     = (overwrite) ? "wb" : "ab";
   int64_t packedrecords = 0;
+  int writeerror        = 0;
 
   if (!msr || !mspath)
   {
@@ -923,8 +925,14 @@ msr3_writemseed (MS3Record *msr, const char *mspath, int8_t overwrite,
   /* Pack the MS3Record */
   packedrecords = msr3_pack (msr, &ms_record_handler_int, ofp, NULL, flags, verbose - 1);
 
-  /* Close file and return record count */
-  fclose (ofp);
+  /* Close file and return record count, data that was not written is an error */
+  writeerror = ferror (ofp);
+
+  if (fclose (ofp) || writeerror)
+  {
+    ms_log (2, "Cannot write to output file %s\n", mspath);
+    return -1;
+  }
 
   return packedrecords;
 } /* End of msr3_writemseed() */
@@ -963,6 +971,7 @@ mstl3_writemseed (MS3TraceList *mstl, const char *mspath, int8_t overwrite,
   FILE *ofp;
   const char *perms     = (overwrite) ? "wb" : "ab";
   int64_t packedrecords = 0;
+  int writeerror        = 0;
 
   if (!mstl || !mspath)
   {
@@ -990,8 +999,14 @@ mstl3_writemseed (MS3TraceList *mstl, const char *mspath, int8_t overwrite,
   packedrecords = mstl3_pack (mstl, &ms_record_handler_int, ofp, maxreclen,
                               encoding, NULL, flags, verbose, NULL);
 
-  /* Close file and return record count */
-  fclose (ofp);
+  /* Close file and return record count, data that was not written is an error */
+  writeerror = ferror (ofp);
+
+  if (fclose (ofp) || writeerror)
+  {
+    ms_log (2, "Cannot write to output file %s\n", mspath);
+    return -1;
+  }
 
   return packedrecords;
 } /* End of mstl3_writemseed() */
-- 
2.43.0


From f02970841f61bda79a72e873acf135c5af3c23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 54/75] fix: a failed read that also ended the stream shortens
 the read buffer

---
 libmseed/fileutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index b44e079..efb15c7 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -406,7 +406,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       /* Read data into record buffer */
       readcount = (int)msio_fread (&msfp->input, msfp->readbuffer + msfp->readlength, readsize);
 
-      if (readcount <= 0 && !msio_feof (&msfp->input))
+      if (readcount < 0 || (readcount == 0 && !msio_feof (&msfp->input)))
       {
         ms_log (2, "Error reading %s at offset %" PRId64 "\n", msfp->path, msfp->streampos);
         retcode = MS_GENERROR;
-- 
2.43.0


From 2673c95b4aea77c234b1850914e6dee53710ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 55/75] fix: msr3_duplicate() does not terminate the copied
 extra headers

---
 libmseed/msrutils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 3837f5a..b4867eb 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -146,7 +146,7 @@ msr3_duplicate (const MS3Record *msr, int8_t datadup)
   if (msr->extralength > 0 && msr->extra)
   {
     /* Allocate memory for new FSDH structure */
-    if ((dupmsr->extra = (char *)libmseed_memory.malloc (msr->extralength)) == NULL)
+    if ((dupmsr->extra = (char *)libmseed_memory.malloc ((size_t)msr->extralength + 1)) == NULL)
     {
       ms_log (2, "Error allocating memory\n");
       msr3_free (&dupmsr);
@@ -154,6 +154,7 @@ msr3_duplicate (const MS3Record *msr, int8_t datadup)
     }
 
     memcpy (dupmsr->extra, msr->extra, msr->extralength);
+    dupmsr->extra[msr->extralength] = '\0';
 
     if (dupmsr->extra)
       dupmsr->extralength = msr->extralength;
-- 
2.43.0


From 96a63b5e5b436b296d876338abd768661c7e798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 56/75] fix: msio_fopen() releases its handles on errors and
 msio_fclose() never leaves a closed stream

---
 libmseed/msio.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index e1549df..91ea380 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -242,6 +242,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     if (libmseed_url_debug && curl_easy_setopt (io->handle, CURLOPT_VERBOSE, 1L) != CURLE_OK)
     {
       ms_log (2, "Cannot set CURLOPT_VERBOSE\n");
+      msio_fclose (io);
       return -1;
     }
 
@@ -251,6 +252,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
          curl_easy_setopt (io->handle, CURLOPT_SSL_VERIFYHOST, 0L) != CURLE_OK))
     {
       ms_log (2, "Cannot set CURLOPT_SSL_VERIFYPEER and/or CURLOPT_SSL_VERIFYHOST\n");
+      msio_fclose (io);
       return -1;
     }
 
@@ -258,6 +260,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     if (curl_easy_setopt (io->handle, CURLOPT_URL, path) != CURLE_OK)
     {
       ms_log (2, "Cannot set CURLOPT_URL\n");
+      msio_fclose (io);
       return -1;
     }
 
@@ -266,6 +269,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
                           "libmseed/" LIBMSEED_VERSION " libcurl/" LIBCURL_VERSION) != CURLE_OK)
     {
       ms_log (2, "Cannot set default CURLOPT_USERAGENT\n");
+      msio_fclose (io);
       return -1;
     }
 
@@ -273,6 +277,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     if (curl_easy_setopt (io->handle, CURLOPT_NOSIGNAL, 1L) != CURLE_OK)
     {
       ms_log (2, "Cannot set CURLOPT_NOSIGNAL\n");
+      msio_fclose (io);
       return -1;
     }
 
@@ -280,6 +285,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     if (curl_easy_setopt (io->handle, CURLOPT_FAILONERROR, 1L) != CURLE_OK)
     {
       ms_log (2, "Cannot set CURLOPT_FAILONERROR\n");
+      msio_fclose (io);
       return -1;
     }
 
@@ -287,6 +293,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     if (curl_easy_setopt (io->handle, CURLOPT_FOLLOWLOCATION, 1L) != CURLE_OK)
     {
       ms_log (2, "Cannot set CURLOPT_FOLLOWLOCATION\n");
+      msio_fclose (io);
       return -1;
     }
 
@@ -294,6 +301,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     if (curl_easy_setopt (io->handle, CURLOPT_WRITEFUNCTION, recv_callback) != CURLE_OK)
     {
       ms_log (2, "Cannot set CURLOPT_WRITEFUNCTION\n");
+      msio_fclose (io);
       return -1;
     }
 
@@ -301,12 +309,14 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     if ((io->handle2 = curl_multi_init ()) == NULL)
     {
       ms_log (2, "Cannot initialize CURL multi handle\n");
+      msio_fclose (io);
       return -1;
     }
 
     if (curl_multi_add_handle (io->handle2, io->handle) != CURLM_OK)
     {
       ms_log (2, "Cannot add CURL handle to multi handle\n");
+      msio_fclose (io);
       return -1;
     }
 
@@ -332,6 +342,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       if (curl_easy_setopt (io->handle, CURLOPT_RANGE, rangestr) != CURLE_OK)
       {
         ms_log (2, "Cannot set CURLOPT_RANGE to '%s'\n", rangestr);
+        msio_fclose (io);
         return -1;
       }
     }
@@ -346,12 +357,14 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       if (curl_easy_setopt (io->handle, CURLOPT_HEADERFUNCTION, header_callback) != CURLE_OK)
       {
         ms_log (2, "Cannot set CURLOPT_HEADERFUNCTION\n");
+        msio_fclose (io);
         return -1;
       }
 
       if (curl_easy_setopt (io->handle, CURLOPT_HEADERDATA, (void *)&hcp) != CURLE_OK)
       {
         ms_log (2, "Cannot set CURLOPT_HEADERDATA\n");
+        msio_fclose (io);
         return -1;
       }
     }
@@ -360,6 +373,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     if (gCURLheaders && curl_easy_setopt (io->handle, CURLOPT_HTTPHEADER, gCURLheaders) != CURLE_OK)
     {
       ms_log (2, "Cannot set CURLOPT_HTTPHEADER\n");
+      msio_fclose (io);
       return -1;
     }
 
@@ -374,11 +388,13 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     if (response_code == 404)
     {
       ms_log (2, "Cannot open %s: Not Found (404)\n", path);
+      msio_fclose (io);
       return -1;
     }
     else if (response_code >= 400 && response_code < 600)
     {
       ms_log (2, "Cannot open %s: response code %ld\n", path, response_code);
+      msio_fclose (io);
       return -1;
     }
 #endif /* defined(LIBMSEED_URL) */
@@ -399,6 +415,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       if (lmp_fseek64 (io->handle, *startoffset, SEEK_SET))
       {
         ms_log (2, "Cannot seek in %s to offset %" PRId64 "\n", path, *startoffset);
+        msio_fclose (io);
         return -1;
       }
     }
@@ -434,6 +451,9 @@ msio_fclose (LMIO *io)
   {
     rv = fclose (io->handle);
 
+    /* The stream is released even when closing it fails */
+    io->handle = NULL;
+
     if (rv)
     {
       ms_log (2, "Error closing file (%s)\n", strerror (errno));
-- 
2.43.0


From f4399079a557d29ec7cd4666f947d90dde16a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 57/75] fix: msio_fopen() reads an offset that was not supplied

---
 libmseed/msio.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 91ea380..c5d9200 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -329,11 +329,11 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
 
       /* Build Range header value.
        * If start is undefined set it to zero if end is defined. */
-      if (*startoffset > 0)
+      if (startoffset && *startoffset > 0)
         snprintf (startstr, sizeof (startstr), "%" PRId64, *startoffset);
-      else if (*endoffset > 0)
+      else if (endoffset && *endoffset > 0)
         snprintf (startstr, sizeof (startstr), "0");
-      if (*endoffset > 0)
+      if (endoffset && *endoffset > 0)
         snprintf (endstr, sizeof (endstr), "%" PRId64, *endoffset);
 
       snprintf (rangestr, sizeof (rangestr), "%s-%s", startstr, endstr);
-- 
2.43.0


From 39d48b2786c94295c0b072be2bc3df4a6e552321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 58/75] fix: failed transfers are reported and the header
 callback parameters do not outlive msio_fopen()

---
 libmseed/msio.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index c5d9200..e2a1e69 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -206,7 +206,8 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     ms_log (2, "URL support not included in library for %s\n", path);
     return -1;
 #else
-    long response_code;
+    long response_code = 0;
+    int rv;
     struct header_callback_parameters hcp;
 
     io->type = LMIO_URL;
@@ -381,7 +382,16 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     io->still_running = 1;
 
     /* Start connection, get status & headers, without consuming any data */
-    msio_fread (io, NULL, 0);
+    rv = (msio_fread (io, NULL, 0) == (size_t)-1) ? -1 : 0;
+
+    /* The header callback parameters do not outlive this call */
+    if (curl_easy_setopt (io->handle, CURLOPT_HEADERFUNCTION, NULL) != CURLE_OK ||
+        curl_easy_setopt (io->handle, CURLOPT_HEADERDATA, NULL) != CURLE_OK)
+    {
+      ms_log (2, "Cannot reset CURLOPT_HEADERFUNCTION and/or CURLOPT_HEADERDATA\n");
+      msio_fclose (io);
+      return -1;
+    }
 
     curl_easy_getinfo (io->handle, CURLINFO_RESPONSE_CODE, &response_code);
 
@@ -397,6 +407,12 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       msio_fclose (io);
       return -1;
     }
+    else if (rv)
+    {
+      ms_log (2, "Cannot open %s\n", path);
+      msio_fclose (io);
+      return -1;
+    }
 #endif /* defined(LIBMSEED_URL) */
   }
   else
@@ -528,7 +544,9 @@ msio_fread (LMIO *io, void *buffer, size_t size)
     fd_set fdexcep;
     long curl_timeo = -1;
     int maxfd       = -1;
+    int remaining   = 0;
     int rc;
+    CURLMsg *message;
 
     if (!io->still_running)
       return 0;
@@ -591,10 +609,24 @@ msio_fread (LMIO *io, void *buffer, size_t size)
       /* Receive data */
       if (rc >= 0)
       {
-        curl_multi_perform (io->handle2, &io->still_running);
+        if (curl_multi_perform (io->handle2, &io->still_running) != CURLM_OK)
+        {
+          ms_log (2, "Error with curl_multi_perform()\n");
+          return -1;
+        }
       }
     } while (io->still_running > 0 && !rcp.is_paused && (rcp.size > 0 || rcp.buffer == NULL));
 
+    /* A transfer that ended with an error is not the end of the stream */
+    while ((message = curl_multi_info_read (io->handle2, &remaining)))
+    {
+      if (message->msg == CURLMSG_DONE && message->data.result != CURLE_OK)
+      {
+        ms_log (2, "Error with transfer: %s\n", curl_easy_strerror (message->data.result));
+        return -1;
+      }
+    }
+
     read = size - rcp.size;
 
 #endif /* defined(LIBMSEED_URL) */
-- 
2.43.0


From 2ba27a593ea02c463f76f0d4da7d63041b145937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 59/75] fix: lmp_nanosleep() reads the remaining time only when
 it is set

---
 libmseed/msio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index e2a1e69..41599b3 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -871,7 +871,8 @@ lmp_nanosleep (uint64_t nanoseconds)
   return 0;
 #else
 
-  struct timespec treq, trem;
+  struct timespec treq;
+  struct timespec trem = {0, 0};
 
   treq.tv_sec  = (time_t) (nanoseconds / 1e9);
   treq.tv_nsec = (long)(nanoseconds - (uint64_t)treq.tv_sec * 1e9);
-- 
2.43.0


From 9773f91d36b43be3be5a292cf1c4178436b642c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:11 +0000
Subject: [PATCH 60/75] fix: the count of stored log messages follows the list
 and ms_rlog_emit() returns the count emitted

---
 libmseed/logging.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index e6cab6b..a0315ee 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -494,7 +494,10 @@ add_message_int (MSLogRegistry *logreg, const char *function, int level,
         logentry->next = NULL;
 
       if (count > logreg->maxmessages)
+      {
         libmseed_memory.free (logentry);
+        logreg->messagecnt -= 1;
+      }
 
       logentry = lognext;
     }
@@ -579,6 +582,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   char local_message[MAX_LOG_MSG_LENGTH];
   char *message = NULL;
   int emit = (count > 0) ? count : -1;
+  int emitted = 0;
 
   if (!logp)
     logp = &gMSLogParam;
@@ -588,6 +592,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   while (logentry && emit)
   {
     logp->registry.messages = logentry->next;
+    logp->registry.messagecnt -= 1;
 
     logentry->next = logprint;
     logprint = logentry;
@@ -621,9 +626,10 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
     logentry = logprint->next;
     libmseed_memory.free (logprint);
     logprint = logentry;
+    emitted++;
   }
 
-  return 0;
+  return emitted;
 } /* End of ms_rlog_emit() */
 
 
@@ -651,6 +657,7 @@ ms_rlog_free (MSLogParam *logp)
     freed++;
 
     logp->registry.messages = logentry->next;
+    logp->registry.messagecnt -= 1;
     libmseed_memory.free (logentry);
     logentry = logp->registry.messages;
   }
-- 
2.43.0


From 16bba064e00860ac54d38420d27b546d6b01cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:37 +0000
Subject: [PATCH 61/75] fix: healing a gap leaves the first segment pointer on
 a released segment

---
 libmseed/tracelist.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index ac5ba56..5b95503 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -641,7 +641,9 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
             return NULL;
           }
 
-          /* Shift last segment pointer if it's going to be removed */
+          /* Shift first and last segment pointers if going to be removed */
+          if (segafter == id->first)
+            id->first = id->first->next;
           if (segafter == id->last)
             id->last = id->last->prev;
 
-- 
2.43.0


From 1811e1d6f59ebd3b7563775141f56e97c3e2d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 62/75] fix: a failed growth of segment samples leaves a buffer
 size that does not match the buffer

---
 libmseed/tracelist.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 5b95503..66b73d8 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1136,22 +1136,21 @@ mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int
     {
       size_t current_size = seg->datasize;
       newdatasamples = libmseed_memory_prealloc (seg->datasamples, newdatasize, &current_size);
-      seg->datasize = current_size;
+      newdatasize = current_size;
     }
     else
     {
       newdatasamples = libmseed_memory.realloc (seg->datasamples, newdatasize);
-      seg->datasize = newdatasize;
     }
 
     if (!newdatasamples)
     {
       ms_log (2, "Error allocating memory\n");
-      seg->datasize = 0;
       return NULL;
     }
 
     seg->datasamples = newdatasamples;
+    seg->datasize = newdatasize;
   }
 
   /* Add coverage to end of segment */
@@ -1239,22 +1238,21 @@ mstl3_addsegtoseg (MS3TraceSeg *seg1, MS3TraceSeg *seg2)
     {
       size_t current_size = seg1->datasize;
       newdatasamples = libmseed_memory_prealloc (seg1->datasamples, newdatasize, &current_size);
-      seg1->datasize = current_size;
+      newdatasize = current_size;
     }
     else
     {
       newdatasamples = libmseed_memory.realloc (seg1->datasamples, newdatasize);
-      seg1->datasize = newdatasize;
     }
 
     if (!newdatasamples)
     {
       ms_log (2, "Error allocating memory\n");
-      seg1->datasize = 0;
       return NULL;
     }
 
     seg1->datasamples = newdatasamples;
+    seg1->datasize = newdatasize;
   }
 
   /* Add seg2 coverage to end of seg1 */
-- 
2.43.0


From 86cfa08d40a10064175396a533864d7f6f92c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 63/75] fix: mstl3_printsynclist() prints the codes of another
 trace when an identifier cannot be parsed

---
 libmseed/tracelist.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 66b73d8..3342837 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2374,7 +2374,9 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   id = mstl->traces.next[0];
   while (id)
   {
-    ms_sid2nslc (id->sid, net, sta, loc, chan);
+    /* Identifiers that cannot be parsed have no codes */
+    if (ms_sid2nslc (id->sid, net, sta, loc, chan))
+      net[0] = sta[0] = loc[0] = chan[0] = '\0';
 
     /* Loop through segment list */
     seg = id->first;
-- 
2.43.0


From de1100c4148b98660445d3edb2672f37ed5f1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:49 +0000
Subject: [PATCH 64/75] fix: mseh_set_ptr_r() removes the header and succeeds
 when the new value cannot be allocated

---
 libmseed/extraheaders.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 056d6b9..1906f6c 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -324,6 +324,7 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   yyjson_mut_val *merged_val = NULL;
   yyjson_mut_val *target_val = NULL;
   yyjson_mut_val *array_val = NULL;
+  yyjson_mut_val *new_val = NULL;
   bool rv = false;
 
   if (!msr || !ptr || !value)
@@ -393,20 +394,20 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   switch (type)
   {
   case 'n':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_real (parsed->mut_doc, *((double *)value)));
+    new_val = yyjson_mut_real (parsed->mut_doc, *((double *)value));
+    rv = (new_val) ? yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val) : false;
     break;
   case 'i':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_sint (parsed->mut_doc, *((int64_t *)value)));
+    new_val = yyjson_mut_sint (parsed->mut_doc, *((int64_t *)value));
+    rv = (new_val) ? yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val) : false;
     break;
   case 's':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_strcpy (parsed->mut_doc, (const char *)value));
+    new_val = yyjson_mut_strcpy (parsed->mut_doc, (const char *)value);
+    rv = (new_val) ? yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val) : false;
     break;
   case 'b':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_bool (parsed->mut_doc, *((int *)value) ? true : false));
+    new_val = yyjson_mut_bool (parsed->mut_doc, *((int *)value) ? true : false);
+    rv = (new_val) ? yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val) : false;
     break;
   case 'M':
     /* Parse supplied patch */
@@ -438,8 +439,8 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
 
     break;
   case 'V':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value));
+    new_val = yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value);
+    rv = (new_val) ? yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val) : false;
     break;
   case 'A':
     /* Search for existing array, create if necessary */
-- 
2.43.0


From df271041c931e9319ad443a7393c1e8838f5548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 65/75] fix: msio_fopen() and msio_url_userpassword() fail
 without the documented message

---
 libmseed/msio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 41599b3..3cb6356 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -186,7 +186,10 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
   int knownfile = 0;
 
   if (!io || !path)
+  {
+    ms_log (2, "%s(): Required input not defined: 'io' or 'path'\n", __func__);
     return -1;
+  }
 
   if (!mode)
     mode = "rb";
@@ -737,7 +740,10 @@ msio_url_userpassword (const char *userpassword)
   return -1;
 #else
   if (gCURLeasy == NULL && (gCURLeasy = curl_easy_init ()) == NULL)
+  {
+    ms_log (2, "Cannot initialize CURL handle\n");
     return -1;
+  }
 
   /* Allow any authentication, libcurl will pick the most secure */
   if (curl_easy_setopt (gCURLeasy, CURLOPT_HTTPAUTH, CURLAUTH_ANY) != CURLE_OK)
-- 
2.43.0


From f391f96e0f23c102a6a441283a2edfe35b20fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:23 +0000
Subject: [PATCH 66/75] fix: mseh_set_ptr_r() fails without the documented
 message

---
 libmseed/extraheaders.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 1906f6c..cdcaa41 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -464,6 +464,11 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
     rv = false;
   }
 
+  if (rv == false)
+  {
+    ms_log (2, "%s() Cannot set extra header value at %s\n", __func__, ptr);
+  }
+
   /* Serialized extra headers and free parse state if not being retained */
   if (parsestate == NULL)
   {
-- 
2.43.0


From becf6e6e069f41f6ec355845147a6381d3cc5fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 67/75] fix: msr3_unpack_data() leaves a stale sample count
 when decoding fails

---
 libmseed/unpack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 2fd333a..5001dc1 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1320,8 +1320,8 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
   if (encoded_allocated)
     libmseed_memory.free (encoded_allocated);
 
-  if (nsamples > 0)
-    msr->numsamples = nsamples;
+  /* The buffer holds no samples if decoding failed */
+  msr->numsamples = (nsamples > 0) ? nsamples : 0;
 
   return nsamples;
 } /* End of msr3_unpack_data() */
-- 
2.43.0


From b2be390bffecba65ed906f23b41bf6b0a0cfa76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:58 +0000
Subject: [PATCH 68/75] fix: mstl3_unpack_recordlist() leaves a stale sample
 count when the buffer is released

---
 libmseed/tracelist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 3342837..b79b9cf 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1927,6 +1927,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       libmseed_memory.free (output);
       seg->datasamples = NULL;
       seg->datasize    = 0;
+      seg->numsamples  = 0;
     }
     else
     {
-- 
2.43.0


From 7ec268c14b1901ef52de62509a3797321bb6e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:32 +0000
Subject: [PATCH 69/75] fix: ms3_detect() byte-swap version 3 length fields on
 big-endian hosts

---
 libmseed/parseutils.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index c233c4b..81df8dc 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -204,10 +204,13 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 3;
 
-    reclen = (int64_t)MS3FSDH_LENGTH          /* Length of fixed portion of header */
-             + *pMS3FSDH_SIDLENGTH (record)   /* Length of source identifier */
-             + *pMS3FSDH_EXTRALENGTH (record) /* Length of extra headers */
-             + *pMS3FSDH_DATALENGTH (record); /* Length of data payload */
+    /* Multi-byte fields of version 3 headers are always little-endian */
+    swapflag = (ms_bigendianhost ()) ? 1 : 0;
+
+    reclen = (int64_t)MS3FSDH_LENGTH                          /* Length of fixed portion of header */
+             + *pMS3FSDH_SIDLENGTH (record)                   /* Length of source identifier */
+             + HO2u (*pMS3FSDH_EXTRALENGTH (record), swapflag) /* Length of extra headers */
+             + HO4u (*pMS3FSDH_DATALENGTH (record), swapflag); /* Length of data payload */
 
     foundlen = 1;
   }
-- 
2.43.0


From b6281b07d08cf55d4ffaac584c981446a1bc4948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:40 +0000
Subject: [PATCH 70/75] fix: round negative time corrections to the nearest
 unit when packing version 2

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 954b4b1..28f7612 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1113,7 +1113,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
   if (yyjson_ptr_get_num (ehroot, "/FDSN/Time/Correction", &header_number))
   {
-    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + 0.5), swapflag);
+    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + ((header_number < 0) ? -0.5 : 0.5)), swapflag);
 
     /* Set time correction applied bit in activity flags.
        Rationale: V3 records do not allow unapplied time corrections and unapplied
-- 
2.43.0


From dfd37b9198bd02070dbd1aa5d33fa81b3c072c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:48 +0000
Subject: [PATCH 71/75] fix: accept the calibration type ABORT, produced on
 unpacking blockette 395, when packing version 2

---
 libmseed/pack.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 28f7612..893efcd 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1418,6 +1418,11 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
           blockette_type   = 390;
           blockette_length = 28;
         }
+        else if (strncasecmp (header_string, "ABORT", 5) == 0)
+        {
+          blockette_type   = 395;
+          blockette_length = 16;
+        }
       }
       else if (yyjson_ptr_get (ehiterval, "/EndTime"))
       {
-- 
2.43.0


From 3295a4217ef07923c0f766ee8fed6847635f6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:09 +0000
Subject: [PATCH 72/75] fix: read the detection wave of blockette 200 unless
 bit 2 marks it undetermined

---
 libmseed/unpack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 5001dc1..02f9eee 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -470,8 +470,8 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       eventdetection.signalperiod = HO4f (*pMS2B200_PERIOD (record + blkt_offset), msr->swapflag);
       eventdetection.backgroundestimate = HO4f (*pMS2B200_BACKGROUNDEST (record + blkt_offset), msr->swapflag);
 
-      /* If bit 2 is set, set compression wave according to bit 0 */
-      if (*pMS2B200_FLAGS (record + blkt_offset) & 0x04)
+      /* Unless bit 2 is set (bit 0 is undetermined), set compression wave according to bit 0 */
+      if (!(*pMS2B200_FLAGS (record + blkt_offset) & 0x04))
       {
         if (*pMS2B200_FLAGS (record + blkt_offset) & 0x01)
           strncpy (eventdetection.wave, "DILATATION", sizeof (eventdetection.wave));
-- 
2.43.0


From 03501d4605eecda746a6ae5a4a97d9abcd399e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:47 +0000
Subject: [PATCH 73/75] fix: repacking a version 2 record converts its payload
 to the byte order of version 3

---
 libmseed/pack.c | 54 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 893efcd..8bd423e 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -402,6 +402,10 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   uint32_t origdatasize;
   uint32_t crc;
   uint32_t reclen;
+  uint32_t valuesize;
+  uint32_t idx;
+  char *value;
+  char byte;
   int8_t swapflag;
 
   if (!msr || !msr->record || ! record)
@@ -456,6 +460,56 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   /* Check to see if byte swapping is needed, miniSEED 3 is little endian */
   swapflag = (ms_bigendianhost ()) ? 1 : 0;
 
+  /* Convert encoded data to the byte order of miniSEED 3 if different in the original:
+     Steim encodings are big endian, all other encodings are little endian */
+  if (msr->encoding == DE_STEIM1 || msr->encoding == DE_STEIM2)
+  {
+    if (((msr->swapflag & MSSWAP_PAYLOAD) ? 1 : 0) == swapflag)
+    {
+      ms_log (2, "%s: Cannot repack Steim encoded data that is not big endian\n", msr->sid);
+      return -1;
+    }
+  }
+  else if (((msr->swapflag & MSSWAP_PAYLOAD) ? 1 : 0) != swapflag)
+  {
+    switch (msr->encoding)
+    {
+    case DE_INT16:
+    case DE_GEOSCOPE163:
+    case DE_GEOSCOPE164:
+    case DE_CDSN:
+    case DE_SRO:
+    case DE_DWWSSN:
+      valuesize = 2;
+      break;
+    case DE_GEOSCOPE24:
+      valuesize = 3;
+      break;
+    case DE_INT32:
+    case DE_FLOAT32:
+      valuesize = 4;
+      break;
+    case DE_FLOAT64:
+      valuesize = 8;
+      break;
+    default:
+      valuesize = 1;
+      break;
+    }
+
+    for (value = record + dataoffset;
+         valuesize > 1 && (uint32_t)(value - record) + valuesize <= reclen;
+         value += valuesize)
+    {
+      for (idx = 0; idx < valuesize / 2; idx++)
+      {
+        byte = value[idx];
+        value[idx] = value[valuesize - 1 - idx];
+        value[valuesize - 1 - idx] = byte;
+      }
+    }
+  }
+
   /* Update number of samples and data length */
   *pMS3FSDH_NUMSAMPLES(record) = HO4u ((uint32_t)msr->samplecnt, swapflag);
   *pMS3FSDH_DATALENGTH(record) = HO4u (origdatasize, swapflag);
-- 
2.43.0


From ae1cc78a07f2b6f67ee9b722719e9747d4152f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 74/75] fix: GEOSCOPE 24-bit samples in the byte order of a
 little-endian host are decoded to their value

---
 libmseed/unpackdata.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index 53c522d..62f652a 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -630,6 +630,7 @@ msr_decode_geoscope (char *input, uint64_t inputlength, uint64_t samplecount,
   int32_t gainrange; /* gain range factor */
   int32_t exponent;  /* total exponent */
   int32_t k;
+  int32_t lowbyte = (ms_bigendianhost ()) ? 1 : 0; /* first byte of 24 low-order bits */
   uint64_t exp2val;
   int16_t sint;
   double dsample = 0.0;
@@ -663,10 +664,10 @@ msr_decode_geoscope (char *input, uint64_t inputlength, uint64_t samplecount,
       sample32.i = 0;
       if (swapflag)
         for (k = 0; k < 3; k++)
-          sample32.b[2 - k] = input[k];
+          sample32.b[lowbyte + 2 - k] = input[k];
       else
         for (k = 0; k < 3; k++)
-          sample32.b[1 + k] = input[k];
+          sample32.b[lowbyte + k] = input[k];
 
       mantissa = sample32.i;
 
-- 
2.43.0


From 0fecc823155fcd9be8a056f09c37e5b52e913b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:04 +0000
Subject: [PATCH 75/75] fix: no wrap of the position when swapping a repacked
 payload

---
 libmseed/pack.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 8bd423e..ccf3dc4 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -403,6 +403,7 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   uint32_t crc;
   uint32_t reclen;
   uint32_t valuesize;
+  uint32_t offset;
   uint32_t idx;
   char *value;
   char byte;
@@ -497,10 +498,12 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
       break;
     }
 
-    for (value = record + dataoffset;
-         valuesize > 1 && (uint32_t)(value - record) + valuesize <= reclen;
-         value += valuesize)
+    for (offset = (uint32_t)dataoffset;
+         valuesize > 1 && reclen - offset >= valuesize;
+         offset += valuesize)
     {
+      value = record + offset;
+
       for (idx = 0; idx < valuesize / 2; idx++)
       {
         byte = value[idx];
-- 
2.43.0


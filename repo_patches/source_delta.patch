From 80fdbc4b1a0b70ab5edf757579108b84239869eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 01/22] fix: report short reads/writes of a circular buffer's
 index and size when saving or loading a stream

---
 ta-lib-rt/c/src/ta_common/ta_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_common/ta_memory.h b/ta-lib-rt/c/src/ta_common/ta_memory.h
index ef55221..160bdf4 100644
--- a/ta-lib-rt/c/src/ta_common/ta_memory.h
+++ b/ta-lib-rt/c/src/ta_common/ta_memory.h
@@ -410,9 +410,9 @@
     int io_circbuf_res; \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE.var; \
     io_circbuf_res = fwrite(&str_circbuf->idx,sizeof(str_circbuf->idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fwrite(&str_circbuf->size,sizeof(str_circbuf->size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     if (str_circbuf->size > 0) { \
     io_circbuf_res = fwrite(str_circbuf->circbuf,sizeof(type),str_circbuf->size,_file); \
     if (io_circbuf_res < str_circbuf->size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); }\
@@ -422,9 +422,9 @@
     int io_circbuf_res; int circbuf_idx; int circbuf_size;\
     if (STATE_P.var != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam); \
     io_circbuf_res = fread(&circbuf_idx,sizeof(circbuf_idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fread(&circbuf_size,sizeof(circbuf_size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     CREATE_CIRCBUF_STRUCT(taFunc, var, type, circbuf_size) \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE_P.var;  \
     str_circbuf->idx = circbuf_idx; \
-- 
2.43.0


From a37dc595855bfe329eaf4efbd71f8c7cfb1f9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 02/22] fix: check the handle and the stream for NULL before
 composite StateFree functions dereference it

---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c     | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_ADXR.c         | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_APO.c          | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_ATR.c          | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c       | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_CCI.c          | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_DEMA.c         | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c  | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c   | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c    | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c      | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_MA.c           | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_MACD.c         | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c      | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_MAMA.c         | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_MAVP.c         | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_MFI.c          | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_NATR.c         | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_SAR.c          | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c       | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c       | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_STOCH.c        | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c       | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c     | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_TEMA.c         | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_TRIX.c         | 4 ++++
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c       | 4 ++++
 29 files changed, 116 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index 001be92..42a19fe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -602,6 +602,10 @@ double tempReal,tempReal1,tempReal2;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
    TA_RetCode retCode;
    retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.stateSMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index fbeae8d..b30c301 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -508,6 +508,10 @@ double tempReal;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
 ENUM_DECLARATION(RetCode) retCode;
 retCode = FUNCTION_CALL_STATE_FREE(ADX)((struct TA_ADX_State**)&STATE_P.ADXState);
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 4ffec00..454432c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -704,6 +704,10 @@ int res1, res2;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
      int res = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.fastMAState);
      if (res != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return res;
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index d94e087..16b3cf2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -580,6 +580,10 @@ double tempReal, tempATR;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
 
         TA_RetCode retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 5f30d63..111b15e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -726,6 +726,10 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index d42dc6a..a914cda 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -553,6 +553,10 @@ double lastValue, sum, theAverage;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
   FREE_CIRCBUF_STRUCT(CCI, circBuf);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 7e01523..750b76c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -557,6 +557,10 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
 
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index a3788a5..a1dcf04 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -694,6 +694,10 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
 
         FREE_HILBERT_VARIABLES_STRUCT(detrender);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 4da4838..ea1bbd6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -834,6 +834,10 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index f382ef1..92c4a10 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -735,6 +735,10 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
 
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index cf611cf..a2d2577 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -861,6 +861,10 @@ else {
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index db9fc2c..3570868 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -795,6 +795,10 @@ else {
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 2e8959c..5cec53c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -964,6 +964,10 @@ double sine, leadSine;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 7e04646..8b74242 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -659,6 +659,10 @@ return retValue;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
 ENUM_DECLARATION(RetCode) retValue;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index c386b82..a71e5ce 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -942,6 +942,10 @@ k2 = (double)0.15; /* Fix 12 */
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
     ENUM_DECLARATION(RetCode) retCode;
     retCode = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.slowEMAState);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 5fcb6dc..fbf52e8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -809,6 +809,10 @@ int tempInteger, tempInteger2;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
         ENUM_DECLARATION(RetCode) retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.slowMAState);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index 21652e4..70a57d4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -885,6 +885,10 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 34b2bca..377e700 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -568,6 +568,10 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    FUNCTION_CALL_STATE_FREE(MA) ((struct TA_MA_State**)&STATE_P.MAState);
 
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index d23d1c1..70a9ead 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -657,6 +657,10 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
    FREE_CIRCBUF_STRUCT(MFI, mflow);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index db40d8e..b57ba12 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -603,6 +603,10 @@ double tempReal, tempATR;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
         if( STATE_P.optInTimePeriod <= 1 )
         {
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index 21cd96a..a6ca2b0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -889,6 +889,10 @@ double ep_temp;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
 TA_RetCode retCode;
 retCode = FUNCTION_CALL_STATE_FREE(MINUS_DM)( (struct TA_MINUS_DM_State**) &STATE_P.stateMINUS_DM );
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index a5856a2..f9d15c2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -1178,6 +1178,10 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
  if (STATE_P.optInStartValue == 0)
   {
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 8345d65..6dd5b10 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -582,6 +582,10 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
    FUNCTION_CALL_STATE_FREE(VAR)((struct TA_VAR_State**)&STATE_P.var_state);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 2613887..c4e67c5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -900,6 +900,10 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 9754424..309187c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -840,6 +840,10 @@ TA_RetCode retCode;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 15f6384..db0050c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -614,6 +614,10 @@ TA_RetCode retCode;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(RSI)( (struct TA_RSI_State**) &STATE_P.stateRSI );
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 4aaf978..d0ab689 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -567,6 +567,10 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 4e48687..b46c318 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -527,6 +527,10 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(EMA)( (struct TA_EMA_State**) &STATE_P.stateEMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index e7a3bbf..8348fbc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -721,6 +721,10 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
    FREE_CIRCBUF_STRUCT(ULTOSC, periodA);
    FREE_CIRCBUF_STRUCT(ULTOSC, periodB);
-- 
2.43.0


From 17e6a584030acd6981a595b3c82f26803711ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 03/22] fix: release the NATR stream itself when its period is
 1

---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index b57ba12..8ff965c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -608,18 +608,15 @@ double tempReal, tempATR;
    if (STATE == NULL)
           return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    /* insert local variable here */
-        if( STATE_P.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE);
-        }
-
         TA_RetCode retCode;
 
         retCode = FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
-        else retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.StateSMA );
-        if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
+        if( STATE_P.optInTimePeriod > 1 )
+        {
+           retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.StateSMA );
+           if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
+        }
 
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
-- 
2.43.0


From cd33340cd70c11d7b8ad00b13b0602c3365b1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 04/22] fix: report TA_ALLOC_ERR instead of dereferencing NULL
 when a stream cannot be allocated

---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ACOS.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_AD.c                  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ADD.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ADOSC.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ADX.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ADXR.c                |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_APO.c                 |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_AROON.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_AROONOSC.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ASIN.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ATAN.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ATR.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_BETA.c                | 12 +++++++++---
 ta-lib-rt/c/src/ta_func/ta_BOP.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CCI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c         |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c    |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c    |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c    |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c    |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c       |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c       |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c      |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c   |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c    |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CEIL.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CMO.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_CORREL.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_COS.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_COSH.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_DEMA.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_DIV.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_DX.c                  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_EMA.c                 |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_EXP.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_FLOOR.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c          |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c        |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_IMI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_KAMA.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LN.c                  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_LOG10.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MA.c                  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MACD.c                |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MAMA.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MAVP.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MAX.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MFI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MIN.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MININDEX.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MINMAX.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c         |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MOM.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_MULT.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_NATR.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_NVI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_OBV.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_PPO.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_PVI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_PVT.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ROC.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ROCP.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ROCR.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ROCR100.c             |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_RSI.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SAR.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SIN.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SINH.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SMA.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SQRT.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_STOCH.c               | 12 +++++++++---
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c              | 12 +++++++++---
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SUB.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_SUM.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_T3.c                  |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TAN.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TANH.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TEMA.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TRANGE.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TRIX.c                |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c              |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_VAR.c                 |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c            |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_WILLR.c               |  8 ++++++--
 ta-lib-rt/c/src/ta_func/ta_WLMA.c                |  9 +++++++--
 ta-lib-rt/c/src/ta_func/ta_WMA.c                 |  8 ++++++--
 ta-lib-rt/c/src/tools/gen_code/gen_code.c        | 12 ++++++++++--
 166 files changed, 1015 insertions(+), 335 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index 42a19fe..88485c0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -369,13 +369,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ACCBANDS_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ACCBANDS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACCBANDS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -718,6 +720,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -726,6 +729,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACCBANDS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACCBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ACOS.c b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
index c2529f9..2227307 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACOS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
@@ -205,12 +205,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ACOS_Lookback();
 /* Generated */    #ifndef TA_ACOS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACOS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -463,6 +465,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -471,6 +474,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACOS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACOS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_AD.c b/ta-lib-rt/c/src/ta_func/ta_AD.c
index 262d2ae..981fdbb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AD.c
@@ -252,12 +252,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AD_Lookback();
 /* Generated */    #ifndef TA_AD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ad,sizeof(STATE_P.ad),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADD.c b/ta-lib-rt/c/src/ta_func/ta_ADD.c
index 620e17c..25acd6e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADD.c
@@ -217,12 +217,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ADD_Lookback();
 /* Generated */    #ifndef TA_ADD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -485,6 +487,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -493,6 +496,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
index a8c2fe4..ed29d26 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
@@ -390,14 +390,16 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    MEM_SIZE_P = TA_ADOSC_Lookback(optInFastPeriod, optInSlowPeriod );
 /* Generated */    #ifndef TA_ADOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADOSC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -725,6 +727,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -733,6 +736,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADX.c b/ta-lib-rt/c/src/ta_func/ta_ADX.c
index 34efe34..48dd083 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADX.c
@@ -585,13 +585,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -967,6 +969,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -975,6 +978,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index b30c301..636546b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -302,13 +302,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADXR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADXR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -323,6 +325,7 @@
 
    // TODO only one double is needed for memory
    MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
+   if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 
    return FUNCTION_CALL_STATE_INIT(ADX)((struct TA_ADX_State**)&STATE_P.ADXState, STATE_P.optInTimePeriod);
 }
@@ -616,6 +619,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -624,6 +628,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADXR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADXR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 454432c..b14d7f5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -445,15 +445,17 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_APO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_APO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_APO_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -524,6 +526,7 @@ if( optInSlowPeriod < optInFastPeriod )
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -823,6 +826,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -831,6 +835,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_APO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_APO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROON.c b/ta-lib-rt/c/src/ta_func/ta_AROON.c
index 5023801..7775097 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROON.c
@@ -341,13 +341,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROON_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROON_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROON_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -703,6 +705,7 @@ double temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -711,6 +714,7 @@ double temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROON_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
index da47e01..840c77b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
@@ -352,13 +352,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROONOSC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROONOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROONOSC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -698,6 +700,7 @@ double temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -706,6 +709,7 @@ double temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROONOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROONOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ASIN.c b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
index 8ff0efe..7c7abdd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ASIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
@@ -205,12 +205,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ASIN_Lookback();
 /* Generated */    #ifndef TA_ASIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ASIN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -463,6 +465,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -471,6 +474,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ASIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ASIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATAN.c b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
index 5c866c4..9c5a180 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
@@ -202,12 +202,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ATAN_Lookback();
 /* Generated */    #ifndef TA_ATAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -460,6 +462,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -468,6 +471,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index 16b3cf2..0325970 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -355,13 +355,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ATR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -702,6 +704,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -710,6 +713,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index 47682c2..27f72fa 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -262,13 +262,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AVGDEV_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AVGDEV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGDEV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -550,6 +552,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -558,6 +561,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGDEV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
index 6400773..e0cbf67 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
@@ -226,12 +226,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AVGPRICE_Lookback();
 /* Generated */    #ifndef TA_AVGPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -508,6 +510,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -516,6 +519,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 111b15e..72577b8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -485,6 +485,7 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDevUp = optInNbDevUp;
@@ -492,9 +493,10 @@
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_BBANDS_Lookback(optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
 /* Generated */    #ifndef TA_BBANDS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BBANDS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -845,6 +847,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -853,6 +856,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BBANDS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BETA.c b/ta-lib-rt/c/src/ta_func/ta_BETA.c
index 3f0df77..59fb5ea 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BETA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BETA.c
@@ -361,13 +361,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_BETA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_BETA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -377,8 +379,10 @@
    /* insert state init code here. */
    STATE_P.initialized = 0;
    MEM_SIZE_P--;
-   if (MEM_SIZE_P > 0)
+   if (MEM_SIZE_P > 0) {
      MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
+     if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+   }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
@@ -724,6 +728,7 @@ double x,y,temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -732,6 +737,7 @@ double x,y,temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BETA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BETA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BOP.c b/ta-lib-rt/c/src/ta_func/ta_BOP.c
index ea3d263..ed7754d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BOP.c
@@ -225,12 +225,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_BOP_Lookback();
 /* Generated */    #ifndef TA_BOP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BOP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -513,6 +515,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -521,6 +524,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BOP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index a914cda..593f6de 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -337,13 +337,15 @@ DEFINE_CIRCBUF_STRUCT(CCI, double)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CCI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CCI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CCI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -660,6 +662,7 @@ double lastValue, sum, theAverage;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -668,6 +671,7 @@ double lastValue, sum, theAverage;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CCI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CCI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index 1e51a1d..2cdd5a4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -280,12 +280,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDL2CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL2CROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -598,6 +600,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -606,6 +609,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL2CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index ec59f27..a34e189 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -294,12 +294,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3BLACKCROWS_Lookback();
 /* Generated */    #ifndef TA_CDL3BLACKCROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3BLACKCROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -641,6 +643,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -649,6 +652,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3BLACKCROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3BLACKCROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 24383d6..1a77129 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -289,12 +289,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3INSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3INSIDE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3INSIDE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -632,6 +634,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -640,6 +643,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3INSIDE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3INSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
index 2901e2d..c340d70 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
@@ -300,12 +300,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3LINESTRIKE_Lookback();
 /* Generated */    #ifndef TA_CDL3LINESTRIKE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3LINESTRIKE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -652,6 +654,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,6 +663,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3LINESTRIKE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3LINESTRIKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal3,sizeof(STATE_P.NearPeriodTotal3),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
index f8cebb6..c552716 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
@@ -268,12 +268,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3OUTSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3OUTSIDE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -284,6 +286,7 @@
 
 //   MEM_SIZE_P--;
    MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
+   if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
@@ -574,6 +577,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -582,6 +586,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3OUTSIDE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3OUTSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
index 0336b61..ae02e89 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
@@ -329,12 +329,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3STARSINSOUTH_Lookback();
 /* Generated */    #ifndef TA_CDL3STARSINSOUTH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3STARSINSOUTH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -722,6 +724,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -730,6 +733,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3STARSINSOUTH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3STARSINSOUTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
index c59ba43..1cf273a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
@@ -342,12 +342,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3WHITESOLDIERS_Lookback();
 /* Generated */    #ifndef TA_CDL3WHITESOLDIERS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -755,6 +757,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -763,6 +766,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3WHITESOLDIERS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index c419bf3..154ae6d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -350,13 +350,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLABANDONEDBABY_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLABANDONEDBABY_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLABANDONEDBABY_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -732,6 +734,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -740,6 +743,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLABANDONEDBABY_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLABANDONEDBABY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
index e6a2857..4a1b42a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
@@ -378,12 +378,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLADVANCEBLOCK_Lookback();
 /* Generated */    #ifndef TA_CDLADVANCEBLOCK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLADVANCEBLOCK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -830,6 +832,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -838,6 +841,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLADVANCEBLOCK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLADVANCEBLOCK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowShortPeriodTotal0,sizeof(STATE_P.ShadowShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
index c380a8e..81a1ee0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
@@ -284,12 +284,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBELTHOLD_Lookback();
 /* Generated */    #ifndef TA_CDLBELTHOLD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBELTHOLD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBELTHOLD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBELTHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index fd4f6a1..4b5847a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -294,12 +294,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBREAKAWAY_Lookback();
 /* Generated */    #ifndef TA_CDLBREAKAWAY_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBREAKAWAY_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBREAKAWAY_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBREAKAWAY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
index b458467..513376a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
@@ -298,12 +298,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCLOSINGMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLCLOSINGMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -651,6 +653,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -659,6 +662,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCLOSINGMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
index 25f7f7f..80b71dc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
@@ -303,12 +303,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCONCEALBABYSWALL_Lookback();
 /* Generated */    #ifndef TA_CDLCONCEALBABYSWALL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -652,6 +654,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,6 +663,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCONCEALBABYSWALL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal1,sizeof(STATE_P.ShadowVeryShortPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index 2c8a049..7c807c6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -294,12 +294,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCOUNTERATTACK_Lookback();
 /* Generated */    #ifndef TA_CDLCOUNTERATTACK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCOUNTERATTACK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -642,6 +644,7 @@ unsigned int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -650,6 +653,7 @@ unsigned int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCOUNTERATTACK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCOUNTERATTACK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
index 53f8275..8fe24fe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
@@ -310,13 +310,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLDARKCLOUDCOVER_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLDARKCLOUDCOVER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -639,6 +641,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDARKCLOUDCOVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
index 3523601..460c347 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -593,6 +595,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -601,6 +604,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
index 3eb838b..f95aaf8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
@@ -290,12 +290,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -632,6 +634,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -640,6 +643,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.DojiPeriodTotal,sizeof(STATE_P.DojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
index f362ba7..04efb76 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
@@ -293,12 +293,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDRAGONFLYDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDRAGONFLYDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -635,6 +637,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -643,6 +646,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDRAGONFLYDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
index 3a07d6a..be9d0a5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
@@ -274,12 +274,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLENGULFING_Lookback();
 /* Generated */    #ifndef TA_CDLENGULFING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLENGULFING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -579,6 +581,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -587,6 +590,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLENGULFING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLENGULFING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
index ecd51e1..7b8fb9d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
@@ -338,13 +338,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -707,6 +709,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -715,6 +718,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 51ec7e2..497d1e3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -330,13 +330,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGSTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -689,6 +691,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -697,6 +700,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
index 6377984..dfe9757 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
@@ -290,12 +290,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGAPSIDESIDEWHITE_Lookback();
 /* Generated */    #ifndef TA_CDLGAPSIDESIDEWHITE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -639,6 +641,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
index 5918d5f..0145445 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
@@ -280,12 +280,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGRAVESTONEDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLGRAVESTONEDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -623,6 +625,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -631,6 +634,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGRAVESTONEDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
index 937e225..83b36c6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLHAMMER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHAMMER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -683,6 +685,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,6 +694,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHAMMER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
index 085136f..7ff3ddd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHANGINGMAN_Lookback();
 /* Generated */    #ifndef TA_CDLHANGINGMAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHANGINGMAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -683,6 +685,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,6 +694,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHANGINGMAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHANGINGMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
index 17adadf..28e117f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
@@ -301,12 +301,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMI_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -656,6 +658,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -664,6 +667,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyShortPeriodTotal,sizeof(STATE_P.BodyShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
index 4a091e9..defffcf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
@@ -297,12 +297,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMICROSS_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMICROSS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMICROSS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -653,6 +655,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -661,6 +664,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMICROSS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMICROSS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 97e8c4a..1cb06aa 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIGHWAVE_Lookback();
 /* Generated */    #ifndef TA_CDLHIGHWAVE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIGHWAVE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -605,6 +607,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIGHWAVE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIGHWAVE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
index 3198dcb..98bca9e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
@@ -298,12 +298,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKE_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 0a2d90a..779b1b9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -330,12 +330,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKEMOD_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKEMOD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKEMOD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -693,6 +695,7 @@ int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -701,6 +704,7 @@ int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKEMOD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKEMOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
index 199497d..b77624c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
@@ -291,12 +291,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHOMINGPIGEON_Lookback();
 /* Generated */    #ifndef TA_CDLHOMINGPIGEON_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHOMINGPIGEON_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHOMINGPIGEON_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHOMINGPIGEON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
index 37166c6..48f295a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
@@ -316,12 +316,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLIDENTICAL3CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLIDENTICAL3CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -695,6 +697,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -703,6 +706,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLIDENTICAL3CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
index 9d0b5ff..5360588 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
@@ -292,12 +292,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINNECK_Lookback();
 /* Generated */    #ifndef TA_CDLINNECK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINNECK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -636,6 +638,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,6 +647,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINNECK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
index 5101675..0d8becf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
@@ -301,12 +301,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINVERTEDHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLINVERTEDHAMMER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -663,6 +665,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -671,6 +674,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINVERTEDHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index a097ddb..c63fc3a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -304,12 +304,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKING_Lookback();
 /* Generated */    #ifndef TA_CDLKICKING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -672,6 +674,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,6 +683,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index caa3097..3939352 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKINGBYLENGTH_Lookback();
 /* Generated */    #ifndef TA_CDLKICKINGBYLENGTH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -679,6 +681,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -687,6 +690,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKINGBYLENGTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
index ac07488..3aa810e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
@@ -282,12 +282,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLADDERBOTTOM_Lookback();
 /* Generated */    #ifndef TA_CDLLADDERBOTTOM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLADDERBOTTOM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -618,6 +620,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -626,6 +629,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLADDERBOTTOM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLADDERBOTTOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
index 0efb80e..364aa9a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
@@ -279,12 +279,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLEGGEDDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLEGGEDDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -620,6 +622,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -628,6 +631,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLEGGEDDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
index 899df25..a2beb90 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
@@ -280,12 +280,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLINE_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -621,6 +623,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -629,6 +632,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
index b6307bd..d49f6c1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMARUBOZU_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -621,6 +623,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -629,6 +632,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMARUBOZU_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
index 81708ca..ce7b279 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
@@ -273,12 +273,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMATCHINGLOW_Lookback();
 /* Generated */    #ifndef TA_CDLMATCHINGLOW_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATCHINGLOW_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -602,6 +604,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -610,6 +613,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATCHINGLOW_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATCHINGLOW_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 42dcada..5b88db8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -347,13 +347,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMATHOLD_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMATHOLD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATHOLD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -729,6 +731,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -737,6 +740,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATHOLD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
index 1e542fd..808f0bc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
@@ -332,13 +332,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -701,6 +703,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -709,6 +712,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 36c9278..491dc83 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -320,13 +320,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGSTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -679,6 +681,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -687,6 +690,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
index ccab91e..1d7b1c1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
@@ -284,12 +284,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLONNECK_Lookback();
 /* Generated */    #ifndef TA_CDLONNECK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLONNECK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -631,6 +633,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -639,6 +642,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLONNECK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLONNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
index 1d898ca..40d219d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
@@ -284,12 +284,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLPIERCING_Lookback();
 /* Generated */    #ifndef TA_CDLPIERCING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLPIERCING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -622,6 +624,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -630,6 +633,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLPIERCING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLPIERCING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
index cc020fb..36ecea6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRICKSHAWMAN_Lookback();
 /* Generated */    #ifndef TA_CDLRICKSHAWMAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRICKSHAWMAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -669,6 +671,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -677,6 +680,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRICKSHAWMAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRICKSHAWMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index ca64ff9..2eb6062 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -314,12 +314,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRISEFALL3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLRISEFALL3METHODS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -696,6 +698,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -704,6 +707,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRISEFALL3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
index 91600a0..2360d86 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
@@ -301,12 +301,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSEPARATINGLINES_Lookback();
 /* Generated */    #ifndef TA_CDLSEPARATINGLINES_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSEPARATINGLINES_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -673,6 +675,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -681,6 +684,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSEPARATINGLINES_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSEPARATINGLINES_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index c1974d0..ee84314 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -297,12 +297,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHOOTINGSTAR_Lookback();
 /* Generated */    #ifndef TA_CDLSHOOTINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -657,6 +659,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -665,6 +668,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHOOTINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
index 54385c3..0cf673b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHORTLINE_Lookback();
 /* Generated */    #ifndef TA_CDLSHORTLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHORTLINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -617,6 +619,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -625,6 +628,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHORTLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHORTLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
index 8829cac..7df3423 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
@@ -268,12 +268,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSPINNINGTOP_Lookback();
 /* Generated */    #ifndef TA_CDLSPINNINGTOP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSPINNINGTOP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSPINNINGTOP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSPINNINGTOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index 3b5a4ce..5b94507 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -332,12 +332,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTALLEDPATTERN_Lookback();
 /* Generated */    #ifndef TA_CDLSTALLEDPATTERN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -731,6 +733,7 @@ int i1, i2, i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -739,6 +742,7 @@ int i1, i2, i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTALLEDPATTERN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal1,sizeof(STATE_P.BodyLongPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
index c6b80bf..a360e2d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
@@ -274,12 +274,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTICKSANDWICH_Lookback();
 /* Generated */    #ifndef TA_CDLSTICKSANDWICH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTICKSANDWICH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -605,6 +607,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTICKSANDWICH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTICKSANDWICH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
index 34f5410..b607627 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
@@ -297,12 +297,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTAKURI_Lookback();
 /* Generated */    #ifndef TA_CDLTAKURI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTAKURI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -654,6 +656,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -662,6 +665,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTAKURI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTAKURI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
index 3253df0..082e10b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
@@ -291,12 +291,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTASUKIGAP_Lookback();
 /* Generated */    #ifndef TA_CDLTASUKIGAP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTASUKIGAP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTASUKIGAP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTASUKIGAP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
index c545320..08b524c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
@@ -290,12 +290,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTHRUSTING_Lookback();
 /* Generated */    #ifndef TA_CDLTHRUSTING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTHRUSTING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTHRUSTING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTHRUSTING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 1ecf297..5930fa1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -288,12 +288,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTRISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLTRISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTRISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -628,6 +630,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -636,6 +639,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTRISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTRISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index d45dfb5..8997cf7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -288,12 +288,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUNIQUE3RIVER_Lookback();
 /* Generated */    #ifndef TA_CDLUNIQUE3RIVER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -638,6 +640,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -646,6 +649,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUNIQUE3RIVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index fa80293..46d529a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -291,12 +291,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUPSIDEGAP2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLUPSIDEGAP2CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -641,6 +643,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -649,6 +652,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
index 4ef4bf8..b2527b1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
@@ -272,12 +272,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLXSIDEGAP3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLXSIDEGAP3METHODS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -581,6 +583,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -589,6 +592,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLXSIDEGAP3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CEIL.c b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
index 26b69a8..ef8e612 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CEIL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CEIL_Lookback();
 /* Generated */    #ifndef TA_CEIL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CEIL_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CEIL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CEIL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CMO.c b/ta-lib-rt/c/src/ta_func/ta_CMO.c
index 426b769..b9b90a2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CMO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CMO.c
@@ -448,13 +448,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CMO_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CMO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CMO_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -769,6 +771,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -777,6 +780,7 @@ double tempValue1, tempValue2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CMO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CMO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CORREL.c b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
index daef286..8e32b8b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CORREL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
@@ -315,13 +315,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CORREL_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CORREL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CORREL_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CORREL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CORREL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_COS.c b/ta-lib-rt/c/src/ta_func/ta_COS.c
index 0449fc0..d68b114 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COS.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COS_Lookback();
 /* Generated */    #ifndef TA_COS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_COSH.c b/ta-lib-rt/c/src/ta_func/ta_COSH.c
index a55af67..aaf0bf6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COSH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COSH.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COSH_Lookback();
 /* Generated */    #ifndef TA_COSH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COSH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -465,6 +467,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,6 +476,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COSH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COSH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 750b76c..1c0803d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -375,13 +375,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DEMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DEMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -672,6 +674,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,6 +683,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DEMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_DIV.c b/ta-lib-rt/c/src/ta_func/ta_DIV.c
index cc3a702..815d0f7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DIV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DIV.c
@@ -213,12 +213,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_DIV_Lookback();
 /* Generated */    #ifndef TA_DIV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DIV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -479,6 +481,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,6 +490,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DIV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DIV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DX.c b/ta-lib-rt/c/src/ta_func/ta_DX.c
index f63be0a..5624294 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DX.c
@@ -522,13 +522,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -885,6 +887,7 @@ double minusDI, plusDI;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -893,6 +896,7 @@ double minusDI, plusDI;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 1e9b0da..faaba62 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -391,13 +391,15 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_EMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_EMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -437,6 +439,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -743,6 +746,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -751,6 +755,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EXP.c b/ta-lib-rt/c/src/ta_func/ta_EXP.c
index bf74448..f375e23 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EXP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EXP.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_EXP_Lookback();
 /* Generated */    #ifndef TA_EXP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EXP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EXP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EXP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
index 8c2137f..186a505 100644
--- a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_FLOOR_Lookback();
 /* Generated */    #ifndef TA_FLOOR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_FLOOR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_FLOOR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_FLOOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index a1dcf04..a4249ce 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -406,12 +406,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPERIOD_Lookback();
 /* Generated */    #ifndef TA_HT_DCPERIOD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPERIOD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -841,6 +843,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -849,6 +852,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPERIOD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPERIOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index ea1bbd6..f7e8098 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -490,12 +490,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPHASE_Lookback();
 /* Generated */    #ifndef TA_HT_DCPHASE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPHASE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -988,6 +990,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -996,6 +999,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPHASE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPHASE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index 92c4a10..53d6b05 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -423,12 +423,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_PHASOR_Lookback();
 /* Generated */    #ifndef TA_HT_PHASOR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_PHASOR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -880,6 +882,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -888,6 +891,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_PHASOR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_PHASOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index a2d2577..c7c1c42 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -498,12 +498,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_SINE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_SINE_Lookback();
 /* Generated */    #ifndef TA_HT_SINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_SINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1017,6 +1019,7 @@ else {
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1025,6 +1028,7 @@ else {
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_SINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_SINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index 3570868..e64abda 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -471,12 +471,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDLINE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDLINE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDLINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -950,6 +952,7 @@ else {
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -958,6 +961,7 @@ else {
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 5cec53c..f835f07 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -559,12 +559,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDMODE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDMODE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDMODE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDMODE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1133,6 +1135,7 @@ double sine, leadSine;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1141,6 +1144,7 @@ double sine, leadSine;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDMODE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDMODE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 469d2a2..43c9c58 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -268,13 +268,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_IMI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_IMI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_IMI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -580,6 +582,7 @@ double tempClose, tempOpen;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -588,6 +591,7 @@ double tempClose, tempOpen;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_IMI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_IMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 315b8ab..f16aed6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -391,13 +391,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_KAMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_KAMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_KAMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -721,6 +723,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -729,6 +732,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_KAMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_KAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 82a880c..434724c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -289,13 +289,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index f0e189b..ef6a1b3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -290,13 +290,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_ANGLE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_ANGLE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_ANGLE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@ double m, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@ double m, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_ANGLE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_ANGLE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 7e88184..baa0a63 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -288,13 +288,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_INTERCEPT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_INTERCEPT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -591,6 +593,7 @@ double m, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -599,6 +602,7 @@ double m, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_INTERCEPT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 3b3e44e..bd1548b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -286,13 +286,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_SLOPE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SLOPE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_SLOPE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -587,6 +589,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -595,6 +598,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_SLOPE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_SLOPE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LN.c b/ta-lib-rt/c/src/ta_func/ta_LN.c
index c21090f..9617afe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LN.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LN_Lookback();
 /* Generated */    #ifndef TA_LN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_LOG10.c b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
index 1ce5358..3c1e35b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LOG10.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LOG10_Lookback();
 /* Generated */    #ifndef TA_LOG10_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LOG10_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LOG10_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LOG10_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 8b74242..6de9899 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -388,14 +388,16 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MA_Lookback(optInTimePeriod, optInMAType );
 /* Generated */    #ifndef TA_MA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -871,6 +873,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -879,6 +882,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index a71e5ce..3fa19c3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -586,15 +586,17 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACD_Lookback(optInFastPeriod, optInSlowPeriod, optInSignalPeriod );
 /* Generated */    #ifndef TA_MACD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -695,6 +697,7 @@ k2 = (double)0.15; /* Fix 12 */
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -1066,6 +1069,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1074,6 +1078,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index fbf52e8..64440d3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -545,6 +545,7 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInFastMAType = optInFastMAType;
@@ -554,9 +555,10 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */    STATE_P.optInSignalMAType = optInSignalMAType;
 /* Generated */    MEM_SIZE_P = TA_MACDEXT_Lookback(optInFastPeriod, optInFastMAType, optInSlowPeriod, optInSlowMAType, optInSignalPeriod, optInSignalMAType );
 /* Generated */    #ifndef TA_MACDEXT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDEXT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -939,6 +941,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -947,6 +950,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDEXT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDEXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index 9f6ac53..1b4abeb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -260,13 +260,15 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACDFIX_Lookback(optInSignalPeriod );
 /* Generated */    #ifndef TA_MACDFIX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDFIX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -556,6 +558,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -564,6 +567,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDFIX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDFIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInSignalPeriod,sizeof(STATE_P.optInSignalPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index 70a57d4..e5b5a36 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -535,14 +535,16 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastLimit = optInFastLimit;
 /* Generated */    STATE_P.optInSlowLimit = optInSlowLimit;
 /* Generated */    MEM_SIZE_P = TA_MAMA_Lookback(optInFastLimit, optInSlowLimit );
 /* Generated */    #ifndef TA_MAMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1038,6 +1040,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1046,6 +1049,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastLimit,sizeof(STATE_P.optInFastLimit),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 377e700..5e6953b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -387,15 +387,17 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInMinPeriod = optInMinPeriod;
 /* Generated */    STATE_P.optInMaxPeriod = optInMaxPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MAVP_Lookback(optInMinPeriod, optInMaxPeriod, optInMAType );
 /* Generated */    #ifndef TA_MAVP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAVP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -677,6 +679,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -685,6 +688,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAVP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAVP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInMinPeriod,sizeof(STATE_P.optInMinPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAX.c b/ta-lib-rt/c/src/ta_func/ta_MAX.c
index dfab3ff..6aa9742 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAX.c
@@ -298,13 +298,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -598,6 +600,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -606,6 +609,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
index 8224f8d..753f1fd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
@@ -292,13 +292,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAXINDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAXINDEX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -603,6 +605,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -611,6 +614,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAXINDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
index bdd4ed2..83317d9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
@@ -221,12 +221,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MEDPRICE_Lookback();
 /* Generated */    #ifndef TA_MEDPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MEDPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -488,6 +490,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -496,6 +499,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MEDPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MEDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index 70a9ead..839cd00 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -419,13 +419,15 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MFI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MFI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MFI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -767,6 +769,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -775,6 +778,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MFI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MFI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
index 7d548f1..b9cdf4d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
@@ -286,13 +286,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPOINT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPOINT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPOINT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -560,6 +562,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -568,6 +571,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPOINT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPOINT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
index 37855d4..bef81b2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
@@ -292,13 +292,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPRICE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -578,6 +580,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -586,6 +589,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIN.c b/ta-lib-rt/c/src/ta_func/ta_MIN.c
index 98df43f..105c4fa 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIN.c
@@ -299,13 +299,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIN_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -599,6 +601,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -607,6 +610,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
index 171ed0a..9d552f1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
@@ -292,13 +292,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MININDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MININDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MININDEX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -605,6 +607,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MININDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MININDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
index 8c9e157..6940b03 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
@@ -324,13 +324,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -663,6 +665,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -671,6 +674,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
index 8a19912..ec3b8e6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
@@ -324,13 +324,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAXINDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAXINDEX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -687,6 +689,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -695,6 +698,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAXINDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
index 38a5da0..1d45c45 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
@@ -529,13 +529,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -893,6 +895,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -901,6 +904,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
index de16fc5..612e32e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
@@ -442,13 +442,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -775,6 +777,7 @@ double diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -783,6 +786,7 @@ double diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MOM.c b/ta-lib-rt/c/src/ta_func/ta_MOM.c
index 98e47f1..857b727 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MOM.c
@@ -290,13 +290,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MOM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MOM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MOM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -553,6 +555,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -561,6 +564,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MOM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MULT.c b/ta-lib-rt/c/src/ta_func/ta_MULT.c
index 03f7be4..0c9af18 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MULT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MULT.c
@@ -213,12 +213,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MULT_Lookback();
 /* Generated */    #ifndef TA_MULT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MULT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -479,6 +481,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,6 +490,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MULT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MULT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 8ff965c..0cf9606 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -377,13 +377,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_NATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_NATR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NATR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -724,6 +726,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -732,6 +735,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NATR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_NVI.c b/ta-lib-rt/c/src/ta_func/ta_NVI.c
index d38e01b..06ea0e3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NVI.c
@@ -227,12 +227,14 @@ int outIdx;
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_NVI_Lookback();
 /* Generated */    #ifndef TA_NVI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NVI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -505,6 +507,7 @@ int outIdx;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -513,6 +516,7 @@ int outIdx;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NVI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevNVI,sizeof(STATE_P.prevNVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_OBV.c b/ta-lib-rt/c/src/ta_func/ta_OBV.c
index 8ee6a25..552af9f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_OBV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_OBV.c
@@ -225,12 +225,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_OBV_Lookback();
 /* Generated */    #ifndef TA_OBV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_OBV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -511,6 +513,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -519,6 +522,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_OBV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_OBV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevOBV,sizeof(STATE_P.prevOBV),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
index 5323dca..4146511 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
@@ -529,13 +529,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -894,6 +896,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -902,6 +905,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
index 44c5747..46aa4df 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
@@ -443,13 +443,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -775,6 +777,7 @@ double diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -783,6 +786,7 @@ double diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PPO.c b/ta-lib-rt/c/src/ta_func/ta_PPO.c
index d335e08..4aea969 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PPO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PPO.c
@@ -306,15 +306,17 @@ return FUNCTION_CALL_STATE_INIT(INT_PO)((struct TA_APO_State**)_state, optInFast
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_PPO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_PPO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PPO_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -577,6 +579,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -585,6 +588,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PPO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PPO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVI.c b/ta-lib-rt/c/src/ta_func/ta_PVI.c
index d16edb7..69956cc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVI.c
@@ -229,12 +229,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVI_Lookback();
 /* Generated */    #ifndef TA_PVI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -506,6 +508,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -514,6 +517,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVI,sizeof(STATE_P.prevPVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVT.c b/ta-lib-rt/c/src/ta_func/ta_PVT.c
index c727701..95a9230 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVT.c
@@ -224,12 +224,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVT_Lookback();
 /* Generated */    #ifndef TA_PVT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -498,6 +500,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -506,6 +509,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVT,sizeof(STATE_P.prevPVT),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROC.c b/ta-lib-rt/c/src/ta_func/ta_ROC.c
index 20177b1..880a734 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROC.c
@@ -293,13 +293,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCP.c b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
index 2b0600a..0e14d79 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
@@ -294,13 +294,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCP_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR.c b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
index a409468..659dc62 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
@@ -295,13 +295,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -558,6 +560,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -566,6 +569,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
index f82d58c..e5be198 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
@@ -294,13 +294,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR100_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR100_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR100_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR100_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR100_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_RSI.c b/ta-lib-rt/c/src/ta_func/ta_RSI.c
index 09fcaf5..e3dc69d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_RSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_RSI.c
@@ -453,13 +453,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_RSI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_RSI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_RSI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -772,6 +774,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -780,6 +783,7 @@ double tempValue1, tempValue2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_RSI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_RSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index a6ca2b0..af755ab 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -541,14 +541,16 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInAcceleration = optInAcceleration;
 /* Generated */    STATE_P.optInMaximum = optInMaximum;
 /* Generated */    MEM_SIZE_P = TA_SAR_Lookback(optInAcceleration, optInMaximum );
 /* Generated */    #ifndef TA_SAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1015,6 +1017,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1023,6 +1026,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInAcceleration,sizeof(STATE_P.optInAcceleration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index f9d15c2..72a68b3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -786,6 +786,7 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInStartValue = optInStartValue;
 /* Generated */    STATE_P.optInOffsetOnReverse = optInOffsetOnReverse;
@@ -797,9 +798,10 @@
 /* Generated */    STATE_P.optInAccelerationMaxShort = optInAccelerationMaxShort;
 /* Generated */    MEM_SIZE_P = TA_SAREXT_Lookback(optInStartValue, optInOffsetOnReverse, optInAccelerationInitLong, optInAccelerationLong, optInAccelerationMaxLong, optInAccelerationInitShort, optInAccelerationShort, optInAccelerationMaxShort );
 /* Generated */    #ifndef TA_SAREXT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAREXT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1321,6 +1323,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1329,6 +1332,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAREXT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAREXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInStartValue,sizeof(STATE_P.optInStartValue),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SIN.c b/ta-lib-rt/c/src/ta_func/ta_SIN.c
index f58ef85..18a66af 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SIN.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SIN_Lookback();
 /* Generated */    #ifndef TA_SIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SIN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SINH.c b/ta-lib-rt/c/src/ta_func/ta_SINH.c
index eb1dafb..9128620 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SINH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SINH.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SINH_Lookback();
 /* Generated */    #ifndef TA_SINH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SINH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SINH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SINH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SMA.c b/ta-lib-rt/c/src/ta_func/ta_SMA.c
index 768a6b0..e6aaaa5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SMA.c
@@ -320,13 +320,15 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -601,6 +603,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -609,6 +612,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SQRT.c b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
index 7059f9d..b38455c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SQRT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SQRT_Lookback();
 /* Generated */    #ifndef TA_SQRT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SQRT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SQRT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SQRT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 6dd5b10..5ef4198 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -387,14 +387,16 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_STDDEV_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_STDDEV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STDDEV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -689,6 +691,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -697,6 +700,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STDDEV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STDDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index c4e67c5..b6d1685 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -618,6 +618,7 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInSlowK_Period = optInSlowK_Period;
@@ -626,9 +627,10 @@
 /* Generated */    STATE_P.optInSlowD_MAType = optInSlowD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCH_Lookback(optInFastK_Period, optInSlowK_Period, optInSlowK_MAType, optInSlowD_Period, optInSlowD_MAType );
 /* Generated */    #ifndef TA_STOCH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,8 +639,10 @@
 
    /* insert state init code here. */
    MEM_SIZE_P = (optInFastK_Period - 1);
- if (MEM_SIZE_P > 0)
+ if (MEM_SIZE_P > 0) {
      MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
+     if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+ }
  else MEM_P = NULL;
 
    retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInSlowK_Period, optInSlowK_MAType );
@@ -1028,6 +1032,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1036,6 +1041,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 309187c..f9568a0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -547,15 +547,17 @@ TA_RetCode retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInFastD_Period = optInFastD_Period;
 /* Generated */    STATE_P.optInFastD_MAType = optInFastD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCHF_Lookback(optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHF_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -564,8 +566,10 @@ TA_RetCode retCode;
 
    /* insert state init code here. */
         MEM_SIZE_P = (optInFastK_Period - 1);
-      if (MEM_SIZE_P > 0)
+      if (MEM_SIZE_P > 0) {
           MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
+          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+      }
       else MEM_P = NULL;
 
         retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInFastD_Period, optInFastD_MAType );
@@ -960,6 +964,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -968,6 +973,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHF_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index db0050c..4169cd1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -423,6 +423,7 @@ TA_RetCode retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
@@ -430,9 +431,10 @@ TA_RetCode retCode;
 /* Generated */    STATE_P.optInFastD_MAType = optInFastD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCHRSI_Lookback(optInTimePeriod, optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHRSI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHRSI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -733,6 +735,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -741,6 +744,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHRSI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHRSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUB.c b/ta-lib-rt/c/src/ta_func/ta_SUB.c
index c2a437b..4b90198 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUB.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUB.c
@@ -214,12 +214,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SUB_Lookback();
 /* Generated */    #ifndef TA_SUB_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUB_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -480,6 +482,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -488,6 +491,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUB_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUB_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index f8c4179..c314c9f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -278,13 +278,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SUM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SUM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -561,6 +563,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -569,6 +572,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index 7a200c9..c0fa8f4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -401,14 +401,16 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInVFactor = optInVFactor;
 /* Generated */    MEM_SIZE_P = TA_T3_Lookback(optInTimePeriod, optInVFactor );
 /* Generated */    #ifndef TA_T3_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_T3_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -809,6 +811,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -817,6 +820,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_T3_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_T3_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TAN.c b/ta-lib-rt/c/src/ta_func/ta_TAN.c
index e00631f..71acbd2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TAN.c
@@ -207,12 +207,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TAN_Lookback();
 /* Generated */    #ifndef TA_TAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -465,6 +467,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,6 +476,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TANH.c b/ta-lib-rt/c/src/ta_func/ta_TANH.c
index a79a452..69a536d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TANH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TANH.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TANH_Lookback();
 /* Generated */    #ifndef TA_TANH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TANH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TANH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TANH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index d0ab689..9f5088d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -377,13 +377,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TEMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TEMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -688,6 +690,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -696,6 +699,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TEMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
index 4f54221..51c6be1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
@@ -260,12 +260,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TRANGE_Lookback();
 /* Generated */    #ifndef TA_TRANGE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRANGE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRANGE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRANGE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index b08c9d5..9449034 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -516,13 +516,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -867,6 +869,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -875,6 +878,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index b46c318..50ac6af 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -344,13 +344,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -649,6 +651,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -657,6 +660,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index f6e7847..2e8ff09 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -289,13 +289,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TSF_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TSF_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TSF_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@ double m, b, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@ double m, b, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TSF_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TSF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
index 9f89a75..e097b26 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
@@ -223,12 +223,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TYPPRICE_Lookback();
 /* Generated */    #ifndef TA_TYPPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TYPPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -498,6 +500,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -506,6 +509,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TYPPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TYPPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 8348fbc..342c12d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -463,15 +463,17 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod1 = optInTimePeriod1;
 /* Generated */    STATE_P.optInTimePeriod2 = optInTimePeriod2;
 /* Generated */    STATE_P.optInTimePeriod3 = optInTimePeriod3;
 /* Generated */    MEM_SIZE_P = TA_ULTOSC_Lookback(optInTimePeriod1, optInTimePeriod2, optInTimePeriod3 );
 /* Generated */    #ifndef TA_ULTOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ULTOSC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -850,6 +852,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -858,6 +861,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ULTOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ULTOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod1,sizeof(STATE_P.optInTimePeriod1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_VAR.c b/ta-lib-rt/c/src/ta_func/ta_VAR.c
index ccfe33b..563f52d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_VAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_VAR.c
@@ -375,14 +375,16 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_VAR_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_VAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_VAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -672,6 +674,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,6 +683,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_VAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_VAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
index 49726a7..482a497 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
@@ -222,12 +222,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_WCLPRICE_Lookback();
 /* Generated */    #ifndef TA_WCLPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WCLPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -497,6 +499,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -505,6 +508,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WCLPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WCLPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_WILLR.c b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
index 1f9d893..91b7c28 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WILLR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
@@ -341,13 +341,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WILLR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WILLR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WILLR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -696,6 +698,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -704,6 +707,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WILLR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WILLR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 3eed354..ae0341b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -388,13 +388,15 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WLMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WLMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WLMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -434,6 +436,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -740,6 +743,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -748,6 +752,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WLMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WLMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 108ca8b..d74c446 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -344,13 +344,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -640,6 +642,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -648,6 +651,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/tools/gen_code/gen_code.c b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
index 9def3fd..af8146c 100644
--- a/ta-lib-rt/c/src/tools/gen_code/gen_code.c
+++ b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
@@ -1839,6 +1839,8 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
                    printIndent( out, indent );
+                   fprintf( out, "if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+                   printIndent( out, indent );
                    fprintf( out, "io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);\n");
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);\n");
@@ -1855,6 +1857,8 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_%s_Data));\n", funcName);
                    printIndent( out, indent );
+                   fprintf( out, "if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+                   printIndent( out, indent );
                    fprintf( out, "io_res = fread(STATE_P.memory,sizeof(struct TA_%s_Data),STATE_P.mem_size,_file);\n", funcName);
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } \n");
@@ -2543,6 +2547,8 @@ void printFunc( FILE *out,
        printIndent( out, indent);
        fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
        printIndent( out, indent);
+       fprintf( out, "if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+       printIndent( out, indent);
        fprintf( out, "STATE_P.mem_index = 0;\n");
 
        int word_idx = 0;
@@ -2572,11 +2578,13 @@ void printFunc( FILE *out,
        printIndent( out, indent );
        fprintf( out, "#ifndef TA_%s_SUPPRESS_MEMORY_ALLOCATION\n", funcName);
        printIndent( out, indent);
-       fprintf( out, "if (MEM_SIZE_P > 0)\n");
+       fprintf( out, "if (MEM_SIZE_P > 0) {\n");
        printIndent( out, indent+6 );
        fprintf( out, "MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_%s_Data));\n", funcName);
+       printIndent( out, indent+6 );
+       fprintf( out, "if (MEM_P == NULL) { TA_Free(STATE); STATE = NULL; return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }\n");
        printIndent( out, indent );
-       fprintf( out, "else\n");
+       fprintf( out, "} else\n");
        printIndent( out, indent );
        fprintf( out, "#endif\n");
        printIndent( out, indent+6 );
-- 
2.43.0


From 511c86488d55a724bd27108cdb66de0f2baa7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 05/22] fix: check the temporary buffers of ATR, NATR, MAVP,
 STOCH, STOCHF and STOCHRSI for allocation failure

---
 ta-lib-rt/c/src/ta_func/ta_ATR.c      |  8 ++++++++
 ta-lib-rt/c/src/ta_func/ta_MAVP.c     | 16 ++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_NATR.c     |  8 ++++++++
 ta-lib-rt/c/src/ta_func/ta_STOCH.c    | 16 ++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c   | 16 ++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c |  8 ++++++++
 6 files changed, 72 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index 0325970..0c82a3f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -249,6 +249,10 @@
 
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+   #if !defined(_JAVA)
+      if( !tempBuffer )
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   #endif
 
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
@@ -829,6 +833,10 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined(_JAVA)
+/* Generated */       if( !tempBuffer )
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 5e6953b..cc6dcb3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -271,6 +271,14 @@
    /* Allocate intermediate local buffer. */
    ARRAY_ALLOC(localOutputArray,outputSize);
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+   #if !defined(_JAVA)
+      if( !localOutputArray || !localPeriodArray )
+      {
+         ARRAY_FREE(localOutputArray);
+         ARRAY_INT_FREE(localPeriodArray);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    /* Copy caller array of period into local buffer.
     * At the same time, truncate to min/max.
@@ -816,6 +824,14 @@ TA_RetCode retCode;
 /* Generated */    outputSize = endIdx - tempInt + 1;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+/* Generated */    #if !defined(_JAVA)
+/* Generated */       if( !localOutputArray || !localPeriodArray )
+/* Generated */       {
+/* Generated */          ARRAY_FREE(localOutputArray);
+/* Generated */          ARRAY_INT_FREE(localPeriodArray);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
 /* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 0cf9606..ede2c2f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -264,6 +264,10 @@
 
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+   #if !defined(_JAVA)
+      if( !tempBuffer )
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   #endif
 
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
@@ -851,6 +855,10 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined(_JAVA)
+/* Generated */       if( !tempBuffer )
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index b6d1685..14c5d4a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -404,6 +404,10 @@
        * the input.
        */
       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+      #if !defined(_JAVA)
+         if( !tempBuffer )
+            return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      #endif
    #else
       if( (outSlowK == inHigh) || 
           (outSlowK == inLow)  || 
@@ -423,6 +427,10 @@
             bufferIsAllocated = 1;
          #endif
          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+         #if !defined(_JAVA)
+            if( !tempBuffer )
+               return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+         #endif
       }
    #endif
 
@@ -1214,6 +1222,10 @@ TA_RetCode retCode;
 /* Generated */    #endif
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT) || defined( USE_SUBARRAY )
 /* Generated */       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */       #if !defined(_JAVA)
+/* Generated */          if( !tempBuffer )
+/* Generated */             return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       #endif
 /* Generated */    #else
 /* Generated */       if( (outSlowK == inHigh) || 
 /* Generated */           (outSlowK == inLow)  || 
@@ -1233,6 +1245,10 @@ TA_RetCode retCode;
 /* Generated */             bufferIsAllocated = 1;
 /* Generated */          #endif
 /* Generated */          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */          #if !defined(_JAVA)
+/* Generated */             if( !tempBuffer )
+/* Generated */                return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */          #endif
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    while( today <= endIdx )
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index f9568a0..6f82758 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -360,6 +360,10 @@
        * the input.
        */
       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+      #if !defined(_JAVA)
+         if( !tempBuffer )
+            return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      #endif
    #else
       if( (outFastK == inHigh) || 
           (outFastK == inLow)  || 
@@ -379,6 +383,10 @@
             bufferIsAllocated = 1;
          #endif
          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
+         #if !defined(_JAVA)
+            if( !tempBuffer )
+               return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+         #endif
       }
    #endif
 
@@ -1123,6 +1131,10 @@ TA_RetCode retCode;
 /* Generated */    #endif
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT) || defined( USE_SUBARRAY )
 /* Generated */       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */       #if !defined(_JAVA)
+/* Generated */          if( !tempBuffer )
+/* Generated */             return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       #endif
 /* Generated */    #else
 /* Generated */       if( (outFastK == inHigh) || 
 /* Generated */           (outFastK == inLow)  || 
@@ -1142,6 +1154,10 @@ TA_RetCode retCode;
 /* Generated */             bufferIsAllocated = 1;
 /* Generated */          #endif
 /* Generated */          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
+/* Generated */          #if !defined(_JAVA)
+/* Generated */             if( !tempBuffer )
+/* Generated */                return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */          #endif
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    while( today <= endIdx )
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 4169cd1..d0c621f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -322,6 +322,10 @@
    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 
    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
+   #if !defined(_JAVA)
+      if( !tempRSIBuffer )
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   #endif
 
    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
                                 endIdx, 
@@ -882,6 +886,10 @@ TA_RetCode retCode;
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 /* Generated */    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
+/* Generated */    #if !defined(_JAVA)
+/* Generated */       if( !tempRSIBuffer )
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
 /* Generated */                                 endIdx, 
 /* Generated */                                 inReal, 
-- 
2.43.0


From 672cd9fc648ee73fab8fe2130d638fa5111566f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 06/22] fix: BBANDS with a standard deviation lookback longer
 than the moving average's (misaligned bands, garbage streamed middle band)

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 40 +++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 72577b8..bb1cdf2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -99,6 +99,7 @@
 /**** END GENCODE SECTION 1 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   int lookbackMA, lookbackSTDDEV;
 
 /**** START GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -132,8 +133,13 @@
    UNUSED_VARIABLE(optInNbDevUp);
    UNUSED_VARIABLE(optInNbDevDn);
 
-   /* The lookback is driven by the middle band moving average. */
-   return LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );                          
+   /* The lookback is driven by the middle band moving average, unless
+    * the standard deviation needs more data.
+    */
+   lookbackMA = LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );
+   lookbackSTDDEV = LOOKBACK_CALL(STDDEV)( optInTimePeriod, 1.0 );
+
+   return max( lookbackMA, lookbackSTDDEV );
 }
 
 /**** START GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
@@ -310,6 +316,20 @@
          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
    #endif
 
+   /* Move up the start index if there is not enough initial data for
+    * both the moving average and the standard deviation.
+    */
+   i = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
+   if( startIdx < i )
+      startIdx = i;
+
+   /* Make sure there is still something to evaluate. */
+   if( startIdx > endIdx )
+   {
+      VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+      VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
 
    /* Calculate the middle band, which is a moving average.
     * The other two bands will simply add/substract the
@@ -536,7 +556,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-  ENUM_DECLARATION(RetCode) retCode;
+  ENUM_DECLARATION(RetCode) retCode, retCodeMA;
   double tempReal, tempReal2;
   #define TA_BBANDS_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
@@ -571,10 +591,11 @@
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-   retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
-   if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
+   retCodeMA = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
+   if (retCodeMA != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCodeMA != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCodeMA;
    retCode = FUNCTION_CALL_STATE(STDDEV)( (struct TA_STDDEV_State*) STATE.stateSTDDEV, inReal, &tempReal );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
+   if (retCodeMA != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCodeMA;
 
 
    VALUE_HANDLE_DEREF(outRealMiddleBand) = tempReal2;
@@ -1009,6 +1030,15 @@ TA_RetCode retCode;
 /* Generated */       if( (tempBuffer1 == inReal) || (tempBuffer2 == inReal) )
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    #endif
+/* Generated */    i = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
+/* Generated */    if( startIdx < i )
+/* Generated */       startIdx = i;
+/* Generated */    if( startIdx > endIdx )
+/* Generated */    {
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+/* Generated */    }
 /* Generated */    retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
 /* Generated */                                 optInTimePeriod, optInMAType,
 /* Generated */                                 outBegIdx, outNBElement, tempBuffer1 );
-- 
2.43.0


From 0b652ffc9527e0edc3792d977639f53d9cacf9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 07/22] fix: reject TA_FUNC_UNST_NONE and other negative ids in
 TA_Set/GetUnstablePeriod

---
 ta-lib-rt/c/src/ta_func/ta_utility.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_utility.c b/ta-lib-rt/c/src/ta_func/ta_utility.c
index 2fb4b10..bbef606 100644
--- a/ta-lib-rt/c/src/ta_func/ta_utility.c
+++ b/ta-lib-rt/c/src/ta_func/ta_utility.c
@@ -68,7 +68,7 @@ TA_RetCode TA_SetUnstablePeriod( TA_FuncUnstId id,
 {
    int i;
 
-   if( id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( ((int)id < 0) || (id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll)) )
       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
    if( id == ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
@@ -100,7 +100,7 @@ unsigned int Core::GetUnstablePeriod( enum class FuncUnstId id )
 unsigned int TA_GetUnstablePeriod( TA_FuncUnstId id )
 #endif
 {
-   if( id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( ((int)id < 0) || (id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll)) )
 	   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
    #if defined( _MANAGED )
-- 
2.43.0


From 0b842cc5f9eb28dffbc95ed93ed94a0e8d0ea748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 08/22] fix: EMA and WLMA streams created with the default
 period used the smoothing factor of an invalid period

---
 ta-lib-rt/c/src/ta_func/ta_EMA.c  | 3 +++
 ta-lib-rt/c/src/ta_func/ta_WLMA.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index faaba62..3196d24 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -375,6 +375,9 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   /* K depends on the period: the default must be known before. */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
    return TA_INT_EMA_StateInit(_state, optInTimePeriod, PER_TO_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index ae0341b..a75c121 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -372,6 +372,9 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   /* K depends on the period: the default must be known before. */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
    return TA_INT_WLMA_StateInit(_state, optInTimePeriod, PER_TO_WILDERS_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
-- 
2.43.0


From 461e89e8ed6ad36dc0abaf9047fc8d982ef4f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 09/22] fix: APO and PPO streams rejected MA type 9 (WLMA) and
 mixed up fast and slow when one period was the default

---
 ta-lib-rt/c/src/ta_func/ta_APO.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index b14d7f5..1dfbf57 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -493,14 +493,6 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 
 int tempInteger;
 TA_RetCode retCode;
-if( optInSlowPeriod < optInFastPeriod )
-{
-    /* swap */
-    tempInteger     = optInSlowPeriod;
-    optInSlowPeriod = optInFastPeriod;
-    optInFastPeriod = tempInteger;
-}
-
 
  #ifndef TA_FUNC_NO_RANGE_CHECK
 
@@ -521,10 +513,20 @@ if( optInSlowPeriod < optInFastPeriod )
     #if !defined(_MANAGED) && !defined(_JAVA)
     if( (int)optInMAType == TA_INTEGER_DEFAULT )
        optInMAType = (TA_MAType)0;
-    else if( ((int)optInMAType < 0) || ((int)optInMAType > 8) )
+    else if( ((int)optInMAType < 0) || ((int)optInMAType > 9) )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
+
+    /* The defaults are known only now. */
+    if( optInSlowPeriod < optInFastPeriod )
+    {
+       /* swap */
+       tempInteger     = optInSlowPeriod;
+       optInSlowPeriod = optInFastPeriod;
+       optInFastPeriod = tempInteger;
+    }
+
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
     if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
-- 
2.43.0


From bbc9a483d020adf6b239b11776b0374bd124e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 10/22] fix: ULTOSC streams sorted the periods before the
 defaults were known

---
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c | 35 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 342c12d..fa4db07 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -422,22 +422,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
    /* insert local variable here */
 #define TA_ULTOSC_SUPPRESS_MEMORY_ALLOCATION
 
-   #define swap(x,y) \
-    { \
-       x = x ^ y; \
-       y = x ^ y; \
-       x = x ^ y; \
-    }
-
-   //sort optIns
-    if (optInTimePeriod1 < optInTimePeriod2) {
-        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
-    } else {
-        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
-        else swap(optInTimePeriod1, optInTimePeriod3);
-    }
-    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
-
 /**** START GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -481,6 +465,25 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /**** END GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 
    /* insert state init code here. */
+   #define swap(x,y) \
+    { \
+       x = x ^ y; \
+       y = x ^ y; \
+       x = x ^ y; \
+    }
+
+   //sort optIns
+    if (optInTimePeriod1 < optInTimePeriod2) {
+        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
+    } else {
+        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
+        else swap(optInTimePeriod1, optInTimePeriod3);
+    }
+    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
+    STATE_P.optInTimePeriod1 = optInTimePeriod1;
+    STATE_P.optInTimePeriod2 = optInTimePeriod2;
+    STATE_P.optInTimePeriod3 = optInTimePeriod3;
+
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodA, double, optInTimePeriod3+1);
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodB, double, optInTimePeriod3+1);
 #undef swap
-- 
2.43.0


From ad841d55bae157547c711f8990924f82da9de804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 11/22] fix: candlestick streams KICKING, KICKINGBYLENGTH and
 SHOOTINGSTAR mixed two kinds of candle ranges in one running total

---
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c         | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index c63fc3a..dd03806 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -441,9 +441,9 @@ int i1;
         if (!(NEED_MORE_DATA))
         {
          STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
+         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
          STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
+         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody - 1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index 3939352..4671742 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -448,9 +448,9 @@ int i1;
         if (!(NEED_MORE_DATA))
         {
          STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
+         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
          STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
+         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody - 1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index ee84314..d75bc76 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -409,7 +409,7 @@ int i1;
 
         if ((int)STATE.mem_index-1 >= STATE.gapBody)
         {
-          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyLong );
+          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyShort );
         }
 
         if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
-- 
2.43.0


From 8cd1164c42e2e809ec3d1cb8b3feb7a20cce4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 12/22] fix: TA_STOCH no longer copies past its outputs when
 the %D average fails

---
 ta-lib-rt/c/src/ta_func/ta_STOCH.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 14c5d4a..47ef492 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -534,7 +534,8 @@
     *  caller buffer because more input data then the
     *  requested range was needed for doing %D).
     */
-   ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+   if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+      ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
 
    /* Don't need K anymore, free it if it was allocated here. */
    #if defined(USE_SINGLE_PRECISION_INPUT)
@@ -1325,7 +1326,8 @@ TA_RetCode retCode;
 /* Generated */                                        tempBuffer, optInSlowD_Period,
 /* Generated */                                        optInSlowD_MAType,
 /* Generated */                                        outBegIdx, outNBElement, outSlowD );
-/* Generated */    ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+/* Generated */    if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+/* Generated */       ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       ARRAY_FREE( tempBuffer ); 
 /* Generated */    #else
-- 
2.43.0


From 1b755a979d50067fb188afb5a51dcb1aca470cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 13/22] fix: no state memory access when the lookback is 0
 (PUSH_TO_MEM/POP_FROM_MEM, TRIMA)

---
 ta-lib-rt/c/include/ta_defs.h      | 7 +++++--
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c | 7 +++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/include/ta_defs.h b/ta-lib-rt/c/include/ta_defs.h
index a02309c..fdc3892 100644
--- a/ta-lib-rt/c/include/ta_defs.h
+++ b/ta-lib-rt/c/include/ta_defs.h
@@ -212,8 +212,11 @@
 #define MEM_IDX(idx) VALUE_HANDLE_DEREF( (STATE.memory+idx) )
 #define MEM_IDX_NS(ns,idx) MEM_IDX(idx).ns
 #define FOR_ALL_MEM(i) for (i = 0; i < MEM_SIZE; ++i)
-#define PUSH_TO_MEM(x,y) MEM_IDX_NS(x, _cur_idx) = y
-#define POP_FROM_MEM(x) MEM_IDX_NS(x, _cur_idx)
+/* There is no memory when the lookback is 0 (MEM_SIZE == 0): nothing is kept
+ * and the value that leaves the window is the current input x itself.
+ */
+#define PUSH_TO_MEM(x,y) do { if (MEM_SIZE > 0) MEM_IDX_NS(x, _cur_idx) = y; } while (0)
+#define POP_FROM_MEM(x) ( MEM_SIZE > 0 ? MEM_IDX_NS(x, _cur_idx) : x )
 #define NEED_MORE_DATA STATE.mem_size > STATE.mem_index - 1
 #define LAST_NEED_MORE_DATA STATE.mem_size == STATE.mem_index
 #define FIRST_LAUNCH (STATE.mem_index == 1)
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index 9449034..1aa02c7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -584,6 +584,13 @@ double tempReal;
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
+   if (MEM_SIZE == 0)
+   {
+      /* Period of 1, no smoothing needed. */
+      VALUE_HANDLE_DEREF(outReal) = inReal;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
    if (FIRST_LAUNCH)
     {
     STATE.numerator = 0;
-- 
2.43.0


From 1108708defda0600710d7b1c14737fd0a84eb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 14/22] fix: EMA and WLMA streams answer the first update when
 the lookback is 0

---
 ta-lib-rt/c/src/ta_func/ta_EMA.c  | 5 ++++-
 ta-lib-rt/c/src/ta_func/ta_WLMA.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 3196d24..8fc5c75 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -528,7 +528,10 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
            if (FIRST_LAUNCH)
             {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              if (NEED_MORE_DATA)
+                 return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
+              return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
             }
       }
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index a75c121..fbd57d6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -525,7 +525,10 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
            if (FIRST_LAUNCH)
             {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              if (NEED_MORE_DATA)
+                 return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
+              return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
             }
       }
 
-- 
2.43.0


From 759b076b61c3bdcea39825bcb2d6fd9a75ebfd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 15/22] fix: ATR and NATR streams of period 1 honour the
 unstable period and check _state

---
 ta-lib-rt/c/src/ta_func/ta_ATR.c  | 16 +++++++++-------
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 15 +++++++++------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index 0c82a3f..25cd56e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -412,13 +412,6 @@ TA_RetCode retCode;
 {
    /* insert local variable here */
 
-
-             if( STATE.optInTimePeriod <= 1 )
-             {
-                /* No smoothing needed. Just do a TRANGE. */
-                return FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
-             }
-
              TA_RetCode retCode;
 #define TA_ATR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal, tempATR;
@@ -453,6 +446,15 @@ double tempReal, tempATR;
 
    /* insert state based TA func code here. */
 
+   if( STATE.optInTimePeriod <= 1 )
+   {
+      /* No smoothing needed. Just do a TRANGE. */
+      retCode = FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
+      if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) && NEED_MORE_DATA )
+         return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+      return retCode;
+   }
+
    if (FIRST_LAUNCH)
     {
      STATE.firstATR = 1;
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index ede2c2f..7d9386c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -436,12 +436,6 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-        if( STATE.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
-        }
-
         TA_RetCode retCode;
 #define TA_NATR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal, tempATR;
@@ -474,6 +468,15 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
+        if( STATE.optInTimePeriod <= 1 )
+        {
+           /* No smoothing needed. Just do a TRANGE. */
+           retCode = FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
+           if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) && NEED_MORE_DATA )
+              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+           return retCode;
+        }
+
         if (FIRST_LAUNCH)
          {
           STATE.firstATR = 1;
-- 
2.43.0


From a633be8900117796b5500588405c80976d82844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 16/22] fix: T3 stream with period 1 or an unstable period

---
 ta-lib-rt/c/src/ta_func/ta_T3.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index c0fa8f4..5241da3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -482,6 +482,12 @@
     STATE.c4 = 1.0 + 3.0 * STATE.optInVFactor - STATE.c1 + 3.0 * t;
    }
 
+   if (STATE.optInTimePeriod == 1)
+   {
+       /* All the EMAs start with the very first value. */
+       if (FIRST_LAUNCH)
+          STATE.e1 = STATE.e2 = STATE.e3 = STATE.e4 = STATE.e5 = STATE.e6 = inReal;
+   } else
    if ((int)_cur_idx < STATE.optInTimePeriod)
    {
        STATE.tempReal += inReal;
@@ -558,30 +564,19 @@
                                return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
                        }
 
-   if (NEED_MORE_DATA)
+   /* The value which starts e6 is already part of all the EMAs. */
+   if ((int)_cur_idx != 6*STATE.optInTimePeriod-6)
    {
-
    STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
    STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
    STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
    STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
    STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
    STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
-   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-   } else
-       if (STATE.firstOutput == 0)
-       {
-           STATE.firstOutput = 1;
-           VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
-           return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-       }
+   }
 
-   STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
-   STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
-   STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
-   STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
-   STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
-   STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
+   if (NEED_MORE_DATA)
+      return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
 
-- 
2.43.0


From 444d7ff6d6662e76bce8e933603b27097de2c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 17/22] fix: SAREXT stream with a start value needs two values
 like its lookback

---
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index 72a68b3..c92c4a7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -897,8 +897,10 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
              retCode = FUNCTION_CALL_STATE(MINUS_DM)( (struct TA_MINUS_DM_State*) STATE.stateMINUS_DM, inHigh, inLow, &ep_temp );
              if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
              STATE.isLong = (ep_temp > 0)?0:1;
-             } else
+             } else {
+                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
                  STATE.isLong = (STATE.optInStartValue > 0)?1:0;
+             }
 
              SAR_ROUNDING(STATE.newHigh);
              SAR_ROUNDING(STATE.newLow);
-- 
2.43.0


From 6514ad5cec1b6f768b15bac61dffcf4890dfd164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 18/22] fix: MACDEXT stream delays the slow MA when its
 lookback is the shorter one

---
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 64440d3..58ee94c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -657,16 +657,23 @@ int tempInteger, tempInteger2;
            tempInteger2 = LOOKBACK_CALL(MA)( STATE.optInFastPeriod, STATE.optInFastMAType );
            if (tempInteger2 < 0) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
-           STATE.fastMADelay = abs( tempInteger - tempInteger2 );
+           STATE.fastMADelay = tempInteger - tempInteger2;
          }
 
+        retCode1 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+        retCode2 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+
+        /* The MA which needs less data starts later. */
+
         /* Calculate the slow MA.  */
+        if (-STATE.fastMADelay < (int) STATE.mem_index)
+        {
         retCode1 = FUNCTION_CALL_STATE(MA)( STATE.slowMAState, inReal, &slowMA );
 
         if( retCode1 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
             retCode1 != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData))
            return retCode1;
-
+        }
 
         /* Calculate the fast MA. */
         if (STATE.fastMADelay < (int) STATE.mem_index)
@@ -676,8 +683,7 @@ int tempInteger, tempInteger2;
         if( retCode2 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
             retCode2 != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData))
            return retCode2;
-        } else return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-
+        }
 
         if (retCode1 | retCode2)
            return (retCode1 | retCode2);
-- 
2.43.0


From 73c088298bd9e3ccc48757b1ab86d79d53cd3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 19/22] fix: TA_MAVP with the input array also as output array
 read results as inputs

---
 ta-lib-rt/c/src/ta_func/ta_MAVP.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index cc6dcb3..a92ff2f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -187,6 +187,7 @@
    int i, j, lookbackTotal, outputSize, tempInt, curPeriod;
    ARRAY_INT_REF(localPeriodArray);
    ARRAY_REF(localOutputArray);
+   ARRAY_REF(resultArray);
    VALUE_HANDLE_INT(localBegIdx);
    VALUE_HANDLE_INT(localNbElement);
    ENUM_DECLARATION(RetCode) retCode;
@@ -270,11 +271,13 @@
 
    /* Allocate intermediate local buffer. */
    ARRAY_ALLOC(localOutputArray,outputSize);
+   ARRAY_ALLOC(resultArray,outputSize);
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
    #if !defined(_JAVA)
-      if( !localOutputArray || !localPeriodArray )
+      if( !localOutputArray || !resultArray || !localPeriodArray )
       {
          ARRAY_FREE(localOutputArray);
+         ARRAY_FREE(resultArray);
          ARRAY_INT_FREE(localPeriodArray);
          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
       }
@@ -319,25 +322,32 @@
            if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 		   {
               ARRAY_FREE(localOutputArray);
+              ARRAY_FREE(resultArray);
 			  ARRAY_INT_FREE(localPeriodArray);
               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
               return retCode;
 	       }
 		   
-		   outReal[i] = localOutputArray[i];
+		   resultArray[i] = localOutputArray[i];
 		   for( j=i+1; j < outputSize; j++ )
 		   {
 			   if( localPeriodArray[j] == curPeriod )
 			   {
 				   localPeriodArray[j] = 0; /* Flag to avoid recalculation */
-				   outReal[j] = localOutputArray[j];
+				   resultArray[j] = localOutputArray[j];
 			   }
 		   }		   
 	   }
    }
 
+   /* The output is written only now because the caller is allowed
+    * to have an input array to be also the output array.
+    */
+   ARRAY_MEMMOVE( outReal, 0, resultArray, 0, outputSize );
+
    ARRAY_FREE(localOutputArray);
+   ARRAY_FREE(resultArray);
    ARRAY_INT_FREE(localPeriodArray);
 
    /* Done. Inform the caller of the success. */
@@ -771,6 +781,7 @@ TA_RetCode retCode;
 /* Generated */    int i, j, lookbackTotal, outputSize, tempInt, curPeriod;
 /* Generated */    ARRAY_INT_REF(localPeriodArray);
 /* Generated */    ARRAY_REF(localOutputArray);
+/* Generated */    ARRAY_REF(resultArray);
 /* Generated */    VALUE_HANDLE_INT(localBegIdx);
 /* Generated */    VALUE_HANDLE_INT(localNbElement);
 /* Generated */    ENUM_DECLARATION(RetCode) retCode;
@@ -823,11 +834,13 @@ TA_RetCode retCode;
 /* Generated */    }   
 /* Generated */    outputSize = endIdx - tempInt + 1;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
+/* Generated */    ARRAY_ALLOC(resultArray,outputSize);
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 /* Generated */    #if !defined(_JAVA)
-/* Generated */       if( !localOutputArray || !localPeriodArray )
+/* Generated */       if( !localOutputArray || !resultArray || !localPeriodArray )
 /* Generated */       {
 /* Generated */          ARRAY_FREE(localOutputArray);
+/* Generated */          ARRAY_FREE(resultArray);
 /* Generated */          ARRAY_INT_FREE(localPeriodArray);
 /* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */       }
@@ -852,23 +865,26 @@ TA_RetCode retCode;
 /* Generated */            if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 /* Generated */ 		   {
 /* Generated */               ARRAY_FREE(localOutputArray);
+/* Generated */               ARRAY_FREE(resultArray);
 /* Generated */ 			  ARRAY_INT_FREE(localPeriodArray);
 /* Generated */               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
 /* Generated */               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */               return retCode;
 /* Generated */ 	       }
-/* Generated */ 		   outReal[i] = localOutputArray[i];
+/* Generated */ 		   resultArray[i] = localOutputArray[i];
 /* Generated */ 		   for( j=i+1; j < outputSize; j++ )
 /* Generated */ 		   {
 /* Generated */ 			   if( localPeriodArray[j] == curPeriod )
 /* Generated */ 			   {
 /* Generated */ 				   localPeriodArray[j] = 0; 
-/* Generated */ 				   outReal[j] = localOutputArray[j];
+/* Generated */ 				   resultArray[j] = localOutputArray[j];
 /* Generated */ 			   }
 /* Generated */ 		   }		   
 /* Generated */ 	   }
 /* Generated */    }
+/* Generated */    ARRAY_MEMMOVE( outReal, 0, resultArray, 0, outputSize );
 /* Generated */    ARRAY_FREE(localOutputArray);
+/* Generated */    ARRAY_FREE(resultArray);
 /* Generated */    ARRAY_INT_FREE(localPeriodArray);
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    VALUE_HANDLE_DEREF(outNBElement) = outputSize;
-- 
2.43.0


From c49b73ffeaff27b0f0415b3ef8abc73b2b705279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 20/22] fix: TA_NATR wrote the 0 of a zero close to the first
 position and left its own unset

---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 7d9386c..ec6d974 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -336,7 +336,7 @@
       if( !TA_IS_ZERO(tempValue) )
          outReal[outIdx] = (prevATR/tempValue)*100.0;
       else
-         outReal[0] = 0.0;
+         outReal[outIdx] = 0.0;
       outIdx++;
    }
 
@@ -907,7 +907,7 @@ TA_RetCode retCode;
 /* Generated */       if( !TA_IS_ZERO(tempValue) )
 /* Generated */          outReal[outIdx] = (prevATR/tempValue)*100.0;
 /* Generated */       else
-/* Generated */          outReal[0] = 0.0;
+/* Generated */          outReal[outIdx] = 0.0;
 /* Generated */       outIdx++;
 /* Generated */    }
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx)    = startIdx;
-- 
2.43.0


From fb952204fd8f74670940f3b5e9719225c4c1297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 21/22] fix: streams of six candlestick patterns removed the
 wrong candle from their running totals

BREAKAWAY and COUNTERATTACK removed the range they had just added,
EVENINGSTAR and MORNINGSTAR mapped the index twice, STALLEDPATTERN and
HIKKAKEMOD removed the range of another position: after a while the
streams recognised other patterns than the calculation.
---
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c      | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c  | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c    | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c     | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c    | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index 4b5847a..17aaf15 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -422,7 +422,7 @@ unsigned int i1,i2,i3,i4;
 
         if (!(NEED_MORE_DATA))
         {
-         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE_CUR( BodyLong );
+         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -TA_CANDLEAVGPERIOD(BodyLong)-4 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index 7c807c6..89e9aba 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -415,7 +415,7 @@ unsigned int i1;
         {
          STATE.EqualPeriodTotal -= TA_CANDLERANGE_STATE( Equal, -STATE.periodEqual-1 );
          STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
-         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE_CUR( BodyLong );
+         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 497d1e3..00c5eef 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -460,7 +460,7 @@ int i1,i2;
         {
          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
+         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort+1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 779b1b9..9f3d546 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -466,7 +466,7 @@ int i1,i2,i3;
                     STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX( Near, i2 );
 
                 if ((int)STATE.mem_index-1 >= (int)MEM_SIZE-3)
-                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
+                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear+1 );
 
 
                 PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 491dc83..4b9bcc0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -450,7 +450,7 @@ int i1,i2;
         {
          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
+         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort+1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index 5b94507..e9b471f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -488,7 +488,7 @@ int i1, i2, i3;
           STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
           STATE.BodyLongPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-2 );
           STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
+          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort-1 );
           STATE.NearPeriodTotal1 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-1 );
           STATE.NearPeriodTotal2 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
         }
-- 
2.43.0


From b773c80c371f9cc9efbdfde0a0ee8e7aea812a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 22/22] fix: streams of ten candlestick patterns started their
 running totals at the wrong candle

The totals were added to from another position on than the first one
removed later, so the stream compared with the sum of a wrong number of
candles (2CROWS, 3BLACKCROWS, 3INSIDE, ABANDONEDBABY, HIGHWAVE, MATHOLD,
RISEFALL3METHODS, TRISTAR, UNIQUE3RIVER, UPSIDEGAP2CROWS).
---
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c           | 15 +++++++++------
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c      |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c          |  4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c    |  6 +++---
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c         |  6 ++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c          |  4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c |  4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c          |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c     |  2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c  |  4 ++--
 10 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index 2cdd5a4..ff07d40 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -363,11 +363,11 @@
             STATE.BodyLongPeriodTotal = 0.;
       }
 
-   if (STATE.mem_index > MEM_SIZE-2)
-   {
-       i1 = GET_LOCAL_IDX(-1);
-       i2 = GET_LOCAL_IDX(-2);
+   i1 = GET_LOCAL_IDX(-1);
+   i2 = GET_LOCAL_IDX(-2);
 
+   if (!(NEED_MORE_DATA))
+   {
        if( TA_CANDLECOLOR_STATE_IDX(i2) == 1 &&                                                         // 1st: white
            TA_REALBODY_STATE_IDX(i2) > TA_CANDLEAVERAGE_STATE_IDX(  BodyLong,  STATE.BodyLongPeriodTotal, i2 ) &&     //      long
            TA_CANDLECOLOR_STATE_IDX(i1) == -1 &&                                                        // 2nd: black
@@ -381,8 +381,11 @@
        else
            VALUE_HANDLE_DEREF(outInteger) = 0;
 
-       STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 ) - TA_CANDLERANGE_STATE( BodyLong, -MEM_SIZE );
-   } else  STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
+       STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -MEM_SIZE );
+   }
+
+   if (STATE.mem_index-1 >= 2)
+       STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
 
 
    PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index a34e189..993afb7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -413,7 +413,7 @@ unsigned int i1,i2,i3;
         }
 
 
-        if (STATE.mem_index-1 >= 2)
+        if (STATE.mem_index-1 >= 3)
         {
           STATE.ShadowVeryShortPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i2 );
           STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 1a77129..aefdf89 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -398,12 +398,12 @@ unsigned int i1,i2;
                 }
 
 
-                if (STATE.mem_index-1 >= 2)
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - STATE.periodBodyLong + 2)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyLong, i2 );
                 }
 
-                if (STATE.mem_index-1 >= 1)
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - STATE.periodBodyShort + 1)
                 {
                   STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyShort, i1 );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index 154ae6d..dfd1330 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -436,11 +436,11 @@
                   STATE.BodyShortPeriodTotal = 0.;
 
                   STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                  STATE.periodBodyDoji = TA_CANDLEAVGPERIOD(BodyDoji) - 1;
+                  STATE.periodBodyDoji = TA_CANDLEAVGPERIOD(BodyDoji) + 1;
                   STATE.periodBodyShort = TA_CANDLEAVGPERIOD(BodyShort);
 
-                  STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
-                  STATE.gapBodyDoji = MEM_SIZE - STATE.periodBodyDoji;
+                  STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
+                  STATE.gapBodyDoji = MEM_SIZE - STATE.periodBodyDoji + 1;
                   STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort;
             }
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 1cb06aa..7f58675 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -373,8 +373,10 @@
                 }
 
 
-                STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
-                STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(BodyShort))
+                   STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(ShadowVeryLong))
+                   STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
 
 
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 5b88db8..cfb8447 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -480,14 +480,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index 2eb6062..904d8fe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -445,14 +445,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
             STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  BodyLong );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 5930fa1..3b348a5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -370,7 +370,7 @@ int i1, i2;
            {
                  STATE.BodyPeriodTotal = 0.;
                  STATE.periodBody = TA_CANDLEAVGPERIOD(BodyDoji) + 2;
-                 STATE.gapBody = MEM_SIZE - STATE.periodBody;
+                 STATE.gapBody = MEM_SIZE - STATE.periodBody + 2;
            }
 
         i1 = GET_LOCAL_IDX(-1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index 8997cf7..c40def2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -374,7 +374,7 @@ int i1,i2;
 
                  STATE.BodyLongPeriodTotal = 0.;
                  STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                 STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
+                 STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
            }
 
         i1 = GET_LOCAL_IDX(-1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index 46d529a..a23baad 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -373,11 +373,11 @@ int i1,i2;
                    {
                          STATE.BodyShortPeriodTotal = 0.;
                          STATE.periodBodyShort = TA_CANDLEAVGPERIOD(BodyShort) + 1;
-                         STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort;
+                         STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort + 1;
 
                          STATE.BodyLongPeriodTotal = 0.;
                          STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                         STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
+                         STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
                    }
 
                 i1 = GET_LOCAL_IDX(-1);
-- 
2.43.0


From a0ec09fb02666ee90c0f1590c47cebdaebee4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:23 +0000
Subject: [PATCH 01/23] fix: print messages whose dynamic width or precision is
 negative

The decoder used -1 to mean "no dynamic width/precision" and so called
printf with too few arguments when a '*' argument was negative.
---
 runtime/Log.cc | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index d941041..3f50c86 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1249,9 +1249,9 @@ Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
  * \param arg
  *      Argument to pass in with the format string
  * \param width
- *      Width parameter of a printf-specifier, a value of -1 specifies none
+ *      Width parameter of a printf-specifier, nullptr specifies none
  * \param precision
- *      precision parameter of a printf-specifier, a value of -1 specifies none
+ *      precision parameter of a printf-specifier, nullptr specifies none
  */
 template<typename T>
 static inline void
@@ -1259,8 +1259,8 @@ printSingleArg(FILE *outputFd,
                NanoLogInternal::Log::LogMessage &logArguments,
                const char* formatString,
                T arg,
-               int width = -1,
-               int precision = -1)
+               const int *width = nullptr,
+               const int *precision = nullptr)
 {
     logArguments.push(arg);
 
@@ -1271,14 +1271,14 @@ printSingleArg(FILE *outputFd,
 #pragma GCC diagnostic ignored "-Wformat-security"
 #pragma GCC diagnostic ignored "-Wformat-nonliteral"
 
-    if (width < 0 && precision < 0) {
+    if (width == nullptr && precision == nullptr) {
         fprintf(outputFd, formatString, arg);
-    } else if (width >= 0 && precision < 0)
-        fprintf(outputFd, formatString, width, arg);
-    else if (width >= 0 && precision >= 0)
-        fprintf(outputFd, formatString, width, precision, arg);
+    } else if (width != nullptr && precision == nullptr)
+        fprintf(outputFd, formatString, *width, arg);
+    else if (width != nullptr && precision != nullptr)
+        fprintf(outputFd, formatString, *width, *precision, arg);
     else
-        fprintf(outputFd, formatString, precision, arg);
+        fprintf(outputFd, formatString, *precision, arg);
 
 #pragma GCC diagnostic pop
 }
@@ -1436,13 +1436,21 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         for (int i = 0; i < metadata->numPrintFragments; ++i) {
             const wchar_t *wstrArg;
 
-            int width = -1;
-            if (pf->hasDynamicWidth)
-                width = nb.getNext<int>();
+            // Negative widths and precisions are valid arguments, so whether
+            // they were specified at all is kept separate from their values.
+            int dynamicWidth;
+            const int *width = nullptr;
+            if (pf->hasDynamicWidth) {
+                dynamicWidth = nb.getNext<int>();
+                width = &dynamicWidth;
+            }
 
-            int precision = -1;
-            if (pf->hasDynamicPrecision)
-                precision = nb.getNext<int>();
+            int dynamicPrecision;
+            const int *precision = nullptr;
+            if (pf->hasDynamicPrecision) {
+                dynamicPrecision = nb.getNext<int>();
+                precision = &dynamicPrecision;
+            }
 
             switch(pf->argType) {
                 case NONE:
-- 
2.43.0


From 7e38c30c0af3df5e38a063a3f9bcddcb249cfe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:52 +0000
Subject: [PATCH 02/23] fix: decode format specifiers with an empty precision,
 such as %.f

printf and the compile-time analysis accept a precision consisting of only
the period; the decoder did not recognise it as a specifier and left its
argument unread.
---
 runtime/Log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 3f50c86..f143c1c 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -847,7 +847,7 @@ Log::Decoder::createMicroCode(char **microCode,
     std::regex regex("^%"
                      "([-+ #0]+)?" // Flags (Position 1)
                      "([\\d]+|\\*)?" // Width (Position 2)
-                     "(\\.(\\d+|\\*))?"// Precision (Position 4; 3 includes '.')
+                     "(\\.(\\*|\\d*))?"// Precision (Position 4; 3 includes '.')
                      "(hh|h|l|ll|j|z|Z|t|L)?" // Length (Position 5)
                      "([diuoxXfFeEgGaAcspn])"// Specifier (Position 6)
                      );
-- 
2.43.0


From 3c7267a72ed7c7368567da9eca8ba5c47b9bf9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:52 +0000
Subject: [PATCH 03/23] fix: do not treat a backslash in a decoded format
 string as an escape

The dictionary holds the run-time value of the format string, in which C
escapes have already been processed, so a specifier that directly follows a
backslash is a specifier (as it is for printf).
---
 runtime/Log.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index f143c1c..30e20a1 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -866,12 +866,6 @@ Log::Decoder::createMicroCode(char **microCode,
     while (i < formatStringLength) {
         char c = formatString[i];
 
-        // Skip the next character if there's an escape
-        if (c == '\\') {
-            i += 2;
-            continue;
-        }
-
         if (c != '%') {
             ++i;
             consecutivePercents = 0;
-- 
2.43.0


From be9bf10e449db42048a7321e1baeae9696e42229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:55 +0000
Subject: [PATCH 04/23] fix: do not read a string argument past its precision

With %.Ns and %.*s the argument need not be NULL-terminated, but its length
was computed with strlen/wcslen before it was limited to the precision.
---
 runtime/NanoLogCpp17.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/runtime/NanoLogCpp17.h b/runtime/NanoLogCpp17.h
index ffb063e..6c9bc7f 100644
--- a/runtime/NanoLogCpp17.h
+++ b/runtime/NanoLogCpp17.h
@@ -609,20 +609,20 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = strlen(str);
-    uint32_t fmtLength = static_cast<uint32_t>(fmtType);
-
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
-    // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    // truncate the string as necessary. Note that such a string does not have
+    // to be NULL-terminated, so it must not be read past its precision.
+    if (fmtType >= ParamType::STRING)
+        stringBytes = strnlen(str, static_cast<uint32_t>(fmtType));
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
     // the previous parameter as the precision and truncate as necessary.
-    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-                stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION)
+        stringBytes = strnlen(str, previousPrecision);
+
+    else
+        stringBytes = strlen(str);
 
     return stringBytes + sizeof(uint32_t);
 }
@@ -639,20 +639,20 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = wcslen(wstr);
-    uint32_t fmtLength = static_cast<uint32_t>(fmtType);
-
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
-    // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    // truncate the string as necessary. Note that such a string does not have
+    // to be NULL-terminated, so it must not be read past its precision.
+    if (fmtType >= ParamType::STRING)
+        stringBytes = wcsnlen(wstr, static_cast<uint32_t>(fmtType));
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
     // the previous parameter as the precision and truncate as necessary.
-    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-             stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION)
+        stringBytes = wcsnlen(wstr, previousPrecision);
+
+    else
+        stringBytes = wcslen(wstr);
 
     stringBytes *= sizeof(wchar_t);
     return stringBytes + sizeof(uint32_t);
-- 
2.43.0


From 5cc14d802bc1c6cac0fffbd2ab27890cb6dbdcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:00 +0000
Subject: [PATCH 05/23] fix: compressLogHeader reports the number of bytes it
 wrote

---
 runtime/Log.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtime/Log.h b/runtime/Log.h
index abf2873..a7f8fc9 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -530,6 +530,7 @@ namespace Log {
     inline size_t
     compressLogHeader(const UncompressedEntry *re, char** out,
                         uint64_t lastTimestamp) {
+        const char *start = *out;
         CompressedEntry *mo = reinterpret_cast<CompressedEntry*>(*out);
         *out += sizeof(CompressedEntry);
 
@@ -542,9 +543,7 @@ namespace Log {
                     BufferUtils::pack(out, static_cast<int64_t>(
                                             re->timestamp - lastTimestamp)));
 
-        return sizeof(CompressedEntry)
-                    + mo->additionalFmtIdBytes + 1
-                    + (0x7 & mo->additionalTimestampBytes);
+        return static_cast<size_t>(*out - start);
     }
 
     /**
-- 
2.43.0


From a61cecca4359bf7f3e978f0318826feb7d252b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 06/23] fix: sorted decompression prints all buffered messages
 before a new execution

---
 runtime/Log.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 30e20a1..d95c4d8 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1867,11 +1867,14 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     // New logical start to the logs detected, at this point
                     // we should make sure we've printed all the buffered logs
                     // before continuing to parse the next logical start.
-                    if (!stages[0].empty()) {
-                        mustDepleteAllStages = true;
-                        break;
+                    for (auto &stage : stages) {
+                        if (!stage.empty())
+                            mustDepleteAllStages = true;
                     }
 
+                    if (mustDepleteAllStages)
+                        break;
+
                     // We're safe, all the stages are empty
                     good = readDictionary(inputFd, true);
 
-- 
2.43.0


From c1942be5cb17c3df2f5f3176bf41099141de027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:41 +0000
Subject: [PATCH 07/23] fix: empty extents do not keep the timestamp of an
 earlier extent

---
 runtime/Log.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index d95c4d8..dab0282 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1218,8 +1218,11 @@ Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
 
     // The buffer has no log messages, skip it (this may be possible in cases
     // where we want to mark wrapArounds or the output buffer ran out of space).
+    // The timestamp is cleared since sorting should not see one that was left
+    // behind by a previous use of this fragment.
     if (readPos == endOfBuffer) {
         hasMoreLogs = false;
+        nextLogTimestamp = 0;
         return true;
     }
 
-- 
2.43.0


From ee4296985f2e0e428364fcc63a7b9f1ca8a23f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:32 +0000
Subject: [PATCH 08/23] fix: sorted decompression prints nothing before enough
 passes are buffered

---
 runtime/Log.cc | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index dab0282..521c404 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1918,7 +1918,23 @@ Log::Decoder::decompressTo(FILE* outputFd)
 
         // Step 3: Deplete the first stage
         while (true) {
-            // Step 3a: Find the minimum amongst the stages
+            // Step 3a: Check for exit condition. This comes before outputting
+            // anything, since the first stage may have been depleted while
+            // an even earlier stage was processed.
+            if (stagesBuffered > 0 && stages[0].empty()) {
+                for (uint32_t i = 0; i < stagesBuffered - 1; ++i) {
+                    stages[i] = stages[i+1];
+                }
+                stages[stagesBuffered - 1].clear();
+
+                --stagesBuffered;
+                if (!mustDepleteAllStages)
+                    break;
+
+                continue;
+            }
+
+            // Step 3b: Find the minimum amongst the stages
             std::vector<BufferFragment*> *minStage = nullptr;
             for (uint32_t i = 0; i < stagesBuffered; ++i) {
                 if (stages[i].empty())
@@ -1937,7 +1953,7 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 break;
             }
 
-            // Step 3b: Output the log message
+            // Step 3c: Output the log message
             BufferFragment *bf = minStage->front();
             bf->decompressNextLogStatement(outputFd, logMsgsPrinted,
                                            logArguments, checkpoint,
@@ -1956,18 +1972,6 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 minStage->pop_back();
                 freeBufferFragment(bf);
             }
-
-            // Step 3c: Check for exit condition
-            if (stages[0].empty()) {
-                for (uint32_t i = 0; i < stagesBuffered - 1; ++i) {
-                    stages[i] = stages[i+1];
-                }
-                stages[stagesBuffered - 1].clear();
-
-                --stagesBuffered;
-                if (!mustDepleteAllStages)
-                    break;
-            }
         }
     }
 
-- 
2.43.0


From d919be95d91d869c2129ecd83ad09eccf0ad4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:19 +0000
Subject: [PATCH 09/23] fix: the decoder accepts extents whose arguments grew
 during compression

---
 runtime/Log.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtime/Log.h b/runtime/Log.h
index a7f8fc9..9c1cefc 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -880,10 +880,11 @@ namespace Log {
          */
         struct BufferFragment {
             // Stores the bytes in a compressed log BufferExtent. The size is
-            // chosen to be a little bigger than the size of a runtime
-            // StagingBuffer to account for any other entries that may be
-            // inserted at runtime.
-            char storage[NanoLogConfig::STAGING_BUFFER_SIZE
+            // chosen to be bigger than twice the size of a runtime
+            // StagingBuffer to account for arguments that do not compress
+            // (i.e. the Nibbles can make them bigger) and any other entries
+            // that may be inserted at runtime.
+            char storage[2*NanoLogConfig::STAGING_BUFFER_SIZE
                                              + BufferExtent::maxSizeOfHeader()];
 
             // Number of valid bytes in storage.
-- 
2.43.0


From d902ff1a8cf1a439f02f1ae2b8c3c446f39b7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:02 +0000
Subject: [PATCH 10/23] fix: opening another log forgets what was buffered of
 the previous one

---
 runtime/Log.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 521c404..f7c2882 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1078,6 +1078,13 @@ Log::Decoder::readDictionaryFragment(FILE *fd) {
  */
 bool
 Log::Decoder::open(const char *filename) {
+    // Forget everything about a previously opened file
+    if (inputFd)
+        fclose(inputFd);
+
+    bufferFragment->reset();
+    this->filename.clear();
+
     inputFd = fopen(filename, "rb");
     good = false;
 
-- 
2.43.0


From 3bc18dc5b1c287feb19e3dd2ebcfaf6ba14a4b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:45 +0000
Subject: [PATCH 11/23] fix: sorted decompression buffers one more stage, since
 a stage ends with the first extent of the next round

---
 runtime/Log.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index f7c2882..69ef7cd 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1839,8 +1839,10 @@ Log::Decoder::decompressTo(FILE* outputFd)
     // entries added to n-1. The reason why we need at least 3 is due to an
     // implementation detail in StagingBuffer whereby one peek() does not
     // return all the data and at least 2 peek()'s are needed to deplete a
-    // buffer.
-    static const uint32_t stagesToBuffer = 3;
+    // buffer. One more is needed since the extent that marks a new round ends
+    // up in the stage of the previous one, i.e. a stage that has just been read
+    // lacks the start of its own round and contains the start of the next.
+    static const uint32_t stagesToBuffer = 4;
     std::vector<BufferFragment*> stages[stagesToBuffer];
 
     // Running number of stages being kept in stages
-- 
2.43.0


From bc8c94af5efce6dd0231fbf6b0e46dd84c3d0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:11 +0000
Subject: [PATCH 12/23] fix: the nanoseconds of a printed time carry into the
 seconds when they round up

---
 runtime/Log.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 69ef7cd..802e678 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1365,6 +1365,13 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
             nanos += 1.0e9;
         }
 
+        // The nanoseconds are printed without decimals; if they would round up
+        // to a full second, they no longer fit the field and must be carried.
+        if (nanos >= 999999999.5) {
+            wholeSeconds++;
+            nanos = 0.0;
+        }
+
         std::time_t absTime = wholeSeconds + checkpoint.unixTime;
         std::tm *tm = localtime(&absTime);
         strftime(timeString, sizeof(timeString), "%Y-%m-%d %H:%M:%S", tm);
-- 
2.43.0


From 4bb4e004b6689b02fed09b925656068651e082d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:24 +0000
Subject: [PATCH 13/23] fix: deleting the buffer a pass started with no longer
 ends the pass, so sync() cannot miss other buffers

---
 runtime/RuntimeLogger.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 56b7c0f..1051d76 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -484,12 +484,21 @@ RuntimeLogger::compressionThreadMain() {
                             break;
                         }
 
+                        // If our pass started with the deleted buffer, then it
+                        // now starts with the next one (not yet checked).
+                        if (lastStagingBufferChecked == i) {
+                            if (i == threadBuffers.size()) {
+                                i = 0;
+                                wrapAround = true;
+                            }
+                            lastStagingBufferChecked = i;
+                            continue;
+                        }
+
                         // Back up the indexes so that we ensure we wont skip
-                        // a buffer in our pass (and it's okay to redo one)
-                        if (lastStagingBufferChecked >= i &&
-                            lastStagingBufferChecked > 0) {
+                        // a buffer in our pass
+                        if (lastStagingBufferChecked > i)
                             --lastStagingBufferChecked;
-                        }
                         --i;
                     }
                 }
-- 
2.43.0


From 86d4170d1b4aed17106697dada32d9bbdc99e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:24 +0000
Subject: [PATCH 14/23] fix: sync() keeps waiting after a spurious wake-up of
 its condition variable

---
 runtime/RuntimeLogger.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 1051d76..dfd6669 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -734,7 +734,9 @@ RuntimeLogger::sync() {
     std::unique_lock<std::mutex> lock(nanoLogSingleton.condMutex);
     nanoLogSingleton.syncStatus = SYNC_REQUESTED;
     nanoLogSingleton.workAdded.notify_all();
-    nanoLogSingleton.hintSyncCompleted.wait(lock);
+    // Wait on the condition, since condition variables can wake up spuriously
+    while (nanoLogSingleton.syncStatus != SYNC_COMPLETED)
+        nanoLogSingleton.hintSyncCompleted.wait(lock);
 }
 
 /**
-- 
2.43.0


From de0346cb66f7d86f4a45877faa9816c209cc425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 15/23] fix: preprocessor mode: wide strings limited by a
 precision use wcsnlen, as wcsnlen_s does not exist

---
 preprocessor/FunctionGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 45e8892..872da2c 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -418,10 +418,10 @@ size_t numLogIds = {count};
                     strlenToAdd += "(1 + wcslen(arg{0}))*sizeof(wchar_t);"\
                                         .format(argNum)
                 elif precision == '*':
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, arg{1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, arg{1}))*sizeof(wchar_t);"\
                                         .format(argNum,argNum - 1)
                 else:
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, {1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, {1}))*sizeof(wchar_t);"\
                                         .format(argNum, precision)
             else:
                 if not precision:
-- 
2.43.0


From f0548506e84ba69a8d0c74c9dc3e79bfb66e7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 16/23] fix: preprocessor mode: recording a string limited by a
 precision does not read past the precision

---
 preprocessor/FunctionGenerator.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 872da2c..94ee132 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -396,6 +396,7 @@ size_t numLogIds = {count};
 
         # Create more usable strings for each list
         strlenDeclarations = []
+        limitedStringArgsIdx = []
         argNum = 0
         for fmtSpecifier in fmtSpecifiers:
             precision = fmtSpecifier.precision
@@ -411,10 +412,12 @@ size_t numLogIds = {count};
                 continue
 
             strlenToAdd = "size_t str{0}Len = ".format(argNum)
+            if precision is not None:
+                limitedStringArgsIdx.append(argNum)
 
             # The +1's below are for the NULL character
             if isWideString(fmtSpecifier.type):
-                if not precision:
+                if precision is None:
                     strlenToAdd += "(1 + wcslen(arg{0}))*sizeof(wchar_t);"\
                                         .format(argNum)
                 elif precision == '*':
@@ -424,7 +427,7 @@ size_t numLogIds = {count};
                     strlenToAdd += "(1 + wcsnlen(arg{0}, {1}))*sizeof(wchar_t);"\
                                         .format(argNum, precision)
             else:
-                if not precision:
+                if precision is None:
                     strlenToAdd += "1 + strlen(arg{0});".format(argNum)
                 elif precision == '*':
                     strlenToAdd += "1 + strnlen(arg{0}, arg{1});".format(argNum,
@@ -451,10 +454,14 @@ size_t numLogIds = {count};
         recordNonStringArgsCode = "".join(["\t%s(buffer, arg%d);\n" % \
                 (RECORD_PRIMITIVE_FN, idx) for idx in nonStringArgsIdx])
 
-        recordStringsArgsCode = ["memcpy(buffer, arg{0}, str{0}Len); "
+        # Note that a string limited by a precision may end without a NULL
+        # character, so there the terminator must not be read from the argument.
+        recordStringsArgsCode = ["memcpy(buffer, arg{0}, str{0}Len{1}); "
                "buffer += str{0}Len;"
                "*(reinterpret_cast<std::remove_const<typename std::remove_pointer<decltype(arg{0})>::type>::type*>(buffer) - 1) = L'\\0';".format(
-                                               idx) for idx in stringArgsIdx]
+                        idx, " - sizeof(*arg%d)" % idx
+                                    if idx in limitedStringArgsIdx else "")
+                                                    for idx in stringArgsIdx]
 
         # Start Generating the record code
         recordCode = \
-- 
2.43.0


From 3800ea407fcc61549928d829231e4a76048b27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 17/23] fix: preprocessor mode: statements on one line that
 differ only in level (or by encoding of their text) no longer share a log id

---
 preprocessor/FunctionGenerator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 94ee132..f8dfb29 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -345,10 +345,17 @@ size_t numLogIds = {count};
 
         logId = generateLogIdStr(fmtString, filename, linenum)
 
-        # If we've already generated code for this invocation, don't do it again
-        if self.logId2Code.get(logId):
+        # If we've already generated code for this invocation, don't do it again.
+        # A different log statement on the same line (for example the same
+        # message with another LogLevel) needs an id of its own.
+        while self.logId2Code.get(logId):
             code = self.logId2Code.get(logId)
-            return (code.get('recordFnDecl'), code.get('recordFnName'))
+            if (code.get('logLevel'), code.get('fmtString'),
+                        code.get('filename'), code.get('linenum')) \
+                                == (logLevel, fmtString, filename, linenum):
+                return (code.get('recordFnDecl'), code.get('recordFnName'))
+
+            logId += "_"
 
         # Get a preprocessed list of the format specifiers in a format string
         fmtSpecifiers = splitAndParseTypesInFmtString(fmtString)
-- 
2.43.0


From 93c1b61d18a51f9a52566c8b1925ac422217d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:34 +0000
Subject: [PATCH 18/23] fix: the dictionary of an appended execution is no
 longer read behind the previous one and ignored

---
 runtime/Log.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 802e678..7a7fd29 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -651,6 +651,14 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
+    // This must come before the new dictionary is read, as it would otherwise be
+    // placed behind the old one and the old one's bytes interpreted again.
+    if (flushOldDictionary) {
+        endOfRawMetadata = rawMetadata;
+        fmtId2metadata.clear();
+        fmtId2fmtString.clear();
+    }
+
     size_t bytesRead = fread(endOfRawMetadata, 1, checkpoint.newMetadataBytes,
                              fd);
     if (bytesRead != checkpoint.newMetadataBytes) {
@@ -658,12 +666,6 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
-    if (flushOldDictionary) {
-        endOfRawMetadata = rawMetadata;
-        fmtId2metadata.clear();
-        fmtId2fmtString.clear();
-    }
-
     // Build an index of format id to metadata
     const char *start = endOfRawMetadata;
     const char *newEnd = endOfRawMetadata + bytesRead;
-- 
2.43.0


From 2267b94175b3cad67747424e91134ad981c67d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 19/23] fix: preprocessor: a format string may end in an
 escaped backslash

---
 preprocessor/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index ff03dba..7a1a4c2 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -121,7 +121,7 @@ def extractCString(source):
         isInQuotes = not isInQuotes
       elif isInQuotes:
         returnString += c
-        prevWasEscape = c == "\\"
+        prevWasEscape = c == "\\" and not prevWasEscape
       else:
         if not (c.isspace()):
           return None
-- 
2.43.0


From 3cff442301b23bc534ebd107d810fa588a3c694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:52 +0000
Subject: [PATCH 20/23] fix: preprocessor: quotes and delimiters in character
 literals are not taken for those of the code

---
 preprocessor/parser.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 7a1a4c2..8849808 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -131,6 +131,19 @@ def extractCString(source):
 
   return returnString
 
+# Determines whether a single quote starts a character literal. It does not if
+# it separates the digits of a number (1'000'000).
+#
+# \param text - source code leading up to (and excluding) the quote
+#
+# \return - true if the quote starts a character literal, false if not
+def startsCharLiteral(text):
+  start = len(text)
+  while start > 0 and (text[start - 1].isalnum() or text[start - 1] in "_.'"):
+    start = start - 1
+
+  return not text[start:start + 2].lstrip(".")[:1].isdigit()
+
 # Attempt to extract a single argument in a C++ function invocation given
 # the argument's start position (immediately after left parenthesis or comma)
 # within a file.
@@ -154,7 +167,7 @@ def parseArgumentStartingAt(lines, startPos):
   parenDepth = 0
   curlyDepth = 0
   bracketDepth = 0
-  inQuotes = False
+  quote = None    # the kind of quotes we are in (if any): \" or '
   argSrcStr = ""
 
   offset = startPos.offset
@@ -172,11 +185,14 @@ def parseArgumentStartingAt(lines, startPos):
         continue
 
       # Start counting depths
-      if c == "\"":
-        inQuotes = not inQuotes
+      if quote:
+        if c == quote:
+          quote = None
+      elif c == "\"" or (c == "'" and startsCharLiteral(argSrcStr[:-1])):
+        quote = c
 
       # Don't count curlies and parenthesis when in quotes
-      if inQuotes:
+      if quote:
         continue
 
       if c == "{":
@@ -385,7 +401,7 @@ def processFile(inputFile, mapOutputFilename):
         # by the C/C++ preprocessor so all the comments have been stripped and
         # all #define's have been resolved.
         prevWasEscape = False
-        inQuotes = False
+        quote = None    # the kind of quotes we are in (if any): \" or '
         charOffset = -1
 
         # Optimization: Make sure line has LOG_FUNCTION before doing more work
@@ -402,11 +418,14 @@ def processFile(inputFile, mapOutputFilename):
             lastChar = c
             continue
 
-          if c == "\"":
-            inQuotes = not inQuotes
+          if quote:
+            if c == quote:
+              quote = None
+          elif c == "\"" or (c == "'" and startsCharLiteral(line[:charOffset])):
+            quote = c
 
           # If we match the first character, cheat a little and scan forward
-          if c == LOG_FUNCTION[0] and not inQuotes:
+          if c == LOG_FUNCTION[0] and not quote:
             # Check if we've found the log function via the following heuristics
             #  (a) the next n-1 characters spell out the rest of LOG_FUNCTION
             #  (b) the previous character was not an alpha numeric (i.e. not
-- 
2.43.0


From 58be5e2bf453589a8c9c1b89426818669c1e6581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:52 +0000
Subject: [PATCH 21/23] fix: preprocessor: names that merely start or end like
 NANO_LOG are not log statements, at the end of a file neither

---
 preprocessor/parser.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 8849808..59d7992 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -410,12 +410,12 @@ def processFile(inputFile, mapOutputFilename):
 
         while charOffset < len(line) - 1:
           charOffset = charOffset + 1
-          c = line[charOffset]
+          prevChar = lastChar
+          lastChar = c = line[charOffset]
 
           # If escape, we don't really care about the next char
           if c == "\\" or prevWasEscape:
             prevWasEscape = not prevWasEscape
-            lastChar = c
             continue
 
           if quote:
@@ -431,23 +431,17 @@ def processFile(inputFile, mapOutputFilename):
             #  (b) the previous character was not an alpha numeric (i.e. not
             #       a part of a longer identifier name)
             #  (c) the next syntactical character after log function is a (
-            found = True
-            for ii in range(len(LOG_FUNCTION)):
-              if line[charOffset + ii] != LOG_FUNCTION[ii]:
-                found = False
-                break
-
-            if not found:
+            if not line.startswith(LOG_FUNCTION, charOffset):
               continue
 
             # Valid identifier characters are [a-zA-Z_][a-zA-Z0-9_]*
-            if lastChar.isalnum() or lastChar == '_':
+            if prevChar.isalnum() or prevChar == '_':
               continue
 
             # Check that it's a function invocation via the existence of (
             filePosAfter = FilePosition(lineIndex, charOffset + len(LOG_FUNCTION))
-            mChar, mPos = peekNextMeaningfulChar(lines, filePosAfter)
-            if mChar != "(":
+            nextChar = peekNextMeaningfulChar(lines, filePosAfter)
+            if not nextChar or nextChar[0] != "(":
               continue
 
             # Okay at this point we are pretty sure we have a genuine
@@ -569,7 +563,6 @@ def processFile(inputFile, mapOutputFilename):
                             + "\r\n# %d \"%s\"\r\n" % (ppLineNum, ppFileName) \
                             + tailOfLine
 
-          lastChar = c
     except ValueError as e:
         print("\r\n%s:%d: Error - %s\r\n\r\n%s\r\n" % (
             ppFileName, ppLineNum, e.args[0], "".join(e.args[1])))
-- 
2.43.0


From 465b2e5a691ad5d795f56fe7b224283fffa0b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:56 +0000
Subject: [PATCH 22/23] fix: output padded for O_DIRECT is cleared behind the
 log messages, not over the start of the buffer

---
 runtime/RuntimeLogger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index dfd6669..2907747 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -609,7 +609,7 @@ RuntimeLogger::compressionThreadMain() {
             ssize_t bytesOver = bytesToWrite % 512;
 
             if (bytesOver != 0) {
-                memset(compressingBuffer, 0, 512 - bytesOver);
+                memset(compressingBuffer + bytesToWrite, 0, 512 - bytesOver);
                 bytesToWrite = bytesToWrite + 512 - bytesOver;
                 padBytesWritten += (512 - bytesOver);
             }
-- 
2.43.0


From 94bcee227aab030164e4190504a211d4acf256f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:56 +0000
Subject: [PATCH 23/23] fix: wide strings are decompressed from an aligned
 copy; wcslen() and printf() misread unaligned ones

---
 preprocessor/FunctionGenerator.py | 17 +++++++++---
 runtime/Log.cc                    | 44 +++++++------------------------
 runtime/Log.h                     |  5 ++++
 runtime/Packer.h                  | 25 ++++++++++++++++++
 4 files changed, 54 insertions(+), 37 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index f8dfb29..3aa79ec 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -39,6 +39,9 @@ FINISH_ALLOC_FN = "NanoLogInternal::RuntimeLogger::finishAlloc"
 PACK_FN = "BufferUtils::pack"
 UNPACK_FN = "BufferUtils::unpack"
 
+# Function used to extract a wide string from the log; has to match Packer.h
+UNPACK_WIDE_STRING_FN = "BufferUtils::unpackWideString"
+
 GENERATED_CODE_NAMESPACE = "GeneratedFunctions"
 
 # This class assigns unique identifiers to unique printf-like format strings,
@@ -595,12 +598,20 @@ inline ssize_t
         for idx in stringArgsIdx:
             type = argList[idx]
 
-            strlenFn = "strlen" if not isWideString(type) else "wcslen"
+            # Wide strings need an aligned copy to be usable as an argument
+            if isWideString(type):
+                readbackStringCode += \
+            """
+                auto wideString{idx} = {unpackFn}(in);
+                {type} arg{idx} = wideString{idx}.data();
+            """.format(idx=idx, type=type, unpackFn=UNPACK_WIDE_STRING_FN)
+                continue
+
             readbackStringCode += \
             """
                 {type} arg{idx} = reinterpret_cast<{type}>(*in);
-                (*in) += ({strlenFn}(arg{idx}) + 1)*sizeof(*arg{idx}); // +1 for null terminator
-            """.format(idx=idx, type=type, strlenFn=strlenFn)
+                (*in) += (strlen(arg{idx}) + 1)*sizeof(*arg{idx}); // +1 for null terminator
+            """.format(idx=idx, type=type)
 
 
         decompressFnName = "decompressPrintArgs" + logId
diff --git a/runtime/Log.cc b/runtime/Log.cc
index 7a7fd29..4105b00 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1164,6 +1164,7 @@ Log::Decoder::BufferFragment::BufferFragment()
     , hasMoreLogs(false)
     , nextLogId(-1)
     , nextLogTimestamp(0)
+    , wideStrings()
 {
 }
 
@@ -1178,6 +1179,7 @@ Log::Decoder::BufferFragment::reset()
     readPos = nullptr;
     endOfBuffer = nullptr;
     hasMoreLogs = false;
+    wideStrings.clear();
 }
 /**
  * Read in the next buffer fragment from the compressed log. If an error occurs
@@ -1194,6 +1196,7 @@ Log::Decoder::BufferFragment::reset()
  */
 bool
 Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
+    wideStrings.clear();
     validBytes = fread(storage, 1, sizeof(BufferExtent), fd);
     BufferExtent *be = reinterpret_cast<BufferExtent*>(storage);
 
@@ -1447,8 +1450,6 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         // TODO(syang0) We can probably skip processing the log message at
         // if we (a) aren't printing and (b) aren't aggregating
         for (int i = 0; i < metadata->numPrintFragments; ++i) {
-            const wchar_t *wstrArg;
-
             // Negative widths and precisions are valid arguments, so whether
             // they were specified at all is kept separate from their values.
             int dynamicWidth;
@@ -1632,42 +1633,17 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                     break;
 
                 case const_wchar_t_ptr_t:
-
-                    /**
-                     * I've occasionally encountered the following assertion:
-                     * __wcsrtombs: Assertion `data.__outbuf[-1] == '\0'' failed
-                     *
-                     * I don't know why this occurs, but it appears to be caused
-                     * by a wcslen() call deep inside printf returning the wrong
-                     * value when called on the dynamic buffer. I've found
-                     * that copying the data into a stack buffer first fixes
-                     * the problem (not implemented here).
-                     *
-                     * I don't know why this is the case and I'm inclined to
-                     * believe it's a problem with the library because I've...
-                     *  (1) verified byte by byte that the copied wchar_t
-                     *      strings and the surrounding bytes are exactly the
-                     *      same in the dynamic and stack allocated buffers.
-                     *  (2) copied the wcslen code from the glib sources into
-                     *      to this file and calling it on the dynamic buffer
-                     *      works, but the public wcslen() API still returns an
-                     *      incorrect value.
-                     *  (3) verified that no corruption occurs in the buffers
-                     *      before and after the wcslen() returns the wrong val
-                     *
-                     * If wide character support becomes important and this
-                     * assertion keeps erroring out, I would work around it
-                     * by copying the wide string into a stack buffer before
-                     * passing it to printf.
-                     */
-                    wstrArg = reinterpret_cast<const wchar_t *>(nextStringArg);
+                    // The string starts at an arbitrary address, whereas wcslen()
+                    // and printf() only work for aligned wide characters, so
+                    // they have to operate on a copy. The copy is kept as long
+                    // as the fragment since logArgs refers to it.
+                    wideStrings.push_back(unpackWideString(&nextStringArg));
                     printSingleArg(outputFd,
                                    logArgs,
                                    pf->formatFragment,
-                                   wstrArg,
+                                   static_cast<const wchar_t*>(
+                                                   wideStrings.back().data()),
                                    width, precision);
-                    // +1 for NULL
-                    nextStringArg += (wcslen(wstrArg) + 1) * sizeof(wchar_t);
                     break;
 
                 case MAX_FORMAT_TYPE:
diff --git a/runtime/Log.h b/runtime/Log.h
index 9c1cefc..3c5a2eb 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -908,6 +908,9 @@ namespace Log {
             uint32_t nextLogId;
             uint64_t nextLogTimestamp;
 
+            // Aligned copies of the wide strings decompressed from storage.
+            std::vector<std::vector<wchar_t>> wideStrings;
+
             BufferFragment();
             void reset();
             bool hasNext();
@@ -920,6 +923,8 @@ namespace Log {
                                  long aggregationFilterId=-1,
                                  void (*aggregationFn)(const char*, ...)=NULL);
             uint64_t getNextLogTimestamp() const;
+
+            DISALLOW_COPY_AND_ASSIGN(BufferFragment);
         };
 
         static bool compareBufferFragments(const BufferFragment *a,
diff --git a/runtime/Packer.h b/runtime/Packer.h
index b936afa..3c00078 100644
--- a/runtime/Packer.h
+++ b/runtime/Packer.h
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <cstring>
 #include <cstdint>
+#include <vector>
 
 #include "Common.h"
 #include "Portability.h"
@@ -406,6 +407,30 @@ public:
         return endOfValues;
     }
 };
+
+/**
+ * Extracts a NULL-terminated wide string from a character array, where it may
+ * start at any address. The C library's functions for wide characters require
+ * them to be aligned, so they can only be used on the copy returned here.
+ *
+ * \param[in/out] in
+ *      Position of the string; is advanced to the first byte behind it
+ * \return
+ *      Copy of the string including its NULL terminator
+ */
+inline std::vector<wchar_t>
+unpackWideString(const char **in) {
+    std::vector<wchar_t> str;
+    wchar_t c;
+
+    do {
+        std::memcpy(&c, *in, sizeof(wchar_t));
+        *in += sizeof(wchar_t);
+        str.push_back(c);
+    } while (c != L'\0');
+
+    return str;
+}
 } /* BufferUtils */
 
 #endif /* PACKER_H */
-- 
2.43.0


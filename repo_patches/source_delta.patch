From fbf1126534eba9f79f36b516afc6ce86506d2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 001/143] fix: reject out-of-range integer and Hollerith count
 fields

ParseInt and ParseHString truncated the strtol result to int, so that
99999999999 was read as 1215752191 and a Hollerith count near INT_MAX
overflowed the bounds check.
---
 src/iges/iges_io.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 8a53908..75b1943 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -32,6 +32,7 @@
 #include <sstream>
 #include <string>
 #include <cmath>
+#include <climits>
 
 #include <error_macros.h>
 #include <core/iges_io.h>
@@ -251,7 +252,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long i = strtol( cp, &rp, 10 );
 
     if( errno || cp == rp )
     {
@@ -278,7 +279,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
         return false;
     }
 
-    if( idx + i >= (int)data.length() )
+    if( i >= (long)data.length() - idx )
     {
         ERRMSG << "\n + [BAD DATA]: invalid Hollerith string length (" << i << ")\n";
         cerr << " + requested string length exceeds record length\n";
@@ -288,7 +289,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
 
     param = data.substr(idx, i);
 
-    idx += i;
+    idx += (int)i;
 
     if( data[idx] == rd )
     {
@@ -396,9 +397,9 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long i = strtol( cp, &rp, 10 );
 
-    if( errno || cp == rp )
+    if( errno || cp == rp || i > INT_MAX || i < INT_MIN )
     {
         ERRMSG << "\n + [BAD DATA]: invalid integer\n";
         cerr << "Data: " << data.substr(tidx) << "\n";
@@ -412,7 +413,7 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
         cerr << "Data: " << data.substr(tidx) << "\n";
     }
 
-    param = i;
+    param = (int)i;
     return true;
 }
 
-- 
2.43.0


From 0faf342d917e0cfc32c024929158adafacdd1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 002/143] fix: do not flush reals above the requested
 resolution to zero

---
 src/iges/iges_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 75b1943..e46b845 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -519,7 +519,7 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
     if( ne < 0.0 )
         ne = -ne;
 
-    if( ne < 1e-8 )
+    if( ne < 1e-8 && ne < minRes )
     {
         ne = 1.0;
         var = 0.0;
-- 
2.43.0


From 2f7face5b540d92b185d8ced0a909ddec584edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 003/143] fix: read files which declare a non-default record
 delimiter

---
 src/iges/iges.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a827b72..6855ce0 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1094,7 +1094,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // G2: record delimeter: REQUIRED DEFAULT ';'
     if( globs[idx] != delim )
     {
-        if( globs.compare(0, 2, "1H") )
+        if( globs.compare(idx, 2, "1H") )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
@@ -1102,12 +1102,12 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         rdelim = globs[idx + 2];
 
-        if( delim <= 0x20 || delim >= 0x7f || delim == ';'
-            || delim == 0x2b || delim == 0x2d || delim == 0x2e
-            || delim == 'D' || delim == 'E' || delim == 'H'
-        || ( delim >= 0x30 && delim <= 0x39 ) )
+        if( rdelim <= 0x20 || rdelim >= 0x7f || rdelim == delim
+            || rdelim == 0x2b || rdelim == 0x2d || rdelim == 0x2e
+            || rdelim == 'D' || rdelim == 'E' || rdelim == 'H'
+        || ( rdelim >= 0x30 && rdelim <= 0x39 ) )
         {
-            ERRMSG << "\n + [CORRUPT FILE] invalid parameter delimeter\n";
+            ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
         }
 
-- 
2.43.0


From 1c1ff0d0448ac1f761aabfe774753d04add2cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 004/143] fix: default product ID of the receiving system to
 that of the sender

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 6855ce0..682b151 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1280,7 +1280,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve ProductID of Receiving System\n";
         return false;
     }
-    else if( globalData.productIDSS.empty() )
+    else if( globalData.productIDRS.empty() )
     {
         globalData.productIDRS = globalData.productIDSS;
     }
-- 
2.43.0


From 97f2e530c2f04a4c39821f51bb814187d9153ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 005/143] fix: require the preprocessor version, not the native
 system ID twice

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 682b151..fc1c45c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1179,7 +1179,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     }
     else
     {
-        if( globalData.nativeSystemID.empty() )
+        if( globalData.preprocessorVersion.empty() )
         {
             ERRMSG << "\n + [CORRUPT FILE] no Preprocessor Version (defaults not permitted)\n";
             return false;
-- 
2.43.0


From 53eb5ea445ff1df79f2a8671b04aba4a37da3550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 006/143] fix: normalize scale and units of files without an
 application note

---
 src/iges/iges.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index fc1c45c..0b60bf8 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1509,19 +1509,20 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( eor )
     {
         globalData.applicationNote.clear();
-        return true;
     }
-
-    if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
+    else
     {
-        ERRMSG << "\n + [CORRUPT FILE] could not retrieve AP / Subset Identifier string\n";
-        return false;
-    }
+        if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] could not retrieve AP / Subset Identifier string\n";
+            return false;
+        }
 
-    if( !eor )
-    {
-        ERRMSG << "\n + [CORRUPT FILE] no end-of-record marker found in Global Section\n";
-        return false;
+        if( !eor )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] no end-of-record marker found in Global Section\n";
+            return false;
+        }
     }
 
     // apply a scale if the model scale is not 1.0
-- 
2.43.0


From 15e7d3d809b6e170797aa98d0e8487fb9c6cc6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 007/143] fix: accept a defaulted modification date

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 0b60bf8..89180d1 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1497,7 +1497,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
             return false;
         }
 
-        if( !checkDate( globalData.modificationDate ) )
+        if( !globalData.modificationDate.empty() && !checkDate( globalData.modificationDate ) )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid modification date '";
             cerr << globalData.modificationDate << "'\n";
-- 
2.43.0


From 09f33c15528dae88cc3058803150e4cb61f40aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 008/143] fix: do not relabel externally defined units as
 millimetres

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 89180d1..4619839 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1534,7 +1534,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         globalData.convert = true;
     }
 
-    if( globalData.unitsFlag != UNIT_MILLIMETER )
+    if( globalData.unitsFlag != UNIT_MILLIMETER && globalData.unitsFlag != UNIT_EXTERN )
     {
         globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
-- 
2.43.0


From 47041a8beb8f2c93927e010f345fd2382209e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 009/143] fix: do not index the month table with an invalid
 month

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 4619839..8d34a73 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -196,7 +196,7 @@ static bool checkDate( const std::string aDate )
     if( errno || cp1 == cp0 || (cp1 - cp0) != 2 )
         ok = false;
 
-    if( iday < 1 || iday > mdays[imon -1] )
+    if( iday < 1 || imon < 1 || imon > 12 || iday > mdays[imon -1] )
         ok = false;
 
     errno = 0;
-- 
2.43.0


From d8b2e15bcdc7956a306cd3916ad0483b2d6fb54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 010/143] fix: check the range of seconds in date tags

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 8d34a73..cd9136e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -227,7 +227,7 @@ static bool checkDate( const std::string aDate )
         ok = false;
 
     // note: using '60' ensures we allow leap seconds
-    if( isec < 0 || imin > 60 )
+    if( isec < 0 || isec > 60 )
         ok = false;
 
     return ok;
-- 
2.43.0


From 8603f661c2dfc53cfd455b056b33726ee234952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 011/143] fix: write the maximum line width instead of the
 number of gradations

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index cd9136e..f7ad720 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2226,9 +2226,9 @@ bool IGES::writeGlobals( std::ofstream& file )
     // Item 17: (Real) Max. Width of Lines
     // REQ NODEF ( use 1.0 if none specified )
     if( globalData.maxLinewidth < 1e-6 )
-        globalData.maxLinewidthGrad = 1;
+        globalData.maxLinewidth = 1.0;
 
-    if( !FormatPDREal( tstr, globalData.maxLinewidthGrad, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, globalData.maxLinewidth, pd, globalData.minResolution ) )
     {
         ERRMSG << "\n + [INFO] failed to format Max. Linewidth\n";
         return false;
-- 
2.43.0


From 55b6d4cda0e81166877ce1c60692d1e2d3718c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 012/143] fix: report and write the right unit name

---
 src/iges/iges.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index f7ad720..ad910b3 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2202,7 +2202,13 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 15: (HStr) Units Name
     // REQ DEF : UNIT_NAMES[Unit Flag]
-    if( !AddSecHStr( UNIT_NAMES[globalData.unitsFlag - UNIT_START], lstr, gstr, idx, pd, rd, pd ) )
+    // (the name of externally defined units is in the model)
+    if( UNIT_EXTERN == globalData.unitsFlag && !globalData.unitsName.empty() )
+        tstr = globalData.unitsName;
+    else
+        tstr = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
+
+    if( !AddSecHStr( tstr, lstr, gstr, idx, pd, rd, pd ) )
     {
         ERRMSG << "\n + [INFO] failed to add Units Name\n";
         return false;
@@ -2663,5 +2669,8 @@ void IGES::GetNewAssemblyName( std::string& name )
 
 const char* IGES::GetUnitName( void )
 {
-    return UNIT_NAMES[globalData.unitsFlag].c_str();
+    if( UNIT_EXTERN == globalData.unitsFlag && !globalData.unitsName.empty() )
+        return globalData.unitsName.c_str();
+
+    return UNIT_NAMES[globalData.unitsFlag - UNIT_START].c_str();
 }
-- 
2.43.0


From 2c5e2e5007623de9f47bf492f3dcf25bd9d93a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 013/143] fix: report a failed write when buffered data cannot
 be flushed

---
 src/iges/iges.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index ad910b3..8b8af9b 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -810,13 +810,15 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     oline += "\n";
     file << oline;
 
+    // note: buffered data may only reach the disk when the file is closed
+    file.close();
+
     if( file.fail() )
     {
-        file.close();
+        ERRMSG << "\n + [INFO] could not write data to file\n";
         return false;
     }
 
-    file.close();
     return true;
 }
 
-- 
2.43.0


From cf5105f034489e40c48b088a0838f3969040be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 014/143] fix: never truncate an existing file which could not
 be opened unless overwriting

---
 src/iges/iges.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 8b8af9b..0a91685 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -671,8 +671,17 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
 
     ofstream file;
 
+    errno = 0;
     file.open( aFileName, ios::out | ios_base::in | ios::binary );
 
+    if( !file.is_open() && !fOverwrite && errno != ENOENT )
+    {
+        // the file may exist even though it cannot be opened at the moment
+        ERRMSG << "\n + [INFO] cannot determine if file exists; not overwriting\n";
+        cerr << " + filename: '" << aFileName << "'\n";
+        return false;
+    }
+
     if( file.is_open() )
     {
         if( !fOverwrite )
-- 
2.43.0


From 838ed7dadfa2d859b923c4b088ca303e6b773d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 015/143] fix: clear the model when the associations of a file
 cannot be established

---
 src/iges/iges.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 0a91685..ad4f19e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -609,6 +609,8 @@ bool IGES::Read( const char* aFileName )
         if( !entities[iEnt]->associate(&entities) )
         {
             ERRMSG << "\n + [INFO] could not establish file associations\n";
+            file.close();
+            Clear();
             return false;
         }
     }
-- 
2.43.0


From 56d0701635d0956e5547f76aebeb54a0441cc62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 016/143] fix: do not let previous use of an IGES object affect
 reading a file

---
 src/iges/iges.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index ad4f19e..c99aa9e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -447,6 +447,9 @@ bool IGES::Read( const char* aFileName )
         return false;
     }
 
+    // discard any settings left over from previous use
+    init();
+
     // read the FLAG/START section
     IGES_RECORD rec;
 
-- 
2.43.0


From 454b2a7dec06aaac7c0994bf03da9ee5f9f1dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 017/143] fix: scale the resolution by the ratio of old and new
 model scale

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index c99aa9e..942e10f 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1859,7 +1859,7 @@ bool IGES::ChangeModelScale( double aScale )
     }
 
     double cf = aScale / globalData.modelScale;
-    globalData.minResolution *= aScale;
+    globalData.minResolution *= cf;
     globalData.modelScale = aScale;
 
     // scale all existing entities
-- 
2.43.0


From ac7c43b50ddb91fa40d5cf05f123ac6178b3468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 018/143] fix: never return stale pointers to header lines

---
 src/iges/iges.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 942e10f..87709d8 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1887,17 +1887,14 @@ bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
         return false;
     }
 
-    if( vStartSection.size() != startSection.size() )
-    {
-        vStartSection.clear();
-        std::list<std::string>::iterator sL = startSection.begin();
-        std::list<std::string>::iterator eL = startSection.end();
+    vStartSection.clear();
+    std::list<std::string>::iterator sL = startSection.begin();
+    std::list<std::string>::iterator eL = startSection.end();
 
-        while( sL != eL )
-        {
-            vStartSection.push_back( sL->c_str() );
-            ++sL;
-        }
+    while( sL != eL )
+    {
+        vStartSection.push_back( sL->c_str() );
+        ++sL;
     }
 
     aListSize = vStartSection.size();
-- 
2.43.0


From bd1119c8b5d683cb43f2453df4364cb7a3366ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 019/143] fix: do not drop header lines of exactly 72
 characters

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 87709d8..1d968e1 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1927,7 +1927,7 @@ bool IGES::AddToHeader( const char*& comments )
         tStr.append( 72 - slen, ' ' );
         startSection.push_back( tStr );
     }
-    else if( slen > 72 )
+    else
     {
         for( size_t i = 0; i < slen; i += 72 )
         {
-- 
2.43.0


From 22f9cb7a305608ad7e2d8f6267395004aa06c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 020/143] fix: let GetHeaders report the number of header lines

---
 src/iges/iges.cpp       | 2 +-
 src/include/core/iges.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 1d968e1..ca430d1 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1878,7 +1878,7 @@ bool IGES::ChangeModelScale( double aScale )
 }
 
 
-bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
+bool IGES::GetHeaders( size_t& aListSize, char const**& aHeaderList )
 {
     if( startSection.empty() )
     {
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index df9ca75..b9f6a12 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -299,7 +299,7 @@ public:
      * returns a pointer to the list of strings read from or to be
      * written to the Start Section of the IGES file.
      */
-    bool GetHeaders( size_t aListSize, char const**& aHeaderList );
+    bool GetHeaders( size_t& aListSize, char const**& aHeaderList );
 
 
     /**
-- 
2.43.0


From b21c23c2f1eeb04f6b9347b9b5985c2ae8c80454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 021/143] fix: generate a different part and assembly name each
 time

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index ca430d1..379e34d 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2653,7 +2653,7 @@ void IGES::GetNewPartName( std::string& name )
     ostr << "part" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxPartNum++;
 
     name = ostr.str();
 
@@ -2673,7 +2673,7 @@ void IGES::GetNewAssemblyName( std::string& name )
     ostr << "assy" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxAssyNum++;
 
     name = ostr.str();
 
-- 
2.43.0


From c097ba922d002881bb0ca16ebb6dcb71aad982fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 022/143] fix: check the part handle passed to Export before
 using it

---
 src/iges/iges.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 379e34d..b335c2d 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2400,17 +2400,17 @@ bool IGES::writeGlobals( std::ofstream& file )
 // export all entities to the given IGES* (to be used for creating Assemblies)
 bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 {
-    *packagedEntity = NULL;
-
-    if( NULL == newParent )
+    if( NULL == packagedEntity )
     {
-        ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
+        ERRMSG << "\n + [BUG] Export() invoked without a valid Entity 308 handle\n";
         return false;
     }
 
-    if( NULL == packagedEntity )
+    *packagedEntity = NULL;
+
+    if( NULL == newParent )
     {
-        ERRMSG << "\n + [BUG] Export() invoked without a valid Entity 308 handle\n";
+        ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
         return false;
     }
 
-- 
2.43.0


From 29b8648c34d8f936ec9ab817215d8351bc02a93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 023/143] fix: do not truncate the line weight ratio to an
 integer on export

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index b335c2d..ab405ed 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2436,7 +2436,7 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     // determine crude linewidth adjustment; the new linewidths are guaranteed to
     // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
     // for the new parent IGES and the IGES being merged.
-    double lws = maxLWG / globalData.maxLinewidthGrad;
+    double lws = double(maxLWG) / globalData.maxLinewidthGrad;
     int llw;
 
     for( size_t i = 0; i < nEnt; ++ i )
-- 
2.43.0


From d5604cec6dad15d3ffb84b73991041c817dc1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 024/143] fix: refuse to export between externally defined and
 other units

---
 src/iges/iges.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index ab405ed..cb5b3a0 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2425,11 +2425,18 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     double pms = newParent->globalData.modelScale;
     IGES_UNIT pUF = newParent->globalData.unitsFlag;
 
-    if( globalData.modelScale != pms )
-        ChangeModelScale( pms );
+    if( globalData.unitsFlag != pUF
+        && ( UNIT_EXTERN == globalData.unitsFlag || UNIT_EXTERN == pUF ) )
+    {
+        ERRMSG << "\n + [INFO] cannot export between externally defined and other units\n";
+        return false;
+    }
 
-    if( globalData.unitsFlag != pUF )
-        ConvertUnits( pUF );
+    if( globalData.modelScale != pms && !ChangeModelScale( pms ) )
+        return false;
+
+    if( globalData.unitsFlag != pUF && !ConvertUnits( pUF ) )
+        return false;
 
     size_t nEnt = entities.size();
 
-- 
2.43.0


From 519aeca32059937c4fe12949f17892b59a29ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 025/143] fix: do not dereference NULL when a directory entry
 refers to itself

---
 src/entities/iges_entity.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e05c449..0ec3cb4 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -498,7 +498,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pStructure = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by structure (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pStructure->addReference(this, dup) )
@@ -559,7 +559,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pLineFontPattern = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Line Font Pattern (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pLineFontPattern->addReference(this, dup) )
@@ -631,7 +631,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pLevel = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Level (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pLevel->addReference(this, dup) )
@@ -703,7 +703,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pView = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by View (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pView->addReference(this, dup) )
@@ -783,7 +783,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pTransform = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Transform (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pTransform->addReference(this, dup) )
@@ -854,7 +854,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pLabelAssoc = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Transform (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pLabelAssoc->addReference(this, dup) )
@@ -926,7 +926,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 pColor = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Color Number (DE";
                 cerr << (idx >> 1) + 1 << ")\n";
-                ok = false;
+                return false;
             }
 
             if( !pColor->addReference(this, dup) )
-- 
2.43.0


From cfcb9c341a19b94e307c2efa2dcd3c6b11343462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 026/143] fix: advance the right iterator when deleting a
 reference to an optional entity

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 0ec3cb4..c67a2fd 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -451,7 +451,7 @@ bool IGES_ENTITY::delReference(IGES_ENTITY *aParentEntity)
             return true;
         }
 
-        ++bref;
+        ++bExt;
     }
 
     return false;
-- 
2.43.0


From a229cc9ca0884f7e150b9a51b45190220130d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 027/143] fix: ignore optional entities which are not supported
 rather than rejecting the file

---
 src/entities/iges_entity.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index c67a2fd..1328f54 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1029,6 +1029,12 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     extras.push_back( (*entities)[iEnt] );
                     break;
 
+                case 0:
+                    // entities which are not supported are culled after reading
+                    ERRMSG << "\n + [WARNING] ignoring unsupported entity in Optional Parameters section for Entity DE ";
+                    cerr << sequenceNumber << "\n";
+                    break;
+
                 default:
                     ERRMSG << "\n + [INFO] unsupported entity (" << tEnt;
                     cerr << ") in Optional Parameters section for Entity DE ";
-- 
2.43.0


From d00eb4200e5d7930cb0177b35b3b18f68cba13c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 028/143] fix: accept view entities in SetView

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 1328f54..44b2bbc 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2162,7 +2162,7 @@ bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
     int tEnt = aView->GetEntityType();
     int tFrm = aView->GetEntityForm();
 
-    if( tEnt != ENT_VIEW || tEnt != ENT_ASSOCIATIVITY_INSTANCE
+    if( (tEnt != ENT_VIEW && tEnt != ENT_ASSOCIATIVITY_INSTANCE)
         || (tEnt == ENT_ASSOCIATIVITY_INSTANCE && tFrm != 3 && tFrm != 4 && tFrm != 19) )
     {
         ERRMSG << "\n + [BUG] invalid entity (" << tEnt << "-" << tFrm;
-- 
2.43.0


From 1abc7956fb8398d0781d55e6f1d7622a3673f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 029/143] fix: report color and label association entities as
 documented

---
 src/entities/iges_entity.cpp | 37 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 44b2bbc..f7a8a2b 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2267,18 +2267,13 @@ bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 {
     *aLabelAssoc = NULL;
 
-    if( 0 == (labelAssoc & 0x80000000) )
-        return true;
-
-    if( !pLabelAssoc )
+    if( pLabelAssoc )
     {
-        ERRMSG << "\n + [BAD DATA] invalid Label Association pointer in entity type #";
-        cerr << entityType << "\n";
-        return false;
+        *aLabelAssoc = pLabelAssoc;
+        return true;
     }
 
-    *aLabelAssoc = pLabelAssoc;
-    return true;
+    return false;
 }
 
 
@@ -2332,13 +2327,14 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 
 bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 {
-    if( colorNum & 0x80000000 )
+    if( pColor )
     {
         aColor = COLOR_NONE;
         return false;
     }
 
-    aColor = (IGES_COLOR)colorNum;
+    // note: a negative value is a reference which no longer exists
+    aColor = colorNum < 0 ? COLOR_NONE : (IGES_COLOR)colorNum;
     return true;
 }
 
@@ -2347,24 +2343,13 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 {
     *aColor = NULL;
 
-    if( 0 == (colorNum & 0x80000000) )
-    {
-        if( 0 == colorNum )
-            return true;
-        else
-            return false;
-
-    }
-
-    if( pColor == NULL )
+    if( pColor )
     {
-        ERRMSG << "\n + [BAD DATA] invalid color entity in entity type #";
-        cerr << entityType << "\n";
-        return false;
+        *aColor = pColor;
+        return true;
     }
 
-    *aColor = pColor;
-    return true;
+    return false;
 }
 
 
-- 
2.43.0


From fffeb3e6f0c3b634d9f0239ec40509e81362b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 030/143] fix: report the value written to file for level and
 line font without an entity

---
 src/entities/iges_entity.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index f7a8a2b..dd5161e 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1939,13 +1939,12 @@ bool IGES_ENTITY::GetLineFontPattern(IGES_LINEFONT_PATTERN& aPattern)
         return false;
     }
 
+    // note: a negative value is a reference which no longer exists
     if( lineFontPattern < LINEFONT_NONE || lineFontPattern >= LINEFONT_END )
-    {
-        ERRMSG << "\n + [BUG] method invoked without valid LineFontPattern association\n";
-        return false;
-    }
+        aPattern = LINEFONT_NONE;
+    else
+        aPattern = (IGES_LINEFONT_PATTERN)lineFontPattern;
 
-    aPattern = (IGES_LINEFONT_PATTERN)lineFontPattern;
     return true;
 }
 
@@ -2038,14 +2037,8 @@ bool IGES_ENTITY::GetLevel(int &aLevel)
         return false;
     }
 
-    if( level < 0 )
-    {
-        ERRMSG << "\n + [BUG] method invoked without valid level assignment in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
-
-    aLevel = level;
+    // note: a negative value is a reference which no longer exists
+    aLevel = level < 0 ? 0 : level;
     return true;
 }
 
-- 
2.43.0


From 9e21c0ecea5aa65895e4553091919fb4e7e16df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 031/143] fix: keep the previous attribute when an assignment
 is rejected

---
 src/entities/iges_entity.cpp | 142 ++++++++++++++++++++++-------------
 1 file changed, 89 insertions(+), 53 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index dd5161e..989090e 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1963,12 +1963,6 @@ bool IGES_ENTITY::GetLineFontPatternEntity(IGES_ENTITY** aPattern)
 
 bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
 {
-    if( pLineFontPattern )
-    {
-        pLineFontPattern->delReference(this);
-        pLineFontPattern = NULL;
-    }
-
     if( aPattern < LINEFONT_NONE || aPattern >= LINEFONT_END )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid linefont pattern (";
@@ -1976,6 +1970,12 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
         return false;
     }
 
+    if( pLineFontPattern )
+    {
+        pLineFontPattern->delReference(this);
+        pLineFontPattern = NULL;
+    }
+
     lineFontPattern = aPattern;
     return true;
 }
@@ -1983,15 +1983,17 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
 
 bool IGES_ENTITY::SetLineFontPattern( IGES_ENTITY* aPattern )
 {
-    lineFontPattern = 0;
-
-    if( pLineFontPattern )
+    if( !aPattern )
     {
-        pLineFontPattern->delReference(this);
+        if( pLineFontPattern )
+            pLineFontPattern->delReference(this);
+
         pLineFontPattern = NULL;
+        lineFontPattern = 0;
+        return true;
     }
 
-    if( !aPattern )
+    if( aPattern == pLineFontPattern )
         return true;
 
     int tEnt = aPattern->GetEntityType();
@@ -2019,7 +2021,11 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_ENTITY* aPattern )
         return false;
     }
 
+    if( pLineFontPattern )
+        pLineFontPattern->delReference(this);
+
     pLineFontPattern = aPattern;
+    lineFontPattern = 0;
 
 
     if( NULL != parent && parent != aPattern->parent )
@@ -2059,12 +2065,6 @@ bool IGES_ENTITY::GetLevelEntity(IGES_ENTITY** aLevel)
 
 bool IGES_ENTITY::SetLevel( int aLevel )
 {
-    if( pLevel )
-    {
-        pLevel->delReference(this);
-        pLevel = NULL;
-    }
-
     if( aLevel < 0 )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid level (< 0) in entity type #";
@@ -2072,6 +2072,12 @@ bool IGES_ENTITY::SetLevel( int aLevel )
         return false;
     }
 
+    if( pLevel )
+    {
+        pLevel->delReference(this);
+        pLevel = NULL;
+    }
+
     level = aLevel;
     return true;
 }
@@ -2079,15 +2085,17 @@ bool IGES_ENTITY::SetLevel( int aLevel )
 
 bool IGES_ENTITY::SetLevel( IGES_ENTITY* aLevel )
 {
-    level = 0;
-
-    if( pLevel )
+    if( !aLevel )
     {
-        pLevel->delReference(this);
+        if( pLevel )
+            pLevel->delReference(this);
+
         pLevel = NULL;
+        level = 0;
+        return true;
     }
 
-    if( !aLevel )
+    if( aLevel == pLevel )
         return true;
 
     int tEnt = aLevel->GetEntityType();
@@ -2116,7 +2124,11 @@ bool IGES_ENTITY::SetLevel( IGES_ENTITY* aLevel )
         return false;
     }
 
+    if( pLevel )
+        pLevel->delReference(this);
+
     pLevel = aLevel;
+    level = 0;
 
     if( NULL != parent && parent != aLevel->parent )
         parent->AddEntity( aLevel );
@@ -2141,15 +2153,17 @@ bool IGES_ENTITY::GetView(IGES_ENTITY** aView)
 
 bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
 {
-    view = 0;
-
-    if( pView )
+    if( !aView )
     {
-        pView->delReference(this);
+        if( pView )
+            pView->delReference(this);
+
         pView = NULL;
+        view = 0;
+        return true;
     }
 
-    if( !aView )
+    if( aView == pView )
         return true;
 
     int tEnt = aView->GetEntityType();
@@ -2178,7 +2192,11 @@ bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
         return false;
     }
 
+    if( pView )
+        pView->delReference(this);
+
     pView = aView;
+    view = 0;
 
     if( NULL != parent && parent != aView->parent )
         parent->AddEntity( aView );
@@ -2203,15 +2221,17 @@ bool IGES_ENTITY::GetTransform(IGES_ENTITY** aTransform)
 
 bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 {
-    transform = 0;
-
-    if( pTransform )
+    if( !aTransform )
     {
-        pTransform->delReference(this);
+        if( pTransform )
+            pTransform->delReference(this);
+
         pTransform = NULL;
+        transform = 0;
+        return true;
     }
 
-    if( !aTransform )
+    if( aTransform == pTransform )
         return true;
 
     int tEnt = aTransform->GetEntityType();
@@ -2225,9 +2245,9 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
         return false;
     }
 
-    pTransform = dynamic_cast<IGES_ENTITY_124*>(aTransform);
+    IGES_ENTITY_124* tp = dynamic_cast<IGES_ENTITY_124*>(aTransform);
 
-    if( !pTransform )
+    if( !tp )
     {
         ERRMSG << "\n + [BUG] could not cast IGES_ENTITY* to IGES_ENTITY_124*\n";
         return false;
@@ -2235,9 +2255,8 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 
     bool dup = false;
 
-    if( !pTransform->addReference(this, dup) )
+    if( !tp->addReference(this, dup) )
     {
-        pTransform = NULL;
         ERRMSG << "\n + [BUG] could not add reference to child entity\n";
         return false;
     }
@@ -2245,10 +2264,15 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
     if( dup )
     {
         ERRMSG << "\n + [CORRUPT FILE]: duplicate entity added\n";
-        pTransform = NULL;
         return false;
     }
 
+    if( pTransform )
+        pTransform->delReference(this);
+
+    pTransform = tp;
+    transform = 0;
+
     if( NULL != parent && parent != aTransform->parent )
         parent->AddEntity( aTransform );
 
@@ -2272,15 +2296,17 @@ bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 
 bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 {
-    labelAssoc = 0;
-
-    if( pLabelAssoc )
+    if( !aLabelAssoc )
     {
-        pLabelAssoc->delReference(this);
+        if( pLabelAssoc )
+            pLabelAssoc->delReference(this);
+
         pLabelAssoc = NULL;
+        labelAssoc = 0;
+        return true;
     }
 
-    if( !aLabelAssoc )
+    if( aLabelAssoc == pLabelAssoc )
         return true;
 
     int tEnt = aLabelAssoc->GetEntityType();
@@ -2309,7 +2335,11 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
         return false;
     }
 
+    if( pLabelAssoc )
+        pLabelAssoc->delReference(this);
+
     pLabelAssoc = aLabelAssoc;
+    labelAssoc = 0;
 
     if( NULL != parent && parent != aLabelAssoc->parent )
         parent->AddEntity( aLabelAssoc );
@@ -2348,12 +2378,6 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 
 bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
 {
-    if( pColor )
-    {
-        pColor->delReference(this);
-        pColor = NULL;
-    }
-
     if( aColor < COLOR_NONE || aColor >= COLOR_END )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid color (";
@@ -2361,6 +2385,12 @@ bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
         return false;
     }
 
+    if( pColor )
+    {
+        pColor->delReference(this);
+        pColor = NULL;
+    }
+
     colorNum = aColor;
 
     return true;
@@ -2369,15 +2399,17 @@ bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
 
 bool IGES_ENTITY::SetColor( IGES_ENTITY* aColor )
 {
-    colorNum = 0;
-
-    if( pColor )
+    if( !aColor )
     {
-        pColor->delReference(this);
+        if( pColor )
+            pColor->delReference(this);
+
         pColor = NULL;
+        colorNum = 0;
+        return true;
     }
 
-    if( !aColor )
+    if( aColor == pColor )
         return true;
 
     int tEnt = aColor->GetEntityType();
@@ -2405,7 +2437,11 @@ bool IGES_ENTITY::SetColor( IGES_ENTITY* aColor )
         return false;
     }
 
+    if( pColor )
+        pColor->delReference(this);
+
     pColor = aColor;
+    colorNum = 0;
 
     if( NULL != parent && parent != aColor->parent )
         parent->AddEntity( aColor );
-- 
2.43.0


From 48be144f35898759ba5a93ad209fc36fa0ceca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 032/143] fix: reject references of an entity to itself

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 989090e..8861024 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -370,7 +370,7 @@ bool IGES_ENTITY::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
     }
 
     // Ensure we have no direct circular references
-    if( aParentEntity == pStructure || aParentEntity == pLineFontPattern
+    if( aParentEntity == this || aParentEntity == pStructure || aParentEntity == pLineFontPattern
         || aParentEntity == pLevel || aParentEntity == pView
         || aParentEntity == pTransform || aParentEntity == pLabelAssoc
         || aParentEntity == pColor )
-- 
2.43.0


From 363a61bd147d0f7ddd2c311c9ddc6362d461c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 033/143] fix: let DelOptionalEntity remove exactly what
 AddOptionalEntity added

---
 src/entities/iges_entity.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 8861024..444dee8 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2929,16 +2929,10 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
 
     int eType = aEntity->GetEntityType();
 
-    if( eType != 402 && eType != 212 && eType != 312 )
+    if( eType != 402 && eType != 406 && eType != 212 && eType != 312 )
     {
         ERRMSG << "\n + [BUG] invalid entity (Type " << eType;
-        cerr << "); only types 402, 212, and 312 are valid.\n";
-        return false;
-    }
-
-    if( !delReference(aEntity) )
-    {
-        ERRMSG << "\n + [INFO] could not delete reference\n";
+        cerr << "); only types 402, 406, 212, and 312 are valid.\n";
         return false;
     }
 
@@ -2950,13 +2944,18 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
         if( *sL == aEntity )
         {
             extras.erase( sL );
+
+            // note: Type 402 is only a 'back-pointer' and holds no reference
+            if( eType != 402 )
+                aEntity->delReference( this );
+
             return true;
         }
 
         ++sL;
     }
 
-    ERRMSG << "\n + [BUG] reference deleted but no entry found in <extras>\n";
+    ERRMSG << "\n + [INFO] no such optional entity\n";
     return false;
 }
 
-- 
2.43.0


From 29a32b96ad7c939508d8a58f1669975299efcb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 034/143] fix: write comment lines with a pointer to their
 directory entry

---
 src/entities/iges_entity.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 444dee8..225154d 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2821,11 +2821,20 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
 
         for( sidx = 0; sidx < sz; )
         {
-            tmp = sCom->substr( sidx, 72 );
+            tmp = sCom->substr( sidx, 64 );
             sidx += tmp.length();
 
-            if( tmp.length() < 72 )
-                tmp.append( 72 - tmp.length(), ' ' );
+            if( tmp.length() < 64 )
+                tmp.append( 64 - tmp.length(), ' ' );
+
+            // note: all Parameter Data lines refer to their Directory Entry
+            if( !FormatDEInt( tmp1, sequenceNumber ) )
+            {
+                ERRMSG << "\n + [BUG] could not format optional parameter comment\n";
+                return false;
+            }
+
+            tmp += tmp1;
 
             if( !FormatDEInt( tmp1, pdSeq++ ) )
             {
-- 
2.43.0


From f0e039ab7976de97dbdae09e0ec4f7aefcdeb055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 035/143] fix: never return stale pointers to deleted comments

---
 src/entities/iges_entity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 225154d..f91e783 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -3052,6 +3052,7 @@ bool IGES_ENTITY::DelComment( int index )
     }
 
     comments.erase( bs );
+    vcomments.clear();
     return true;
 }
 
@@ -3059,6 +3060,7 @@ bool IGES_ENTITY::DelComment( int index )
 bool IGES_ENTITY::ClearComments( void )
 {
     comments.clear();
+    vcomments.clear();
     return true;
 }
 
-- 
2.43.0


From 291bd6a5036357f5f1939f7ce5e2e7211e1ac9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 036/143] fix: scale the coefficients of conics so that the
 curve is scaled

---
 src/entities/entity104.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 95be751..003fc0a 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,12 +356,11 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
-    A *= sf;
-    B *= sf;
-    C *= sf;
+    // note: the quadratic coefficients are retained so that
+    // A*x^2 + B*x*y + C*y^2 + D*x + E*y + F = 0 describes the scaled curve
     D *= sf;
     E *= sf;
-    F *= sf;
+    F *= sf * sf;
     ZT *= sf;
     X1 *= sf;
     Y1 *= sf;
-- 
2.43.0


From 81bc2d4c5b4e475ae0ab9d1ec3b44d234f508507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 037/143] fix: accept the (odd) directory entry pointers of
 boolean tree operands

---
 src/entities/entity180.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 330ede9..97fb86f 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -444,7 +444,7 @@ bool IGES_ENTITY_180::readPD(std::ifstream &aFile, int &aSequenceVar)
         }
 
         if( ent == 0 || ent > 3 || ent < -9999997
-            || ( ent < 0 && (ent & 1) ) )
+            || ( ent < 0 && !(ent & 1) ) )
         {
             ERRMSG << "\n + [INFO] invalid value (" << ent << ")\n";
             pdout.clear();
-- 
2.43.0


From 122d6c79a1b49afa885503df59e092a6d41e12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 038/143] fix: release the remaining operands when one operand
 of a boolean tree is unlinked

---
 src/entities/entity180.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 97fb86f..6fcf139 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -310,9 +310,10 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
     {
         IGES_ENTITY* ip = (*rbeg)->pEnt;
 
-        if( aChildEntity == ip )
+        if( ip && aChildEntity == ip )
         {
             clear_all = true;
+            delete *rbeg;
             nodes.erase( rbeg );
             break;
         }
@@ -321,9 +322,9 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
     }
 
     if( clear_all )
-        nodes.clear();
+        ClearNodes();
 
-    return true;
+    return clear_all;
 }
 
 
-- 
2.43.0


From 3898172193b2ddfc560c12c545c851a1c392977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 039/143] fix: do not walk the list of parents while unlinking
 modifies it

---
 src/entities/iges_entity.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index f91e783..30e3f15 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -130,8 +130,11 @@ IGES_ENTITY::~IGES_ENTITY()
 
     if( !refs.empty() )
     {
-        std::list<IGES_ENTITY*>::iterator rbeg = refs.begin();
-        std::list<IGES_ENTITY*>::iterator rend = refs.end();
+        // note: unlink() may invoke delReference() on this entity
+        std::list<IGES_ENTITY*> parents;
+        parents.swap( refs );
+        std::list<IGES_ENTITY*>::iterator rbeg = parents.begin();
+        std::list<IGES_ENTITY*>::iterator rend = parents.end();
 
         while( rbeg != rend )
         {
@@ -140,8 +143,6 @@ IGES_ENTITY::~IGES_ENTITY()
 
             ++rbeg;
         }
-
-        refs.clear();
     }
 
     if( !extras.empty() )
-- 
2.43.0


From 67b5073e7775d6239a3b8186ee0178d2a01387da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 040/143] fix: write all parameter space curves of a loop

---
 src/entities/entity508.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 6eacf44..e7f6875 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -218,6 +218,12 @@ bool IGES_ENTITY_508::format( int &index )
 
     parameterData = index;
 
+    if( edges.empty() )
+    {
+        ERRMSG << "\n + [INFO] loop has no edges\n";
+        return false;
+    }
+
     if( !parent )
     {
         ERRMSG << "\n + [INFO] method invoked with no parent IGES object\n";
@@ -284,7 +290,7 @@ bool IGES_ENTITY_508::format( int &index )
         // K(n)
         ostr.str("");
 
-        if( sV == iV && extras.empty() )
+        if( sV == iV && (*sV)->pcurves.empty() && extras.empty() )
             ostr << (*sV)->pcurves.size() << rd;
         else
             ostr << (*sV)->pcurves.size() << pd;
@@ -294,7 +300,7 @@ bool IGES_ENTITY_508::format( int &index )
 
         // write out PS curve data
         vector< LOOP_PAIR* >::iterator sP = (*sV)->pcurves.begin();
-        vector< LOOP_PAIR* >::iterator eP = --((*sV)->pcurves.end());
+        vector< LOOP_PAIR* >::iterator eP = (*sV)->pcurves.end();
 
         while( sP != eP )
         {
@@ -311,16 +317,16 @@ bool IGES_ENTITY_508::format( int &index )
 
             // CURV(n, k)
             ostr.str("");
+            ostr << (*sP)->curve->getDESequence();
+            ++sP;
 
             if( sV == iV && sP == eP && extras.empty() )
-                ostr << (*sP)->curve->getDESequence() << rd;
+                ostr << rd;
             else
-                ostr << (*sP)->curve->getDESequence() << pd;
+                ostr << pd;
 
             tStr = ostr.str();
             AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
-
-            ++sP;
         }
 
         ++acc;
-- 
2.43.0


From 45e8c32aa321b2a6b7663bb14e57541b49ec4084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 041/143] fix: release the children of a loop when it is
 destroyed

---
 src/entities/entity508.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index e7f6875..1659d32 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -100,7 +100,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
         while( sP != eP )
         {
-            (*sP)->curve->unlink(this);
+            (*sP)->curve->delReference(this);
             delete *sP;
             ++sP;
         }
@@ -117,7 +117,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
     while( sE != eE )
     {
-        sE->first->unlink(this);
+        sE->first->delReference(this);
         ++sE;
     }
 
-- 
2.43.0


From d422e6682a99a2bf0f39ee33789bcf387db53004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 042/143] fix: keep the edges of a loop consistent when a child
 is unlinked or rejected

---
 src/entities/entity508.cpp | 148 +++++++++++++++++--------------------
 1 file changed, 68 insertions(+), 80 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 1659d32..3533ddc 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -366,16 +366,8 @@ bool IGES_ENTITY_508::unlink(IGES_ENTITY *aChildEntity)
     if(IGES_ENTITY::unlink(aChildEntity) )
         return true;
 
-    int eType = aChildEntity->GetEntityType();
-
-    if( ENT_VERTEX == eType || ENT_EDGE == eType )
-    {
-        if( delEdge( aChildEntity, true, true ) )
-            return true;
-
-        ERRMSG << "\n +[BUG] failed to unlink edge entity from E508\n";
-        return false;
-    }
+    if( delEdge( aChildEntity, true, true ) )
+        return true;
 
     if( delPCurve( aChildEntity, true, true ) )
         return true;
@@ -754,59 +746,53 @@ bool IGES_ENTITY_508::addEdge( IGES_ENTITY* aEdge )
 // PCurves should be released
 bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnlink )
 {
-    bool ok = false;    // flag indicates true if the entity has been matched
-
     list<pair<IGES_ENTITY*, int> >::iterator sE = redges.begin();
     list<pair<IGES_ENTITY*, int> >::iterator eE = redges.end();
 
-    while( sE != eE )
+    while( sE != eE && sE->first != aEdge )
+        ++sE;
+
+    if( sE == eE )
+        return false;
+
+    --sE->second;
+
+    // the entity is still used by other edges of this loop
+    if( !aFlagAll && sE->second > 0 )
+        return true;
+
+    if( aFlagAll )
     {
-        IGES_ENTITY* ep = sE->first;
+        vector< LOOP_DATA* >::iterator sF = edges.begin();
 
-        if( aEdge == ep )
+        while( sF != edges.end() )
         {
-            ok = true;
+            if( (*sF)->data != aEdge )
+            {
+                ++sF;
+                continue;
+            }
 
-            if( !aFlagUnlink )
-                ep->delReference(this);
+            vector< LOOP_PAIR* >::iterator sP = (*sF)->pcurves.begin();
+            vector< LOOP_PAIR* >::iterator eP = (*sF)->pcurves.end();
 
-            if( aFlagAll || (--sE->second == 0) )
+            while( sP != eP )
             {
-                vector< LOOP_DATA* >::reverse_iterator sF = edges.rbegin();
-                vector< LOOP_DATA* >::reverse_iterator eF = edges.rend();
-
-                while( sF != eF )
-                {
-                    if( (*sF)->data == ep )
-                    {
-                        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-                        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
-
-                        while( sP != eP )
-                        {
-                            delPCurve( (*sP)->curve, false, false );
-                            delete *sP;
-                            ++sP;
-                        }
-
-                        delete *sF;
-                        --sF;
-                        edges.pop_back();
-                        continue;
-                    }
-
-                    ++sF;
-                }
-
-                sE = redges.erase( sE );
-                continue;
-            }   // deleted last reference
-        }   // found entity to delete
+                (*sP)->curve->delReference(this);
+                delete *sP;
+                ++sP;
+            }
 
-        ++sE;
-    }   // searched list of entities
+            delete *sF;
+            sF = edges.erase( sF );
+        }
+    }
+
+    if( !aFlagUnlink )
+        aEdge->delReference(this);
 
-    return ok;
+    redges.erase( sE );
+    return true;
 }
 
 
@@ -864,39 +850,41 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
 
     while( sF != eF )
     {
-        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
+        vector< LOOP_PAIR* >::iterator sP = (*sF)->pcurves.begin();
+        vector< LOOP_PAIR* >::iterator eP = (*sF)->pcurves.end();
 
-        while( sP != eP )
+        while( sP != eP && (*sP)->curve != aCurve )
+            ++sP;
+
+        if( sP == eP )
         {
-            if( (*sP)->curve == aCurve )
+            ++sF;
+            continue;
+        }
+
+        if( !aFlagUnlink )
+            aCurve->delReference(this);
+
+        delete *sP;
+        (*sF)->pcurves.erase( sP );
+
+        if( aFlagDelEdge )
+        {
+            LOOP_DATA* ld = *sF;
+            edges.erase( sF );
+
+            while( !ld->pcurves.empty() )
             {
-                if( aFlagDelEdge )
-                {
-                    while( !(*sF)->pcurves.empty() )
-                    {
-                        (*sF)->pcurves.back()->curve->delReference(this);
-                        (*sF)->pcurves.pop_back();
-                    }
-
-                    delEdge( (*sF)->data, false, false );
-                }
-                else
-                {
-                    if( !aFlagUnlink )
-                        (*sP)->curve->delReference(this);
-
-                    delete *sP;
-                    (*sF)->pcurves.pop_back();
-                }
-
-                return true;
+                ld->pcurves.back()->curve->delReference(this);
+                delete ld->pcurves.back();
+                ld->pcurves.pop_back();
             }
 
-            ++sP;
+            delEdge( ld->data, false, false );
+            delete ld;
         }
 
-        ++sF;
+        return true;
     }
 
     return false;
@@ -941,11 +929,11 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
         {
             while( sP != aEdge->pcurves.begin() )
             {
-                (*sP)->curve->delReference(this);
                 --sP;
+                (*sP)->curve->delReference(this);
             }
 
-            (*sP)->curve->delReference(this);
+            delEdge( aEdge->data, false, false );
             ERRMSG << "\n +[INFO] could not add pcurve to list\n";
             return false;
         }
-- 
2.43.0


From bbfb5b54edf0d8db57ed6d1588b3210eee631469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 043/143] fix: let GetLoopData and GetEdges report the number
 of items

---
 src/entities/entity504.cpp   | 2 +-
 src/entities/entity508.cpp   | 2 +-
 src/include/core/entity504.h | 2 +-
 src/include/core/entity508.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index b4343d7..1cc807a 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -557,7 +557,7 @@ bool IGES_ENTITY_504::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 
 bool
-IGES_ENTITY_504::GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList )
+IGES_ENTITY_504::GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList )
 {
     if( edges.empty() )
     {
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 3533ddc..c2a6d9b 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -891,7 +891,7 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
 }
 
 
-bool IGES_ENTITY_508::GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList )
+bool IGES_ENTITY_508::GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList )
 {
     if( edges.empty() )
     {
diff --git a/src/include/core/entity504.h b/src/include/core/entity504.h
index 621de8c..be88435 100644
--- a/src/include/core/entity504.h
+++ b/src/include/core/entity504.h
@@ -143,7 +143,7 @@ public:
      * Function GetEdges
      * returns a vector containing Edge data for convenient access by users
      */
-    bool GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList );
+    bool GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList );
 
 
     /**
diff --git a/src/include/core/entity508.h b/src/include/core/entity508.h
index 0105663..f530f02 100644
--- a/src/include/core/entity508.h
+++ b/src/include/core/entity508.h
@@ -165,7 +165,7 @@ public:
      * returns a pointer to the list of data structures
      * representing this loop entity.
      */
-    bool GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList );
+    bool GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList );
 
 
     /**
-- 
2.43.0


From e706b23ad940836affd492574fcdaa22d677d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 044/143] fix: do not return outdated edges of an edge list

---
 src/entities/entity504.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 1cc807a..a349294 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -282,6 +282,8 @@ bool IGES_ENTITY_504::unlink(IGES_ENTITY *aChildEntity)
     if(IGES_ENTITY::unlink(aChildEntity) )
         return true;
 
+    vedges.clear();
+
     int eType = aChildEntity->GetEntityType();
     list<EDGE_DATA>::iterator sE = edges.begin();
     list<EDGE_DATA>::iterator eE = edges.end();
@@ -639,6 +641,7 @@ bool IGES_ENTITY_504::AddEdge( IGES_ENTITY* aCurve,
     nc.tv = aTV;
 
     edges.push_back( nc );
+    vedges.clear();
 
     if( NULL != parent )
     {
-- 
2.43.0


From 57d841c72b1e409c915c5d641e8b7f0ebf524b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 045/143] fix: do not add the items of a rejected edge to the
 model

---
 src/entities/entity504.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index a349294..8161191 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -717,9 +717,6 @@ bool IGES_ENTITY_504::addCurve( IGES_ENTITY* aCurve )
         return false;
     }
 
-    if( NULL != parent && parent != aCurve->GetParentIGES() )
-        parent->AddEntity( aCurve );
-
     return true;
 }
 
@@ -763,9 +760,6 @@ bool IGES_ENTITY_504::addVertexList( IGES_ENTITY_502* aVertexList )
 
     vertices.push_back( pair<IGES_ENTITY_502*, int>(aVertexList, 1) );
 
-    if( NULL != parent && parent != aVertexList->GetParentIGES() )
-        parent->AddEntity( aVertexList );
-
     return true;
 }
 
-- 
2.43.0


From 331cc0dcdbb538488bcad5a99f8e941d80eb75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 046/143] fix: check that the vertices of an edge list are
 vertex lists

---
 src/entities/entity504.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 8161191..70f5779 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -151,6 +151,14 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
 
         lp1 = (IGES_ENTITY_502*)((*entities)[lI]);
 
+        if( ENT_VERTEX != lp0->GetEntityType() || ENT_VERTEX != lp1->GetEntityType() )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] SVP or TVP is not a Vertex List in DE ";
+            cerr << sequenceNumber << "\n";
+            deItems.clear();
+            return false;
+        }
+
         if( !AddEdge( cp, lp0, sI->sv, lp1, sI->tv ) )
         {
             ERRMSG << "\n + [INFO] could not add edge reference\n";
-- 
2.43.0


From 79275ffa59292e6142575791298dd86bdf67ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 047/143] fix: refuse to write an empty edge list

---
 src/entities/entity504.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 70f5779..33a7f47 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -187,6 +187,12 @@ bool IGES_ENTITY_504::format( int &index )
 
     parameterData = index;
 
+    if( edges.empty() )
+    {
+        ERRMSG << "\n + [INFO] edge list has no edges\n";
+        return false;
+    }
+
     if( !parent )
     {
         ERRMSG << "\n + [INFO] method invoked with no parent IGES object\n";
-- 
2.43.0


From 197b157a3c1dca3b231ae224a016e713456c66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 048/143] fix: release an entity which is removed from a
 subfigure definition

---
 src/entities/entity308.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index bb80639..217d72d 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -598,6 +598,7 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
     {
         if( aPtr == *bref )
         {
+            aPtr->delReference(this);
             DE.erase( bref );
             N = (int)DE.size();
             return true;
-- 
2.43.0


From 27f691cf3f4ac3d68f3424acb0e413194c481d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 049/143] fix: do not recurse forever when writing a subfigure
 which contains itself

---
 src/entities/entity308.cpp   | 27 +++++++++++++++++++++++++++
 src/include/core/entity308.h |  1 +
 2 files changed, 28 insertions(+)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index 217d72d..6ba4e22 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -42,6 +42,7 @@ IGES_ENTITY_308::IGES_ENTITY_308( IGES* aParent ) : IGES_ENTITY( aParent )
 
     N = 0;
     DEPTH = 0;
+    inDepth = false;
 
     return;
 }
@@ -155,6 +156,13 @@ bool IGES_ENTITY_308::format( int &index )
     }
 
     DEPTH = getDepthLevel();
+
+    if( DEPTH < 0 )
+    {
+        ERRMSG << "\n + [BUG] could not determine the depth level of the subfigure\n";
+        return false;
+    }
+
     N = (int)DE.size();
 
     parameterData = index;
@@ -616,6 +624,11 @@ int IGES_ENTITY_308::getDepthLevel( void )
     if( DE.empty() )
         return 0;
 
+    // a subfigure which contains itself has no depth level
+    if( inDepth )
+        return -1;
+
+    inDepth = true;
     int nd = 0; // minimum depth level
     int tm = 0;
 
@@ -630,6 +643,12 @@ int IGES_ENTITY_308::getDepthLevel( void )
             ep308 = (IGES_ENTITY_308*)(*bref);
             tm = ep308->getDepthLevel();
 
+            if( tm < 0 )
+            {
+                inDepth = false;
+                return tm;
+            }
+
             if( tm >= nd )
                 nd = tm + 1;
         }
@@ -639,17 +658,25 @@ int IGES_ENTITY_308::getDepthLevel( void )
             ep408 = (IGES_ENTITY_408*)(*bref);
             tm = ep408->getDepthLevel();
 
+            if( tm < 0 )
+            {
+                inDepth = false;
+                return tm;
+            }
+
             if( tm >= nd )
                 nd = tm + 1;
         }
         else if( (*bref)->GetEntityType() == ENT_NETWORK_SUBFIGURE_DEFINITION )
         {
             ERRMSG << "\n + [INFO] TO BE IMPLEMENTED: respond to ENT_NETWORK_SUBFIGURE_DEFINITION\n";
+            inDepth = false;
             return -100;
         }
 
         ++bref;
     }
 
+    inDepth = false;
     return nd;
 }
diff --git a/src/include/core/entity308.h b/src/include/core/entity308.h
index f282e09..babdb4d 100644
--- a/src/include/core/entity308.h
+++ b/src/include/core/entity308.h
@@ -61,6 +61,7 @@ class IGES_ENTITY_308 : public IGES_ENTITY
 protected:
 
     std::list< int > iDE;
+    bool inDepth;   // true while the depth level is being determined
 
     friend class IGES;
     virtual bool format( int &index );
-- 
2.43.0


From 2eac89f86dcb0b2cd2868f0e020010eb2fd34ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 050/143] fix: keep the subfigure of an instance when an
 assignment is rejected

---
 src/entities/entity408.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 554d174..59dd613 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -419,19 +419,20 @@ bool IGES_ENTITY_408::GetDE( IGES_ENTITY_308*& aPtr )
 
 bool IGES_ENTITY_408::SetDE( IGES_ENTITY_308* aPtr )
 {
-    if( DE )
-        DE->delReference(this);
-
-    DE = aPtr;
+    if( aPtr == DE )
+        return true;
 
     if( NULL == aPtr )
+    {
+        DE->delReference(this);
+        DE = NULL;
         return true;
+    }
 
     int eT = aPtr->GetEntityType();
 
     if( eT != ENT_SUBFIGURE_DEFINITION )
     {
-        DE = NULL;
         ERRMSG << "\n + [ERROR] invalid entity type (";
         cerr << eT << "); only type 308 is allowed\n";
         return false;
@@ -439,9 +440,8 @@ bool IGES_ENTITY_408::SetDE( IGES_ENTITY_308* aPtr )
 
     bool dup = false;
 
-    if( !DE->addReference(this, dup) )
+    if( !aPtr->addReference(this, dup) )
     {
-        DE = NULL;
         ERRMSG << "\n + [INFO] could not add child entity reference\n";
         return false;
     }
@@ -449,10 +449,14 @@ bool IGES_ENTITY_408::SetDE( IGES_ENTITY_308* aPtr )
     if( dup )
     {
         ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        DE = NULL;
         return false;
     }
 
+    if( DE )
+        DE->delReference(this);
+
+    DE = aPtr;
+
     if( NULL != parent && parent != aPtr->GetParentIGES() )
         parent->AddEntity( aPtr );
 
-- 
2.43.0


From 8d917626ef70c11249ecf43444172cb94307ba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 051/143] fix: reject circular chains of transforms

---
 src/entities/iges_entity.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 30e3f15..8944748 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -779,7 +779,12 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 return false;
             }
 
-            if( pTransform == this )
+            IGES_ENTITY* tchain = pTransform;
+
+            while( tchain && tchain != this )
+                tchain = tchain->pTransform;
+
+            if( tchain )
             {
                 pTransform = NULL;
                 ERRMSG << "\n + [CORRUPT FILE] self-referential entity referenced by Transform (DE";
@@ -2254,6 +2259,17 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
         return false;
     }
 
+    IGES_ENTITY* tchain = tp;
+
+    while( tchain && tchain != this )
+        tchain = tchain->pTransform;
+
+    if( tchain )
+    {
+        ERRMSG << "\n + [BUG] circular chain of transforms requested\n";
+        return false;
+    }
+
     bool dup = false;
 
     if( !tp->addReference(this, dup) )
-- 
2.43.0


From dce143361c9791c3f41002e8b3fce6d44926f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 052/143] fix: let unlink of a composite curve report whether
 there was a link

---
 src/entities/entity102.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index 4bf0a51..4114bad 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -406,6 +406,7 @@ bool IGES_ENTITY_102::unlink(IGES_ENTITY *aChildEntity)
     std::list<IGES_CURVE*>::iterator ep = curves.end();
 
     bool clear_all = false;
+    bool ok = false;
 
     while( sp != ep )
     {
@@ -415,6 +416,7 @@ bool IGES_ENTITY_102::unlink(IGES_ENTITY *aChildEntity)
                 clear_all = true;
 
             sp = curves.erase( sp );
+            ok = true;
             break;
         }
 
@@ -435,7 +437,7 @@ bool IGES_ENTITY_102::unlink(IGES_ENTITY *aChildEntity)
         curves.clear();
     }
 
-    return true;
+    return ok;
 }
 
 
-- 
2.43.0


From c03671c6b81333d58739069953bcb3d6f2de8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 053/143] fix: write the number of voids of a manifold solid

---
 src/entities/entity186.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index 1b64322..89d21f1 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -229,6 +229,14 @@ bool IGES_ENTITY_186::format( int &index )
         AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
     }
 
+    else
+    {
+        ostr.str("");
+        ostr << mvoids.size() << pd;
+        tStr = ostr.str();
+        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    }
+
     list<pair<IGES_ENTITY_514*, bool> >::iterator sV = mvoids.begin();
     list<pair<IGES_ENTITY_514*, bool> >::iterator eV = mvoids.end();
     list<pair<IGES_ENTITY_514*, bool> >::iterator iV = --(mvoids.end());
-- 
2.43.0


From 19fe41a9cd5284abe78fe8f9d3ca460ac091989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 054/143] fix: end the record of a vertex list after the last
 coordinate only

---
 src/entities/entity502.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity502.cpp b/src/entities/entity502.cpp
index 62a1518..d4569e4 100644
--- a/src/entities/entity502.cpp
+++ b/src/entities/entity502.cpp
@@ -133,7 +133,7 @@ bool IGES_ENTITY_502::format( int &index )
 
     for( int i = 0; i < 3; ++i )
     {
-        if( !FormatPDREal( tStr, vals[i], idelim, uir ) )
+        if( !FormatPDREal( tStr, vals[i], i < 2 ? pd : idelim, uir ) )
         {
             ERRMSG << "\n + [INFO] could not format Point[" << acc << "]\n";
             return false;
-- 
2.43.0


From 37af23ab9fc4e98427a38519d2b3b551cb51ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 055/143] fix: compare the radii rather than the squared radii
 of a circle

---
 src/entities/entity100.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index d95b177..c9bd453 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -368,7 +368,7 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     double d1 = p1.x*p1.x + p1.y*p1.y;
     double d2 = p2.x*p2.x + p2.y*p2.y;
-    d1 = d2 - d1;
+    d1 = sqrt( d2 ) - sqrt( d1 );
 
     if( abs( d1 ) > uir )
     {
-- 
2.43.0


From 65f80f0f6222b364382b4d9cc34cee99fecf950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 056/143] fix: do not call a vertex list while it is being
 destroyed

---
 src/entities/entity504.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 33a7f47..d640564 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -798,7 +798,10 @@ bool IGES_ENTITY_504::delVertexList( IGES_ENTITY_502* aVertexList, bool aFlagAll
 
             if( aFlagAll || 0 == sV->second )
             {
-                sV->first->delReference(this);
+                // note: aFlagAll is set when the list has been unlinked by its destructor
+                if( !aFlagAll )
+                    sV->first->delReference(this);
+
                 vertices.erase( sV );
             }
 
-- 
2.43.0


From 7f39ff86409cf097eb5e3f3eb3e8d261e1e61bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 057/143] fix: refuse to write an empty vertex list

---
 src/entities/entity502.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/entity502.cpp b/src/entities/entity502.cpp
index d4569e4..05f2fbe 100644
--- a/src/entities/entity502.cpp
+++ b/src/entities/entity502.cpp
@@ -74,6 +74,12 @@ bool IGES_ENTITY_502::format( int &index )
 
     parameterData = index;
 
+    if( vertices.empty() )
+    {
+        ERRMSG << "\n + [INFO] vertex list has no vertices\n";
+        return false;
+    }
+
     if( !parent )
     {
         ERRMSG << "\n + [INFO] method invoked with no parent IGES object\n";
-- 
2.43.0


From 88ca62306790543bd88594de8fe9b96d9a449144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 058/143] fix: default the name of a colour which has optional
 parameters

---
 src/entities/entity314.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/entity314.cpp b/src/entities/entity314.cpp
index 0ce2ed1..781b080 100644
--- a/src/entities/entity314.cpp
+++ b/src/entities/entity314.cpp
@@ -221,6 +221,12 @@ bool IGES_ENTITY_314::format( int &index )
         tStr = ostr.str();
         AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
     }
+    else if( !extras.empty() )
+    {
+        // the name must be defaulted if any parameters follow
+        tStr = pd;
+        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
     {
-- 
2.43.0


From c007974af2a362fe2c31cb5ef0677f185d665b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 059/143] fix: write colour names of any length

---
 src/entities/entity314.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity314.cpp b/src/entities/entity314.cpp
index 781b080..9cbf2c7 100644
--- a/src/entities/entity314.cpp
+++ b/src/entities/entity314.cpp
@@ -216,10 +216,12 @@ bool IGES_ENTITY_314::format( int &index )
         else
             idelim = pd;
 
-        ostr.str( "" );
-        ostr << cname.size() << "H" << cname << idelim;
-        tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDHStr( cname, fStr, pdout, index, sequenceNumber, pd, rd, idelim ) )
+        {
+            ERRMSG << "\n + [INFO] could not format the color name\n";
+            pdout.clear();
+            return false;
+        }
     }
     else if( !extras.empty() )
     {
-- 
2.43.0


From 0f25b4b7f3913c4269cf20389b96106ea081245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 060/143] fix: do not replace the height of a cylinder when its
 radius is too small

---
 src/entities/entity154.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 197c3f1..6516247 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -280,7 +280,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
         if( R > 0.0 )
         {
             ERRMSG << "\n + [BAD FILE] Right Circular Cylinder radius < MinRes \n";
-            H = minRes;
+            R = minRes;
         }
         else
         {
-- 
2.43.0


From 0a843495d5e7c3c70ac62baafede301606447931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 061/143] fix: apply the default Z direction of cylinders and
 extrusions

---
 src/entities/entity154.cpp | 2 +-
 src/entities/entity164.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 6516247..7889346 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -366,7 +366,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     if( !eor )
     {
-        if( !ParseReal( pdout, idx, K1, eor, pd, rd ) )
+        if( !ParseReal( pdout, idx, K1, eor, pd, rd, &ddef ) )
         {
             ERRMSG << "\n + [BAD FILE] no K1 value for Right Circular Cylinder\n";
             pdout.clear();
diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index eac03ad..95370c2 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -388,7 +388,7 @@ bool IGES_ENTITY_164::readPD(std::ifstream &aFile, int &aSequenceVar)
     }
     else
     {
-        K1 = 0.0;
+        K1 = 1.0;
     }
 
     // ensure (I1,J1,K1) is a unit vector
-- 
2.43.0


From 8eaa152a5d7c39178180c087dabe210a9375d8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 062/143] fix: treat fields which contain only blanks as
 defaulted

---
 src/iges/iges_io.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index e46b845..5d577de 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -239,12 +239,15 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
         return false;
     }
 
-    if( data[idx] == pd || data[idx] == rd )
+    // a field which is empty or contains only blanks is defaulted
+    size_t sidx = data.find_first_not_of( ' ', idx );
+
+    if( sidx != string::npos && ( data[sidx] == pd || data[sidx] == rd ) )
     {
-        if( data[idx] == rd )
+        if( data[sidx] == rd )
             eor = true;
 
-        ++idx;
+        idx = (int)sidx + 1;
         return true;
     }
 
@@ -380,7 +383,8 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
         return false;
     }
 
-    if( tmp.empty() )
+    // a field which is empty or contains only blanks is defaulted
+    if( tmp.find_first_not_of( ' ' ) == string::npos )
     {
         if( idefault )
         {
@@ -429,7 +433,8 @@ bool ParseReal( const std::string& data, int& idx, double& param, bool& eor, cha
         return false;
     }
 
-    if( tmp.empty() )
+    // a field which is empty or contains only blanks is defaulted
+    if( tmp.find_first_not_of( ' ' ) == string::npos )
     {
         if( ddefault )
         {
-- 
2.43.0


From f79665a52f6447e9326b29c2df8640eddef71a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 063/143] fix: keep a curve unchanged when new NURBS data is
 rejected and never use a released evaluation curve

---
 src/entities/entity126.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 2b93f0e..d4cc71a 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1000,11 +1000,6 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     const double* coeff, bool isRational, double v0, double v1 )
 {
-#ifdef USE_SISL
-    if( NULL != scurve )
-        freeCurve( scurve );
-#endif
-
     if( !knot || !coeff )
     {
         ERRMSG << "\n + [INFO] invalid NURBS parameter pointer (NULL)\n";
@@ -1027,24 +1022,34 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots = nCoeff + order;
-    nCoeffs = nCoeff;
-    K = nCoeff - 1;
-    M = order - 1;
+    int lastKnot = nCoeff + order - 1;
 
     // ensure V0, V1 are within the knot range
-    if( v0 < knot[0] || v0 >= knot[nKnots -1] )
+    if( v0 < knot[0] || v0 >= knot[lastKnot] )
     {
         ERRMSG << "\n + [INFO] v0 does not satisfy the requirement T(-M) <= v0 < T(N+M)\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot[nKnots -1] )
+    if( v1 <= v0 || v1 > knot[lastKnot] )
     {
         ERRMSG << "\n + [INFO] v1 does not satisfy the requirement v0 < v1 <= T(N+M)\n";
         return false;
     }
 
+#ifdef USE_SISL
+    if( NULL != scurve )
+    {
+        freeCurve( scurve );
+        scurve = NULL;
+    }
+#endif
+
+    nKnots = nCoeff + order;
+    nCoeffs = nCoeff;
+    K = nCoeff - 1;
+    M = order - 1;
+
     if( knots )
     {
         delete [] knots;
-- 
2.43.0


From 6493a7c7c1ffe76ab2e329704d5c5c4034a4ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 064/143] fix: keep a surface unchanged when new NURBS data is
 rejected

---
 src/entities/entity128.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index dd99085..a4e559c 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -976,40 +976,43 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots1 = nCoeff1 + order1;
-    nKnots2 = nCoeff2 + order2;
-    nCoeffs1 = nCoeff1;
-    nCoeffs2 = nCoeff2;
-    K1 = nCoeff1 - 1;
-    K2 = nCoeff2 - 1;
-    M1 = order1 - 1;
-    M2 = order2 - 1;
+    int lastKnot1 = nCoeff1 + order1 - 1;
+    int lastKnot2 = nCoeff2 + order2 - 1;
 
     // check validity of (u, v)
-    if( u0 < knot1[0] || u0 >= knot1[nKnots1 -1] )
+    if( u0 < knot1[0] || u0 >= knot1[lastKnot1] )
     {
         ERRMSG << "\n + [INFO] u0 is invalid\n";
         return false;
     }
 
-    if( u1 <= u0 || u1 > knot1[nKnots1 -1] )
+    if( u1 <= u0 || u1 > knot1[lastKnot1] )
     {
         ERRMSG << "\n + [INFO] u1 is invalid\n";
         return false;
     }
 
-    if( v0 < knot2[0] || v0 >= knot2[nKnots2 -1] )
+    if( v0 < knot2[0] || v0 >= knot2[lastKnot2] )
     {
         ERRMSG << "\n + [INFO] v0 is invalid\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot2[nKnots2 -1] )
+    if( v1 <= v0 || v1 > knot2[lastKnot2] )
     {
         ERRMSG << "\n + [INFO] v1 is invalid\n";
         return false;
     }
 
+    nKnots1 = nCoeff1 + order1;
+    nKnots2 = nCoeff2 + order2;
+    nCoeffs1 = nCoeff1;
+    nCoeffs2 = nCoeff2;
+    K1 = nCoeff1 - 1;
+    K2 = nCoeff2 - 1;
+    M1 = order1 - 1;
+    M2 = order2 - 1;
+
     if( knots1 )
     {
         delete [] knots1;
-- 
2.43.0


From 6a9e48cdfbad21958f2b4b004013ad4b8b3f7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 065/143] fix: write empty comments rather than dropping them

---
 src/entities/iges_entity.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 8944748..4b63d79 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2836,7 +2836,10 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
     {
         sz = sCom->length();
 
-        for( sidx = 0; sidx < sz; )
+        sidx = 0;
+
+        // note: an empty comment is written as a blank line
+        do
         {
             tmp = sCom->substr( sidx, 64 );
             sidx += tmp.length();
@@ -2862,7 +2865,8 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
             tmp1[0] = 'P';
             tmp += tmp1 + "\n";
             pdout += tmp;
-        }
+        } while( sidx < sz );
+
         ++sCom;
     }
 
-- 
2.43.0


From 2249b4c2767edb387bf7543c86d5ab291709553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 066/143] fix: drop the reference taken on a wrong kind of
 attribute entity

---
 src/entities/iges_entity.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 4b63d79..864e145 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -600,6 +600,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type ";
                     cerr << pLineFontPattern->GetEntityType();
                     cerr << ") is not a LineFont Pattern (304)\n";
+                    pLineFontPattern->delReference( this );
                     pLineFontPattern = NULL;
                     ok = false;
                 }
@@ -672,6 +673,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Definition Levels Property (406-1)\n";
+                    pLevel->delReference( this );
                     pLevel = NULL;
                     ok = false;
                 }
@@ -745,6 +747,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a View or Views Visible Associativity Instance (410 or 402-3/4/19)\n";
+                    pView->delReference( this );
                     pView = NULL;
                     ok = false;
                 }
@@ -828,6 +831,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Transform entity (124)\n";
+                    pTransform->delReference( this );
                     pTransform = NULL;
                     ok = false;
                 }
@@ -900,6 +904,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Label Display Associativity (402-5)\n";
+                    pLabelAssoc->delReference( this );
                     pLabelAssoc = NULL;
                     ok = false;
                 }
@@ -971,6 +976,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Color Definition (314)\n";
+                    pColor->delReference( this );
                     pColor = NULL;
                     ok = false;
                 }
-- 
2.43.0


From 4125bfad01e19ef16f13a960c30d07a3eb390f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 067/143] fix: refuse NURBS sizes which exceed the parameter
 data

---
 src/entities/entity126.cpp | 10 ++++++++++
 src/entities/entity128.cpp | 12 ++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index d4cc71a..b2fda42 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -487,6 +487,16 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // each value occupies at least its delimiter
+    int maxval = (int)pdout.length();
+
+    if( K > maxval || M > maxval )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] insufficient data for K, M = " << K << ", " << M << "\n";
+        pdout.clear();
+        return false;
+    }
+
     if( !ParseInt( pdout, idx, PROP1, eor, pd, rd ) )
     {
         ERRMSG << "\n + [INFO] couldn't read PROP1 (0/1:planar/nonplanar)\n";
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index a4e559c..e3e505b 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -520,6 +520,18 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // each value occupies at least its delimiter
+    int maxval = (int)pdout.length();
+
+    if( K1 > maxval || M1 > maxval || K2 > maxval || M2 > maxval
+        || K1 + 1 > maxval / (K2 + 1) )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] insufficient data for K1, K2, M1, M2 = ";
+        cerr << K1 << ", " << K2 << ", " << M1 << ", " << M2 << "\n";
+        pdout.clear();
+        return false;
+    }
+
     if( !ParseInt( pdout, idx, PROP1, eor, pd, rd ) )
     {
         ERRMSG << "\n + [INFO] couldn't read PROP1 (0/1:open/closed for all U)\n";
-- 
2.43.0


From 5b6d690efd05de599c3c02ff84e48f146741afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 068/143] fix: a Binary Tree only keeps operands which accepted
 its reference

---
 src/entities/entity180.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 6fcf139..fda8fae 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -155,8 +155,6 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
-                (*sn)->pEnt = (*entities)[iEnt];
-
                 if( !(*entities)[iEnt]->addReference(this, dup) )
                 {
                     ERRMSG << "\n + [INFO] unable to add reference to child entity\n";
@@ -169,6 +167,7 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
+                (*sn)->pEnt = (*entities)[iEnt];
             }
             else
             {
-- 
2.43.0


From 18827976260bc84ea2902bc2b7b16e7b6e06e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 069/143] fix: never scale a curve in the parameter space of a
 surface, whatever its type and references

---
 src/entities/entity100.cpp     |  4 ++
 src/entities/entity104.cpp     |  4 ++
 src/entities/entity110.cpp     |  4 ++
 src/entities/entity126.cpp     | 69 ++++++----------------------------
 src/entities/entity142.cpp     |  6 +++
 src/entities/entity508.cpp     | 25 ++++++++++++
 src/entities/iges_entity.cpp   | 34 +++++++++++++++--
 src/include/core/entity142.h   |  1 +
 src/include/core/entity508.h   |  1 +
 src/include/core/iges_entity.h | 23 ++++++++----
 10 files changed, 102 insertions(+), 69 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index c9bd453..797d8e9 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -402,6 +402,10 @@ bool IGES_ENTITY_100::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_100::rescale( double sf )
 {
+    // curves in the parameter space of a surface have no physical size
+    if( isParametric() )
+        return true;
+
     zOffset *= sf;
     xCenter *= sf;
     yCenter *= sf;
diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 003fc0a..fc6075e 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,6 +356,10 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
+    // curves in the parameter space of a surface have no physical size
+    if( isParametric() )
+        return true;
+
     // note: the quadratic coefficients are retained so that
     // A*x^2 + B*x*y + C*y^2 + D*x + E*y + F = 0 describes the scaled curve
     D *= sf;
diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index 10764c5..eb6d1d8 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -145,6 +145,10 @@ bool IGES_ENTITY_110::format( int &index )
 
 bool IGES_ENTITY_110::rescale( double sf )
 {
+    // curves in the parameter space of a surface have no physical size
+    if( isParametric() )
+        return true;
+
     X1 *= sf;
     Y1 *= sf;
     Z1 *= sf;
diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index b2fda42..3f3d565 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -308,70 +308,25 @@ bool IGES_ENTITY_126::format( int &index )
 
 bool IGES_ENTITY_126::rescale( double sf )
 {
-    // Before scaling we must determine if this curve is a member of the BPTR
-    // of a Curve on a Parametric Surface (BPTR to Entity 144). We must traverse
-    // the ancestors of this NURBS curve and decide whether or not it
-    // makes sense to scale the control points. If a Curve on Surface is scaled,
-    // only the Z values should be scaled
-
-    list<IGES_ENTITY*> eps;
-    eps.push_back( this );
-
-    IGES_ENTITY* ep = getFirstParentRef();
-    IGES_ENTITY* cps = NULL;
-
-    while( ep )
-    {
-        if( ep->GetEntityType() == ENT_CURVE_ON_PARAMETRIC_SURFACE )
-        {
-            cps = ep;
-            break;
-        }
-
-        eps.push_back( ep );
-        ep = ep->getFirstParentRef();
-    }
+    // curves in the parameter space of a surface have no physical size
+    if( isParametric() )
+        return true;
 
-    bool scaleXY = true;
+    if( NULL == coeffs )
+        return true;
 
-    if( cps )
+    if( NULL != scurve )
     {
-        // block the operation if this entity or a parent is equal to BPTR
-        if( ((IGES_ENTITY_142*)cps)->GetBPTR( &ep ) )
-        {
-            list<IGES_ENTITY*>::iterator sP = eps.begin();
-            list<IGES_ENTITY*>::iterator eP = eps.end();
-
-            while( sP != eP )
-            {
-                if( *sP == ep )
-                {
-                    scaleXY = false;
-                    break;
-                }
-
-                ++sP;
-            }
-        }
+        freeCurve( scurve );
+        scurve = NULL;
     }
 
-    if( NULL == coeffs )
-        return true;
-
     for( int i = 0, j = 0; i < nCoeffs; ++i )
     {
-        if( scaleXY )
-        {
-            coeffs[j] *= sf;
-            ++j;
-            coeffs[j] *= sf;
-            ++j;
-        }
-        else
-        {
-            j += 2;
-        }
-
+        coeffs[j] *= sf;
+        ++j;
+        coeffs[j] *= sf;
+        ++j;
         coeffs[j] *= sf;
         ++j;
 
diff --git a/src/entities/entity142.cpp b/src/entities/entity142.cpp
index 83c99f8..b31c230 100644
--- a/src/entities/entity142.cpp
+++ b/src/entities/entity142.cpp
@@ -321,6 +321,12 @@ bool IGES_ENTITY_142::unlink(IGES_ENTITY *aChild)
 }
 
 
+bool IGES_ENTITY_142::hasParametric( IGES_ENTITY* aCurve )
+{
+    return aCurve == BPTR;
+}
+
+
 bool IGES_ENTITY_142::isOrphaned( void )
 {
     if( (refs.empty() && depends != STAT_INDEPENDENT)
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index c2a6d9b..38a4033 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -378,6 +378,31 @@ bool IGES_ENTITY_508::unlink(IGES_ENTITY *aChildEntity)
 }
 
 
+bool IGES_ENTITY_508::hasParametric( IGES_ENTITY* aCurve )
+{
+    vector< LOOP_DATA* >::iterator sF = edges.begin();
+    vector< LOOP_DATA* >::iterator eF = edges.end();
+
+    while( sF != eF )
+    {
+        vector< LOOP_PAIR* >::iterator sP = (*sF)->pcurves.begin();
+        vector< LOOP_PAIR* >::iterator eP = (*sF)->pcurves.end();
+
+        while( sP != eP )
+        {
+            if( aCurve == (*sP)->curve )
+                return true;
+
+            ++sP;
+        }
+
+        ++sF;
+    }
+
+    return false;
+}
+
+
 bool IGES_ENTITY_508::isOrphaned( void )
 {
     if( refs.empty() || edges.empty() )
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 864e145..76bb9cb 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -26,6 +26,7 @@
 
 // Note: This base class must never be instantiated.
 
+#include <algorithm>
 #include <iomanip>
 #include <sstream>
 #include <error_macros.h>
@@ -3119,10 +3120,35 @@ bool IGES_ENTITY::SetHierarchy( IGES_STAT_HIER aHierarchy )
 }
 
 
-IGES_ENTITY* IGES_ENTITY::getFirstParentRef( void )
+bool IGES_ENTITY::isParametric( void )
 {
-    if( refs.empty() )
-        return NULL;
+    // composite curves may only be visited once since
+    // a defective file can contain circular references
+    vector<IGES_ENTITY*> curves( 1, this );
+
+    for( size_t i = 0; i < curves.size(); ++i )
+    {
+        list<IGES_ENTITY*>::iterator sR = curves[i]->refs.begin();
+        list<IGES_ENTITY*>::iterator eR = curves[i]->refs.end();
+
+        while( sR != eR )
+        {
+            if( (*sR)->hasParametric( curves[i] ) )
+                return true;
+
+            if( (*sR)->GetEntityType() == ENT_COMPOSITE_CURVE
+                && find( curves.begin(), curves.end(), *sR ) == curves.end() )
+                curves.push_back( *sR );
+
+            ++sR;
+        }
+    }
+
+    return false;
+}
+
 
-    return refs.front();
+bool IGES_ENTITY::hasParametric( IGES_ENTITY* aCurve )
+{
+    return false;
 }
diff --git a/src/include/core/entity142.h b/src/include/core/entity142.h
index b3717b8..b71a9d2 100644
--- a/src/include/core/entity142.h
+++ b/src/include/core/entity142.h
@@ -78,6 +78,7 @@ public:
     // public functions for libIGES only
     virtual bool associate(std::vector<IGES_ENTITY *> *entities);
     virtual bool unlink(IGES_ENTITY *aChild);
+    virtual bool hasParametric( IGES_ENTITY* aCurve );
     virtual bool isOrphaned( void );
     virtual bool addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate);
     virtual bool delReference(IGES_ENTITY *aParentEntity);
diff --git a/src/include/core/entity508.h b/src/include/core/entity508.h
index f530f02..2f6d8ba 100644
--- a/src/include/core/entity508.h
+++ b/src/include/core/entity508.h
@@ -140,6 +140,7 @@ public:
     // public functions for libIGES only
     virtual bool associate(std::vector<IGES_ENTITY *> *entities);
     virtual bool unlink(IGES_ENTITY *aChild);
+    virtual bool hasParametric( IGES_ENTITY* aCurve );
     virtual bool isOrphaned( void );
     virtual bool addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate);
     virtual bool delReference(IGES_ENTITY *aParentEntity);
diff --git a/src/include/core/iges_entity.h b/src/include/core/iges_entity.h
index 4c3c60b..4bb16a0 100644
--- a/src/include/core/iges_entity.h
+++ b/src/include/core/iges_entity.h
@@ -181,14 +181,21 @@ public:
 
 
     /**
-     * Function getFirstParentRef
-     * returns a pointer to the first parent entity in this
-     * entity's Reference List. If the entity has no parents
-     * then NULL is returned.  This function is used internally
-     * to decide how the parameters of a NURBS curve should be
-     * scaled.
-     */
-    IGES_ENTITY* getFirstParentRef( void );
+     * Function isParametric
+     * returns true if this entity, or a composite curve which
+     * this entity is a part of, is used as a curve in the
+     * parameter space of a surface. This function is used
+     * internally to decide whether a curve should be scaled.
+     */
+    bool isParametric( void );
+
+
+    /**
+     * Function hasParametric
+     * returns true if this entity uses the given entity as a
+     * curve in the parameter space of a surface.
+     */
+    virtual bool hasParametric( IGES_ENTITY* aCurve );
 
 
     /**
-- 
2.43.0


From f4dfed051f55a7bd1a56c54897ca9a51d845cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 070/143] fix: a Transform forgets its optional entities when
 they are destroyed

---
 src/entities/entity124.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6a75fba..0d39d0c 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -234,13 +234,6 @@ bool IGES_ENTITY_124::unlink(IGES_ENTITY *aChildEntity)
         return false;
     }
 
-    if( aChildEntity->GetEntityType() != ENT_TRANSFORMATION_MATRIX )
-    {
-        ERRMSG << "\n + [BUG] invalid entity type on entity to unlink (";
-        cerr << aChildEntity->GetEntityType() << ")\n";
-        return false;
-    }
-
     if( aChildEntity == pTransform )
     {
         pTransform = NULL;
@@ -248,7 +241,8 @@ bool IGES_ENTITY_124::unlink(IGES_ENTITY *aChildEntity)
         return true;
     }
 
-    return false;
+    // check if there are any extra entities to unlink
+    return IGES_ENTITY::unlink(aChildEntity);
 }
 
 
-- 
2.43.0


From 63c5016a16e73f1eb98bb6f3fd2757d67b1d7b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 071/143] fix: writing keeps a small resolution, which large
 units imply, rather than coarsening it to 0.001

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index cb5b3a0..c023de2 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2027,7 +2027,7 @@ bool IGES::writeGlobals( std::ofstream& file )
     char pd = globalData.pdelim;
     char rd = globalData.rdelim;
 
-    if( globalData.minResolution < 1e-12 )
+    if( !( globalData.minResolution > 0.0 ) )
         globalData.minResolution = 0.001;
 
     // Item 1: (HStr) Parameter Delimeter
-- 
2.43.0


From 1babd66ca5b5d1ad1082290954fee05df18bc4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 072/143] fix: ConvertUnits refuses values which are not units

---
 src/iges/iges.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index c023de2..7e9b1a0 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1803,6 +1803,12 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
     if( globalData.unitsFlag == newUnit )
         return true;
 
+    if( newUnit < UNIT_INCH || newUnit > UNIT_MICROINCH )
+    {
+        ERRMSG << "\n + [BUG] invalid unit (" << newUnit << ")\n";
+        return false;
+    }
+
     if( globalData.unitsFlag == UNIT_EXTERN )
     {
         ERRMSG << "\n + [INFO] cannot convert units; internal units is UNIT_EXTERN\n";
-- 
2.43.0


From dfb1f372a4f78c09beb0bd6ec618e6feea4f3437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 073/143] fix: conics and NURBS are written with the digits
 which the model's resolution requires

---
 src/entities/entity104.cpp | 11 +++++++++--
 src/entities/entity126.cpp |  3 +++
 src/entities/entity128.cpp |  3 +++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index fc6075e..48e1f4b 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -172,12 +172,19 @@ bool IGES_ENTITY_104::format( int &index )
 
     double* dp[11] = { &A, &B, &C, &D, &E, &F, &ZT, &X1, &Y1, &X2, &Y2 };
 
+    // resolution of the depth and the points; the coefficients, which may
+    // scale with the square of the length unit, are not subject to it
+    double uir = 1e-10;
+
+    if( parent->globalData.minResolution < uir )
+        uir = parent->globalData.minResolution;
+
     for( int i = 0; i < 10; ++i )
     {
         // note: we require a lot of digits since the points
         // of a conic are extremely sensitive to the general
         // coefficients
-        if( !FormatPDREal( tStr, *dp[i], pd, 1e-10 ) )
+        if( !FormatPDREal( tStr, *dp[i], pd, i < 6 ? 1e-30 : uir ) )
         {
             ERRMSG << "\n + [INFO] could not format datum " << i << "\n";
             return false;
@@ -197,7 +204,7 @@ bool IGES_ENTITY_104::format( int &index )
     else
         idelim = pd;
 
-    if( !FormatPDREal( tStr, *dp[10], idelim, 1e-10 ) )
+    if( !FormatPDREal( tStr, *dp[10], idelim, uir ) )
     {
         ERRMSG << "\n + [INFO] could not format datum 10\n";
         pdout.clear();
diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 3f3d565..9d47cca 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -119,6 +119,9 @@ bool IGES_ENTITY_126::format( int &index )
     // any REAL parameters are NURBS data, possibly (U,V) curve on surface; maintain high precision
     double uir = 1e-15;
 
+    if( parent->globalData.minResolution < uir )
+        uir = parent->globalData.minResolution;
+
     if( K < 1 )
     {
         ERRMSG << "\n + [INFO] invalid value for K\n";
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index e3e505b..f15a75a 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -119,6 +119,9 @@ bool IGES_ENTITY_128::format( int &index )
     char rd = parent->globalData.rdelim;
     double uir = 1e-8;  // any REAL parameters are NURBS data, maintain high precision
 
+    if( parent->globalData.minResolution < uir )
+        uir = parent->globalData.minResolution;
+
     if( K1 < 1 )
     {
         ERRMSG << "\n + [INFO] invalid value for K1\n";
-- 
2.43.0


From b597d0c2a35a00bd7f756142ea06078d6a391419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 074/143] fix: status setters refuse values which are out of
 range

---
 src/entities/entity102.cpp   |  6 ++++++
 src/entities/entity308.cpp   |  6 ++++++
 src/entities/entity408.cpp   |  6 ++++++
 src/entities/entity508.cpp   |  6 ++++++
 src/entities/iges_entity.cpp | 21 +++++++++++++++++++++
 5 files changed, 45 insertions(+)

diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index 4114bad..9f6e75c 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -606,6 +606,12 @@ bool IGES_ENTITY_102::SetEntityForm( int aForm )
 
 bool IGES_ENTITY_102::SetHierarchy( IGES_STAT_HIER aHierarchy )
 {
+    if( aHierarchy < STAT_HIER_ALL_SUB || aHierarchy >= STAT_HIER_END )
+    {
+        ERRMSG << "\n + [BUG] invalid hierarchy (" << aHierarchy << ")\n";
+        return false;
+    }
+
     hierarchy = aHierarchy;
     return true;
 }
diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index 6ba4e22..d158e42 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -475,6 +475,12 @@ bool IGES_ENTITY_308::SetEntityUse( IGES_STAT_USE aUseCase )
 
 bool IGES_ENTITY_308::SetHierarchy( IGES_STAT_HIER aHierarchy )
 {
+    if( aHierarchy < STAT_HIER_ALL_SUB || aHierarchy >= STAT_HIER_END )
+    {
+        ERRMSG << "\n + [BUG] invalid hierarchy (" << aHierarchy << ")\n";
+        return false;
+    }
+
     hierarchy = aHierarchy;
     return true;
 }
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 59dd613..27195e2 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -401,6 +401,12 @@ bool IGES_ENTITY_408::SetEntityForm( int aForm )
 
 bool IGES_ENTITY_408::SetHierarchy( IGES_STAT_HIER aHierarchy )
 {
+    if( aHierarchy < STAT_HIER_ALL_SUB || aHierarchy >= STAT_HIER_END )
+    {
+        ERRMSG << "\n + [BUG] invalid hierarchy (" << aHierarchy << ")\n";
+        return false;
+    }
+
     hierarchy = aHierarchy;
     return true;
 }
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 38a4033..a134405 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -714,6 +714,12 @@ bool IGES_ENTITY_508::SetDependency( IGES_STAT_DEPENDS aDependency )
 
 bool IGES_ENTITY_508::SetHierarchy( IGES_STAT_HIER aHierarchy )
 {
+    if( aHierarchy < STAT_HIER_ALL_SUB || aHierarchy >= STAT_HIER_END )
+    {
+        ERRMSG << "\n + [BUG] invalid hierarchy (" << aHierarchy << ")\n";
+        return false;
+    }
+
     hierarchy = aHierarchy;
     return true;
 }
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 76bb9cb..6564217 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -3095,6 +3095,13 @@ bool IGES_ENTITY::ClearComments( void )
 
 bool IGES_ENTITY::SetDependency( IGES_STAT_DEPENDS aDependency )
 {
+    if( aDependency < STAT_INDEPENDENT || aDependency >= STAT_DEP_END )
+    {
+        ERRMSG << "\n + [BUG] invalid dependency (" << aDependency << ") in entity type #";
+        cerr << entityType << "\n";
+        return false;
+    }
+
     depends = aDependency;
     return true;
 }
@@ -3102,6 +3109,13 @@ bool IGES_ENTITY::SetDependency( IGES_STAT_DEPENDS aDependency )
 
 bool IGES_ENTITY::SetEntityUse( IGES_STAT_USE aUseCase )
 {
+    if( aUseCase < STAT_USE_GEOMETRY || aUseCase >= STAT_USE_END )
+    {
+        ERRMSG << "\n + [BUG] invalid entity use (" << aUseCase << ") in entity type #";
+        cerr << entityType << "\n";
+        return false;
+    }
+
     use = aUseCase;
     return true;
 }
@@ -3109,6 +3123,13 @@ bool IGES_ENTITY::SetEntityUse( IGES_STAT_USE aUseCase )
 
 bool IGES_ENTITY::SetHierarchy( IGES_STAT_HIER aHierarchy )
 {
+    if( aHierarchy < STAT_HIER_ALL_SUB || aHierarchy >= STAT_HIER_END )
+    {
+        ERRMSG << "\n + [BUG] invalid hierarchy (" << aHierarchy << ") in entity type #";
+        cerr << entityType << "\n";
+        return false;
+    }
+
     if( aHierarchy == STAT_HIER_USE_PROP
         || hierarchy == STAT_HIER_USE_PROP )
     {
-- 
2.43.0


From 97d4726a2c0823e052230429b225320d644ff890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 075/143] fix: a Transform refuses forms which do not exist

---
 src/entities/entity124.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 0d39d0c..14766e3 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -365,7 +365,7 @@ bool IGES_ENTITY_124::readPD(std::ifstream &aFile, int &aSequenceVar)
 
 bool IGES_ENTITY_124::SetEntityForm( int aForm )
 {
-    if( aForm != 0 && aForm != 1 && aForm < 10 && aForm > 12 )
+    if( aForm != 0 && aForm != 1 && ( aForm < 10 || aForm > 12 ) )
     {
         ERRMSG << "\n + [BUG] invalid Form Number (" << aForm << ") specified\n";
         return false;
-- 
2.43.0


From 3ee1b59cc6c2f04d4aaa930977220c1cf7771e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 076/143] fix: a refused assignment of a child entity leaves
 the existing child in place

---
 src/entities/entity120.cpp |  20 +++----
 src/entities/entity122.cpp |  12 +++--
 src/entities/entity142.cpp | 108 ++++++++++++++++++++-----------------
 src/entities/entity144.cpp |  77 +++++++++++++-------------
 src/entities/entity164.cpp |  17 +++---
 5 files changed, 127 insertions(+), 107 deletions(-)

diff --git a/src/entities/entity120.cpp b/src/entities/entity120.cpp
index 8e93a48..b70193d 100644
--- a/src/entities/entity120.cpp
+++ b/src/entities/entity120.cpp
@@ -449,11 +449,8 @@ bool IGES_ENTITY_120::SetL( IGES_CURVE* aCurve )
         return false;
     }
 
-    if( L )
-    {
-        L->delReference(this);
-        L = NULL;
-    }
+    if( aCurve == L )
+        return true;
 
     bool dup = false;
 
@@ -466,6 +463,9 @@ bool IGES_ENTITY_120::SetL( IGES_CURVE* aCurve )
         return false;
     }
 
+    if( L )
+        L->delReference(this);
+
     L = aCurve;
     L->SetDependency( STAT_DEP_PHY );
 
@@ -508,11 +508,8 @@ bool IGES_ENTITY_120::SetC( IGES_CURVE* aCurve )
         return false;
     }
 
-    if( C )
-    {
-        C->delReference(this);
-        C = NULL;
-    }
+    if( aCurve == C )
+        return true;
 
     bool dup = false;
 
@@ -525,6 +522,9 @@ bool IGES_ENTITY_120::SetC( IGES_CURVE* aCurve )
         return false;
     }
 
+    if( C )
+        C->delReference(this);
+
     C = aCurve;
     C->SetDependency( STAT_DEP_PHY );
 
diff --git a/src/entities/entity122.cpp b/src/entities/entity122.cpp
index 1a09e04..ecd7b06 100644
--- a/src/entities/entity122.cpp
+++ b/src/entities/entity122.cpp
@@ -397,12 +397,15 @@ bool IGES_ENTITY_122::GetDE( IGES_CURVE*& aPtr )
 
 bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
 {
-    if( DE )
+    if( NULL == aPtr )
     {
-        DE->delReference(this);
-        DE = NULL;
+        ERRMSG << "\n + [ERROR] NULL pointer passed for directrix\n";
+        return false;
     }
 
+    if( aPtr == DE )
+        return true;
+
     bool dup = false;
 
     if( !aPtr->addReference(this, dup) )
@@ -414,6 +417,9 @@ bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
         return false;
     }
 
+    if( DE )
+        DE->delReference(this);
+
     DE = aPtr;
     DE->SetDependency( STAT_DEP_PHY );
 
diff --git a/src/entities/entity142.cpp b/src/entities/entity142.cpp
index b31c230..90a2a66 100644
--- a/src/entities/entity142.cpp
+++ b/src/entities/entity142.cpp
@@ -564,6 +564,26 @@ bool IGES_ENTITY_142::GetSPTR( IGES_ENTITY** aPtr )
 
 bool IGES_ENTITY_142::SetSPTR( IGES_ENTITY* aPtr )
 {
+    if( aPtr == SPTR )
+        return true;
+
+    if( NULL != aPtr )
+    {
+        bool dup = false;
+
+        if( !aPtr->addReference(this, dup) )
+        {
+            ERRMSG << "\n + [INFO] could not add reference to child entity\n";
+            return false;
+        }
+
+        if( dup )
+        {
+            ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+            return false;
+        }
+    }
+
     if( NULL != SPTR )
         SPTR->delReference(this);
 
@@ -572,22 +592,6 @@ bool IGES_ENTITY_142::SetSPTR( IGES_ENTITY* aPtr )
     if( NULL == SPTR )
         return true;
 
-    bool dup;
-
-    if( !SPTR->addReference(this, dup) )
-    {
-        SPTR = NULL;
-        ERRMSG << "\n + [INFO] could not add reference to child entity\n";
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        SPTR = NULL;
-        return false;
-    }
-
     SPTR->SetDependency( STAT_DEP_PHY );
 
     if( NULL != parent && parent != SPTR->GetParentIGES() )
@@ -610,6 +614,26 @@ bool IGES_ENTITY_142::GetBPTR( IGES_ENTITY** aPtr )
 
 bool IGES_ENTITY_142::SetBPTR( IGES_ENTITY* aPtr )
 {
+    if( aPtr == BPTR )
+        return true;
+
+    if( NULL != aPtr )
+    {
+        bool dup = false;
+
+        if( !aPtr->addReference(this, dup) )
+        {
+            ERRMSG << "\n + [INFO] could not add reference to child entity\n";
+            return false;
+        }
+
+        if( dup )
+        {
+            ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+            return false;
+        }
+    }
+
     if( NULL != BPTR )
         BPTR->delReference(this);
 
@@ -618,22 +642,6 @@ bool IGES_ENTITY_142::SetBPTR( IGES_ENTITY* aPtr )
     if( NULL == BPTR )
         return true;
 
-    bool dup = false;
-
-    if( !BPTR->addReference(this, dup) )
-    {
-        BPTR = NULL;
-        ERRMSG << "\n + [INFO] could not add reference to child entity\n";
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        BPTR = NULL;
-        return false;
-    }
-
     BPTR->SetDependency( STAT_DEP_PHY );
 
     if( NULL != parent && parent != BPTR->GetParentIGES() )
@@ -656,6 +664,26 @@ bool IGES_ENTITY_142::GetCPTR( IGES_ENTITY** aPtr )
 
 bool IGES_ENTITY_142::SetCPTR( IGES_ENTITY* aPtr )
 {
+    if( aPtr == CPTR )
+        return true;
+
+    if( NULL != aPtr )
+    {
+        bool dup = false;
+
+        if( !aPtr->addReference(this, dup) )
+        {
+            ERRMSG << "\n + [INFO] could not add reference to child entity\n";
+            return false;
+        }
+
+        if( dup )
+        {
+            ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+            return false;
+        }
+    }
+
     if( NULL != CPTR )
         CPTR->delReference(this);
 
@@ -664,22 +692,6 @@ bool IGES_ENTITY_142::SetCPTR( IGES_ENTITY* aPtr )
     if( NULL == CPTR )
         return true;
 
-    bool dup = false;
-
-    if( !CPTR->addReference(this, dup) )
-    {
-        CPTR = NULL;
-        ERRMSG << "\n + [INFO] could not add reference to child entity\n";
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        CPTR = NULL;
-        return false;
-    }
-
     CPTR->SetDependency( STAT_DEP_PHY );
 
     if( NULL != parent && parent != CPTR->GetParentIGES() )
diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index c81e082..3f013a5 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -672,36 +672,37 @@ bool IGES_ENTITY_144::GetPTS( IGES_ENTITY*& aPtr )
 
 bool IGES_ENTITY_144::SetPTS( IGES_ENTITY* aPtr )
 {
-    if( PTS )
-        PTS->delReference(this);
-
-    PTS = aPtr;
-
-    if( NULL == aPtr )
+    if( aPtr == PTS )
         return true;
 
-    if( !checkInclusion144( aPtr->GetEntityType()) )
+    if( NULL != aPtr )
     {
-        ERRMSG << "\n + [INFO] invalid entity type (" << PTS->GetEntityType() << ") for PTS\n";
-        PTS = NULL;
-        return false;
-    }
+        if( !checkInclusion144( aPtr->GetEntityType()) )
+        {
+            ERRMSG << "\n + [INFO] invalid entity type (" << aPtr->GetEntityType() << ") for PTS\n";
+            return false;
+        }
 
-    bool dup = false;
+        bool dup = false;
 
-    if( !PTS->addReference(this, dup) )
-    {
-        PTS = NULL;
-        return false;
-    }
+        if( !aPtr->addReference(this, dup) )
+            return false;
 
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        PTS = NULL;
-        return false;
+        if( dup )
+        {
+            ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+            return false;
+        }
     }
 
+    if( PTS )
+        PTS->delReference(this);
+
+    PTS = aPtr;
+
+    if( NULL == aPtr )
+        return true;
+
     PTS->SetDependency( STAT_DEP_PHY );
 
     if( NULL == PTO )
@@ -729,6 +730,23 @@ bool IGES_ENTITY_144::GetPTO( IGES_ENTITY_142*& aPtr )
 
 bool IGES_ENTITY_144::SetPTO( IGES_ENTITY_142* aPtr )
 {
+    if( aPtr == PTO )
+        return true;
+
+    if( NULL != aPtr )
+    {
+        bool dup = false;
+
+        if( !aPtr->addReference(this, dup) )
+            return false;
+
+        if( dup )
+        {
+            ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+            return false;
+        }
+    }
+
     if( PTO )
         PTO->delReference(this);
 
@@ -738,21 +756,6 @@ bool IGES_ENTITY_144::SetPTO( IGES_ENTITY_142* aPtr )
     if( NULL == aPtr )
         return true;
 
-    bool dup = false;
-
-    if( !PTO->addReference(this, dup) )
-    {
-        PTO = NULL;
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        PTO = NULL;
-        return false;
-    }
-
     PTO->SetDependency( STAT_DEP_PHY );
     N1 = 1;
 
diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index 95370c2..e0a153d 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -476,29 +476,28 @@ bool IGES_ENTITY_164::SetClosedCurve( IGES_CURVE* aCurve )
         return false;
     }
 
-    if( PTR )
-    {
-        PTR->delReference(this);
-    }
-
-    PTR = aCurve;
+    if( aCurve == PTR )
+        return true;
 
     bool dup = false;
 
-    if( !PTR->addReference(this, dup) )
+    if( !aCurve->addReference(this, dup) )
     {
         ERRMSG << "\n + [ERROR] could not register association with closed curve\n";
-        PTR = NULL; // necessary to prevent segfaults
         return false;
     }
 
     if( dup )
     {
         ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        PTR = NULL;
         return false;
     }
 
+    if( PTR )
+        PTR->delReference(this);
+
+    PTR = aCurve;
+
     PTR->SetDependency( STAT_DEP_PHY );
 
     if( NULL != parent && parent != PTR->GetParentIGES() )
-- 
2.43.0


From cb048f50c0d63ac7a0ddfcb6b97cb75db5399293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 077/143] fix: a Trimmed Surface drops the reference to an
 inner boundary which is removed

---
 src/entities/entity144.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 3f013a5..3b27e30 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -421,6 +421,7 @@ bool IGES_ENTITY_144::unlink(IGES_ENTITY *aChild)
             {
                 PTI.erase( sPTI );
                 N2 = (int)PTI.size();
+                vPTI.clear();
                 return true;
             }
 
@@ -877,8 +878,10 @@ bool IGES_ENTITY_144::DelPTI( IGES_ENTITY_142* aPtr )
     {
         if( aPtr == *bref )
         {
+            aPtr->delReference(this);
             PTI.erase( bref );
             N2 = (int)PTI.size();
+            vPTI.clear();
             return true;
         }
 
-- 
2.43.0


From 6bb99824667983ae748662cd175f85f1e35cd400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 078/143] fix: a Face holds references to its surface and its
 loops

---
 src/entities/entity510.cpp | 51 +++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 8d293c9..e1db4a2 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -145,6 +145,13 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] duplicate loop\n";
+            iloops.clear();
+            return false;
+        }
+
         mloops.push_back( (IGES_ENTITY_508*)((*entities)[iEnt]) );
         ++sL;
     }
@@ -546,10 +553,20 @@ bool IGES_ENTITY_510::AddBound( IGES_ENTITY_508* aLoop )
     if( NULL == aLoop )
         return false;
 
-    // XXX - TO BE IMPLEMENTED:
-    // we may require refcounts for the bound though in principle
-    // it should not be necessary to use a boundary more than
-    // once
+    bool dup = false;
+
+    if( !aLoop->addReference(this, dup) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to loop\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+        return false;
+    }
+
     mloops.push_back( aLoop );
 
     if( NULL != parent && parent != aLoop->GetParentIGES() )
@@ -564,6 +581,32 @@ bool IGES_ENTITY_510::SetSurface( IGES_ENTITY* aSurface )
     if( NULL == aSurface )
         return false;
 
+    if( aSurface == msurface )
+        return true;
+
+    if( !checkSurfType( aSurface ) )
+    {
+        ERRMSG << "\n + [INFO] invalid surface entity\n";
+        return false;
+    }
+
+    bool dup = false;
+
+    if( !aSurface->addReference(this, dup) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to surface entity\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+        return false;
+    }
+
+    if( msurface )
+        msurface->delReference(this);
+
     msurface = aSurface;
 
     if( NULL != parent && parent != aSurface->GetParentIGES() )
-- 
2.43.0


From 9789ef50dc6b7eff62a30c3c988ee9b628d3734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 079/143] fix: a Boolean Tree refuses a NULL operand

---
 src/entities/entity180.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index fda8fae..0273035 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -582,6 +582,12 @@ bool IGES_ENTITY_180::AddOp( BTREE_OPERATOR op )
 
 bool IGES_ENTITY_180::AddArg( IGES_ENTITY* aOperand )
 {
+    if( NULL == aOperand )
+    {
+        ERRMSG << "\n + [BUG] NULL pointer passed for operand\n";
+        return false;
+    }
+
     int iEnt = aOperand->GetEntityType();
 
     if( !typeOK( iEnt ) )
-- 
2.43.0


From a04afbf8b802905a9acf00202a79f02e1cc87f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 080/143] fix: Cull repeats until no orphan is left

---
 src/iges/iges.cpp | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 7e9b1a0..948722e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1762,37 +1762,43 @@ bool IGES::readTS( IGES_RECORD& rec, std::ifstream& file )
 // cull unsupported and orphaned entities
 void IGES::Cull( bool vicious )
 {
-    size_t nEnt = entities.size();
     size_t iEnt;
-    int nCulled = 0;
-    std::vector<IGES_ENTITY*> tmpEnts;
+    int nCulled;
 
-    for( iEnt = 0; iEnt < nEnt; ++iEnt )
+    // note: the deletion of an entity may leave other entities without a
+    // parent or without data so we repeat this until nothing is left to cull
+    do
     {
-        if( entities[iEnt]->isOrphaned() ||
-            ( vicious && entities[iEnt]->getNRefs() == 0
-            && entities[iEnt]->GetEntityType() != ENT_SINGULAR_SUBFIGURE_INSTANCE ) )
+        size_t nEnt = entities.size();
+        std::vector<IGES_ENTITY*> tmpEnts;
+        nCulled = 0;
+
+        for( iEnt = 0; iEnt < nEnt; ++iEnt )
         {
+            if( entities[iEnt]->isOrphaned() ||
+                ( vicious && entities[iEnt]->getNRefs() == 0
+                && entities[iEnt]->GetEntityType() != ENT_SINGULAR_SUBFIGURE_INSTANCE ) )
+            {
 #ifdef DEBUG
-            cerr << " + [INFO] deleting Entity " << entities[iEnt]->GetEntityType() << "\n";
+                cerr << " + [INFO] deleting Entity " << entities[iEnt]->GetEntityType() << "\n";
 #endif
 
-            ++nCulled;
-            delete entities[iEnt];
-        }
-        else
-        {
-            tmpEnts.push_back( entities[iEnt] );
+                ++nCulled;
+                delete entities[iEnt];
+            }
+            else
+            {
+                tmpEnts.push_back( entities[iEnt] );
+            }
         }
-    }
 
-    entities.clear();
-    entities = tmpEnts;
+        entities.swap( tmpEnts );
 
 #ifdef DEBUG
-    cerr << " + [INFO] Entities culled: " << nCulled << "\n";
-    cerr << " + [INFO] Entities remaining: " << entities.size() << "\n";
+        cerr << " + [INFO] Entities culled: " << nCulled << "\n";
+        cerr << " + [INFO] Entities remaining: " << entities.size() << "\n";
 #endif
+    } while( nCulled > 0 );
 
     return;
 }
-- 
2.43.0


From acf6a0d42939af770d4962b9b572b876daef667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 081/143] fix: an Edge List reports its edges

---
 src/entities/entity504.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index d640564..62d7f2f 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -596,9 +596,9 @@ IGES_ENTITY_504::GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList )
         }
     }
 
-    aListSize = 0;
+    aListSize = vedges.size();
     aEdgeList = &vedges[0];
-    return false;
+    return true;
 }
 
 
-- 
2.43.0


From 77e1ce22b4c01dddd71732233a424c0c7e263883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 082/143] fix: a Face without loops has no list of them

---
 src/entities/entity510.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index e1db4a2..edeffd8 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -540,6 +540,7 @@ bool IGES_ENTITY_510::GetBounds( size_t& aListSize, IGES_ENTITY_508**& aBoundsLi
     {
         aListSize = 0;
         aBoundsList = NULL;
+        return false;
     }
 
     aListSize = mloops.size();
-- 
2.43.0


From d27a2cfe81c86b349d1ab9f1ccee8dbfd60c0cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 083/143] fix: a Trimmed Surface whose outer boundary is
 destroyed has none

---
 src/entities/entity144.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 3b27e30..1f7fea1 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -407,6 +407,7 @@ bool IGES_ENTITY_144::unlink(IGES_ENTITY *aChild)
     if( aChild == PTO )
     {
         PTO = NULL;
+        N1 = 0;
         return true;
     }
 
-- 
2.43.0


From caef3723cd02350002377d83a3d7a54a6a4e54d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 084/143] fix: a Loop refuses a NULL edge or curve

---
 src/entities/entity508.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index a134405..b0cdbda 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -830,6 +830,12 @@ bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnli
 // add a parent reference to a parameter space curve and ensure no duplicates
 bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
 {
+    if( NULL == aCurve )
+    {
+        ERRMSG << "\n + [BUG]: NULL pointer passed for PS curve\n";
+        return false;
+    }
+
     vector< LOOP_DATA* >::iterator sF = edges.begin();
     vector< LOOP_DATA* >::iterator eF = edges.end();
 
@@ -939,7 +945,7 @@ bool IGES_ENTITY_508::GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList )
 
 bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
 {
-    if( NULL == aEdge->data )
+    if( NULL == aEdge || NULL == aEdge->data )
     {
         ERRMSG << "\n +[BUG] NULL pointer passed for edge\n";
         return false;
-- 
2.43.0


From 167574caf44ebac9644282e868227544ad3ab861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 085/143] fix: a Boolean Tree refuses to be an operand of one
 of its own operands

---
 src/entities/entity180.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 0273035..544e89c 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -338,6 +338,21 @@ bool IGES_ENTITY_180::isOrphaned( void )
 
 bool IGES_ENTITY_180::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
 {
+    // check for circular refs
+    std::list<BTREE_NODE*>::iterator sN = nodes.begin();
+    std::list<BTREE_NODE*>::iterator eN = nodes.end();
+
+    while( sN != eN )
+    {
+        if( !(*sN)->op && (*sN)->pEnt == aParentEntity )
+        {
+            ERRMSG << "\n + [BUG] circular reference with parent\n";
+            return false;
+        }
+
+        ++sN;
+    }
+
     return IGES_ENTITY::addReference(aParentEntity, isDuplicate);
 }
 
-- 
2.43.0


From 5ccc4b57242ffaa9018fcef7e7902b0e57ce9e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:16 +0000
Subject: [PATCH 086/143] fix: a Trimmed Surface which is bounded by its
 surface alone is read back

---
 src/entities/entity144.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 1f7fea1..d932ac2 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -217,7 +217,7 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         }
 
     }
-    else
+    else if( N1 )
     {
         ERRMSG << "\n + [VIOLATION] unspecified boundary entity\n";
         iPTI.clear();
@@ -583,7 +583,8 @@ bool IGES_ENTITY_144::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( iPTO < 0 || (iPTO & 1) == 0 || iPTO > 9999997 )
+    // note: there is no outline entity if the outer boundary is that of the surface
+    if( iPTO < 0 || iPTO > 9999997 || ( (iPTO & 1) == 0 && ( iPTO != 0 || N1 != 0 ) ) )
     {
         ERRMSG << "\n + [INFO] invalid outline DE pointer (" << iPTO << ")\n";
         pdout.clear();
-- 
2.43.0


From 8404e6d2ec178401d8fa3b4b63464951235eb916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 087/143] fix: a dependent Solid which nothing refers to is an
 orphan

---
 src/entities/entity186.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index 89d21f1..dd935e7 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -325,7 +325,7 @@ bool IGES_ENTITY_186::unlink(IGES_ENTITY *aChildEntity)
 
 bool IGES_ENTITY_186::isOrphaned( void )
 {
-    if( NULL == mshell )
+    if( (refs.empty() && depends != STAT_INDEPENDENT) || NULL == mshell )
         return true;
 
     return false;
-- 
2.43.0


From 8f794f069853d915585a2701fe8d6a04c607208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 088/143] fix: reals which are not finite are refused when
 writing instead of giving an unreadable field

---
 src/iges/iges_io.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 5d577de..96bdefb 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -32,6 +32,7 @@
 #include <sstream>
 #include <string>
 #include <cmath>
+#include <cfloat>
 #include <climits>
 
 #include <error_macros.h>
@@ -510,11 +511,22 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
         return false;
     }
 
+    // note: the comparison is also false for NaN
+    if( !( fabs( var ) <= DBL_MAX ) || !( minRes <= DBL_MAX ) )
+    {
+        ERRMSG << "\n + [INFO] value cannot be represented in an IGES file\n";
+        return false;
+    }
+
     double vlim = var / minRes;
 
     if( vlim < 0.0 )
         vlim = -vlim;
 
+    // the ratio may exceed the range of a double
+    if( vlim > 1e20 )
+        vlim = 1e20;
+
     if( vlim < 10.0 )
         vlim = 10.0;
 
-- 
2.43.0


From de4a26c84763d3c0139d0c81cfc5a4c9c51f2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 089/143] fix: an entity added to another model is moved to it
 instead of belonging to both

---
 src/iges/iges.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 948722e..620dea0 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -980,6 +980,11 @@ bool IGES::AddEntity( IGES_ENTITY* aEntity )
         ++sEnt;
     }
 
+    // an entity which belongs to another IGES object is moved; if it were to
+    // remain in both lists then it would be destroyed twice
+    if( NULL != aEntity->parent && this != aEntity->parent )
+        aEntity->parent->UnlinkEntity( aEntity );
+
     entities.push_back( aEntity );
     aEntity->parent = this;
 
@@ -2613,9 +2618,13 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         }
     }
 
+    // note: entities are removed from the list as they are transferred
+    std::vector<IGES_ENTITY*> others( entities );
+    nEnt = others.size();
+
     for( size_t i = 0; i < nEnt; ++ i )
     {
-        if( !newParent->AddEntity( entities[i] ) )
+        if( !newParent->AddEntity( others[i] ) )
         {
             ERRMSG << "\n + [INFO] could not transfer entity to parent\n";
 
@@ -2623,10 +2632,7 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             newParent->UnlinkEntity( ep );
 
             for( size_t j = 0; j < i; ++j )
-            {
-                newParent->UnlinkEntity( entities[j] );
-                entities[j]->parent = this;
-            }
+                AddEntity( others[j] );
 
             delete ep;
             return false;
-- 
2.43.0


From ee8e3bad91e60b5658b258de0e06d57e98fa5e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 090/143] fix: an unlinked entity no longer refers to the model
 it was removed from

---
 src/iges/iges.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 620dea0..779eb05 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1037,6 +1037,7 @@ bool IGES::UnlinkEntity( IGES_ENTITY* aEntity )
         if( *sEnt == aEntity )
         {
             entities.erase( sEnt );
+            aEntity->parent = NULL;
             return true;
         }
 
-- 
2.43.0


From 10a0a4ed22b82f528a60b00cd74d8382e137f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 091/143] fix: an entity deleted via an API handle is removed
 from its model

---
 src/dllapi/dll_iges_entity.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 49973f4..c4ff5d7 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -167,7 +167,11 @@ void DLL_IGES_ENTITY::DelEntity( void )
     if( m_valid && NULL != m_entity )
     {
         m_entity->DetachValidFlag( &m_valid );
-        delete m_entity;
+        IGES* parent = m_entity->GetParentIGES();
+
+        // the entity must be removed from the list of the IGES object which manages it
+        if( NULL == parent || !parent->DelEntity( m_entity ) )
+            delete m_entity;
     }
 
     m_entity = NULL;
-- 
2.43.0


From bb0150594531190f03f2fac459259a887e81e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 092/143] fix: NewAPIEntity creates one entity rather than two,
 supports Properties and leaves nothing behind on failure

---
 src/dllapi/dll_iges.cpp | 56 ++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index f7fa2ec..3f1f67e 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -234,103 +234,107 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
     switch( aEntityType )
     {
     case ENT_CIRCULAR_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, false );
         break;
 
     case ENT_COMPOSITE_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, false );
         break;
 
     case ENT_CONIC_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, false );
         break;
 
     case ENT_LINE:
-        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, false );
         break;
 
     case ENT_SURFACE_OF_REVOLUTION:
-        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, false );
         break;
 
     case ENT_TABULATED_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, false );
         break;
 
     case ENT_TRANSFORMATION_MATRIX:
-        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, false );
         break;
 
     case ENT_NURBS_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, false );
         break;
 
     case ENT_NURBS_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, false );
         break;
 
     case ENT_CURVE_ON_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, false );
         break;
 
     case ENT_TRIMMED_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, false );
         break;
 
     /*
     case ENT_RIGHT_CIRCULAR_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, false );
         break;
 
     case ENT_SOLID_OF_LINEAR_EXTRUSION:
-        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, false );
         break;
 
     case ENT_BOOLEAN_TREE:
-        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, false );
         break;
 
     case ENT_MANIFOLD_SOLID_BREP:
-        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, false );
         break;
     */
 
     case ENT_SUBFIGURE_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, false );
         break;
 
     case ENT_COLOR_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, false );
+        break;
+
+    case ENT_PROPERTY:
+        aEntityPointer = new DLL_IGES_ENTITY_406( this->m_iges, false );
         break;
 
     case ENT_SINGULAR_SUBFIGURE_INSTANCE:
-        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, false );
         break;
 
     /*
     case ENT_VERTEX:
-        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, false );
         break;
 
     case ENT_EDGE:
-        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, false );
         break;
 
     case ENT_LOOP:
-        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, false );
         break;
 
     case ENT_FACE:
-        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, false );
         break;
 
     case ENT_SHELL:
-        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, false );
         break;
         */
 
     default:
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] entity unsupported in API, ID " << aEntityType << "\n";
         return false;
         break;
@@ -338,14 +342,14 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
 
     if( NULL == aEntityPointer )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] failed to instantiate DLL_IGES_ENTITY object\n";
         return false;
     }
 
     if( !aEntityPointer->Attach( ep ) )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         delete aEntityPointer;
         aEntityPointer = NULL;
         ERRMSG << "\n + [INFO] failed to attach object to DLL_IGES_ENTITY\n";
-- 
2.43.0


From 87d6ef97e4e2831f4001c08fa3635709789f43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 093/143] fix: NewIGESEntity stores the new entity instead of
 dereferencing a null pointer

---
 src/dllapi/dll_iges.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index 3f1f67e..3ffe769 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -368,7 +368,12 @@ bool DLL_IGES::NewIGESEntity( IGES_ENTITY_TYPE aEntityType, IGES_ENTITY** aEntit
         return false;
     }
 
-    aEntityPointer = NULL;
+    if( NULL == aEntityPointer )
+    {
+        ERRMSG << "\n + [BUG] invoked with NULL entity handle\n";
+        return false;
+    }
+
     return m_iges->NewEntity( aEntityType, aEntityPointer );
 }
 
-- 
2.43.0


From 70dffe1e416bc49c9540bb5ef7656b2d55e19a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 094/143] fix: the parent flag of an API handle is initialised

---
 src/dllapi/dll_iges_entity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index c4ff5d7..26c25c6 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -41,6 +41,7 @@
 
 DLL_IGES_ENTITY::DLL_IGES_ENTITY( IGES* aParent )
 {
+    m_hasParent = false;
     m_parent = aParent;
 
     if( NULL != aParent )
@@ -55,6 +56,7 @@ DLL_IGES_ENTITY::DLL_IGES_ENTITY( IGES* aParent )
 
 DLL_IGES_ENTITY::DLL_IGES_ENTITY( DLL_IGES& aParent )
 {
+    m_hasParent = false;
     m_parent = aParent.GetRawPtr();
 
     if( NULL != m_parent )
-- 
2.43.0


From 63ff9eb3255594188bfaba32463032ba1d192d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 095/143] fix: the API handle of a Subfigure Definition lists
 its members as the entity does, also when it is empty

---
 src/dllapi/dll_entity308.cpp | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/dllapi/dll_entity308.cpp b/src/dllapi/dll_entity308.cpp
index 5fabaa0..3fe6132 100644
--- a/src/dllapi/dll_entity308.cpp
+++ b/src/dllapi/dll_entity308.cpp
@@ -113,26 +113,7 @@ bool DLL_IGES_ENTITY_308::GetDEList( size_t& aDESize, IGES_ENTITY**& aDEList )
         return false;
     }
 
-    std::list< IGES_ENTITY* >* pDE = &((IGES_ENTITY_308*)m_entity)->DE;
-    std::vector< IGES_ENTITY* >* pvDE = &((IGES_ENTITY_308*)m_entity)->m_DE;
-
-    if( pDE->size() != pvDE->size() )
-    {
-        pvDE->clear();
-
-        std::list< IGES_ENTITY* >::iterator sDL = pDE->begin();
-        std::list< IGES_ENTITY* >::iterator eDL = pDE->end();
-
-        while( sDL != eDL )
-        {
-            pvDE->push_back( *sDL );
-            ++sDL;
-        }
-    }
-
-    aDESize = pvDE->size();
-    aDEList = &((*pvDE)[0]);
-    return true;
+    return ((IGES_ENTITY_308*)m_entity)->GetDEList( aDESize, aDEList );
 }
 
 
-- 
2.43.0


From b0ff785ff240866556c5d8780dc1b754872dfa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 096/143] fix: NewSegment and NewOutline detach from the
 previous object, as documented, instead of destroying it

---
 src/dllapi/dll_iges_geom_pcb.cpp | 7 ++-----
 src/dllapi/dll_mcad_outline.cpp  | 7 ++-----
 src/dllapi/dll_mcad_segment.cpp  | 7 ++-----
 3 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 3277f8e..edbab51 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -54,11 +54,8 @@ DLL_IGES_GEOM_PCB::~DLL_IGES_GEOM_PCB()
 
 bool DLL_IGES_GEOM_PCB::NewOutline( void )
 {
-    if( m_valid && m_outline )
-        delete m_outline;
-
-    m_outline = NULL;
-    m_valid = false;
+    // as documented, the user must invoke DelOutline() to destroy an outline
+    Detach();
 
     m_outline = new IGES_GEOM_PCB;
 
diff --git a/src/dllapi/dll_mcad_outline.cpp b/src/dllapi/dll_mcad_outline.cpp
index b8001af..468f4b0 100644
--- a/src/dllapi/dll_mcad_outline.cpp
+++ b/src/dllapi/dll_mcad_outline.cpp
@@ -68,11 +68,8 @@ bool DLL_MCAD_OUTLINE::IsValid( void )
 
 bool DLL_MCAD_OUTLINE::NewOutline( void )
 {
-    if( m_valid && m_outline )
-        delete m_outline;
-
-    m_outline = NULL;
-    m_valid = false;
+    // as documented, the user must invoke DelOutline() to destroy an outline
+    Detach();
 
     m_outline = new MCAD_OUTLINE;
 
diff --git a/src/dllapi/dll_mcad_segment.cpp b/src/dllapi/dll_mcad_segment.cpp
index 575d28e..b1c4df0 100644
--- a/src/dllapi/dll_mcad_segment.cpp
+++ b/src/dllapi/dll_mcad_segment.cpp
@@ -67,11 +67,8 @@ bool DLL_MCAD_SEGMENT::IsValid( void )
 
 bool DLL_MCAD_SEGMENT::NewSegment( void )
 {
-    if( m_valid && m_segment )
-        delete m_segment;
-
-    m_segment = NULL;
-    m_valid = false;
+    // as documented, the user must invoke DelSegment() to destroy a segment
+    Detach();
 
     m_segment = new MCAD_SEGMENT;
 
-- 
2.43.0


From d3660731cdc4bffd8e48ee2699ffcf657e963ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 097/143] fix: calls via a Property handle fail when it has no
 entity or the entity has no data

---
 src/dllapi/dll_entity406.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_entity406.cpp b/src/dllapi/dll_entity406.cpp
index 25951fa..70b8f61 100644
--- a/src/dllapi/dll_entity406.cpp
+++ b/src/dllapi/dll_entity406.cpp
@@ -96,12 +96,18 @@ bool DLL_IGES_ENTITY_406::NewEntity( void )
 const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 {
     const char *result = NULL;
+
+    if( !m_valid || NULL == m_entity )
+        return NULL;
+
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
     if( ep->GetEntityForm() == 15 )
     {
         std::string *sp = (std::string *)ep->GetData();
-        result = sp->c_str();
+
+        if( NULL != sp )
+            result = sp->c_str();
     }
 
     return result;
@@ -112,6 +118,9 @@ bool DLL_IGES_ENTITY_406::SetProperty_Name( const char * aName )
 {
     bool result = false;
 
+    if( !m_valid || NULL == m_entity )
+        return false;
+
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
     if( (ep->GetEntityForm() == 15) && (aName != NULL) )
-- 
2.43.0


From 1eb11ff5c5f20e99dc87cdff53e900f3be29c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 098/143] fix: a file name without extension no longer throws
 when a model is read or written

---
 src/iges/mcad_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 17aad6c..83be48b 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -307,7 +307,7 @@ const char* MCAD_FILEPATH::GetBaseName( void )
     {
         *m_basename = m_fullpath->substr( lastSep, lastDot - lastSep );
 
-        if( m_ext->empty() )
+        if( m_ext->empty() && lastDot < m_fullpath->size() )
             *m_ext = m_fullpath->substr( lastDot + 1 );
     }
     else
-- 
2.43.0


From c872b9dade27943875b9217945dbe3d3f85e8e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 099/143] fix: SetExtension replaces the extension also when
 the extension or base name were inspected before

---
 src/iges/mcad_utils.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 83be48b..362fb9b 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -358,10 +358,14 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
         return false;
     }
 
-    if( m_ext->empty() && NULL != GetExtension() )
+    if( NULL != anExt && '.' == anExt[0] && 0 == anExt[1] )
+        return false;
+
+    if( NULL != GetExtension() )
         m_fullpath->erase( m_fullpath->size() - m_ext->size() -1 );
 
     m_filename->clear();
+    m_basename->clear();
     m_ext->clear();
 
     if( NULL == anExt || 0 == anExt[0] )
@@ -370,17 +374,13 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
     if( '.' != anExt[0] )
     {
         m_fullpath->append( 1, '.' );
-        *m_ext = anExt;
+        m_fullpath->append( anExt );
     }
     else
     {
-        if( 0 == anExt[1] )
-            return false;
-
-        *m_ext = &anExt[1];
+        m_fullpath->append( anExt );
     }
 
-    m_fullpath->append( *m_ext );
     return true;
 }
 
-- 
2.43.0


From cfded0409b7d214848dc2dcbadd121d5cfb7f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 100/143] fix: MCAD_FILEPATH::Append reports success and adds a
 separator only after a path

---
 src/iges/mcad_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 362fb9b..5125bcb 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -403,11 +403,14 @@ bool MCAD_FILEPATH::Append( const char* aSubPath )
         if( subp.size() == 1 && subp[0] == pathsep )
             return true;
 
-        m_fullpath->append( 1, pathsep );
+        if( !m_fullpath->empty() )
+            m_fullpath->append( 1, pathsep );
+
         m_fullpath->append( subp );
         m_filename->clear();
         m_basename->clear();
         m_ext->clear();
+        return true;
     }
 
     return false;
-- 
2.43.0


From 1a601777cc7c24b0b8e520a9f83718e95152f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 101/143] fix: splitting a segment at a NULL point is refused

---
 src/dllapi/dll_mcad_segment.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dllapi/dll_mcad_segment.cpp b/src/dllapi/dll_mcad_segment.cpp
index b1c4df0..e8ea5de 100644
--- a/src/dllapi/dll_mcad_segment.cpp
+++ b/src/dllapi/dll_mcad_segment.cpp
@@ -399,7 +399,15 @@ bool DLL_MCAD_SEGMENT::Split( MCAD_POINT** aIntersectList, int aNumIntersects,
     std::list<MCAD_POINT> ilist;
 
     for( int i = 0; i < aNumIntersects; ++i )
+    {
+        if( NULL == aIntersectList[i] )
+        {
+            ERRMSG << "\n + [BUG] aIntersectList contains a NULL pointer\n";
+            return false;
+        }
+
         ilist.push_back( *aIntersectList[i] );
+    }
 
     std::list<MCAD_SEGMENT*> slist;
 
-- 
2.43.0


From 4b2697b7b8d3a8ced93a0cd83bd7df7fa013a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 102/143] fix: DLL_IGES_GEOM_PCB returns the curves it reports
 in its lists

---
 src/dllapi/dll_iges_geom_pcb.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index edbab51..5ca813b 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -225,7 +225,7 @@ bool DLL_IGES_GEOM_PCB::GetCurves( IGES* aModel, IGES_CURVE**& aCurveList, int&
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_CURVE* >::iterator sC = curves.begin();
-        std::list< IGES_CURVE* >::iterator eC = curves.begin();
+        std::list< IGES_CURVE* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
@@ -246,7 +246,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
     double aMinX, double aMaxX, double aMinY, double aMaxY,
     double zHeight, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline && !m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::list< IGES_ENTITY_126* > curves;
@@ -278,7 +278,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_ENTITY_126* >::iterator sC = curves.begin();
-        std::list< IGES_ENTITY_126* >::iterator eC = curves.begin();
+        std::list< IGES_ENTITY_126* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
-- 
2.43.0


From d3e2eb2d0fe3d02256727c3824a013a0a02b12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 103/143] fix: curves of a missing segment or on a plane
 without extent are refused

---
 src/geom/iges_geom_pcb.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index 3314411..4ab4a37 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -925,6 +925,12 @@ IGES_ENTITY_144* IGES_GEOM_PCB::getUntrimmedPlane( IGES* aModel, double aHeight,
 bool IGES_GEOM_PCB::GetCurves( IGES* aModel, std::list<IGES_CURVE*>& aCurves,
     double zHeight, MCAD_SEGMENT* aSegment )
 {
+    if( NULL == aModel || NULL == aSegment )
+    {
+        ERRMSG << "\n + [ERROR] null pointer passed for IGES model or segment\n";
+        return false;
+    }
+
     bool ok;
 
     switch( aSegment->GetSegType() )
@@ -959,6 +965,18 @@ bool IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel, std::list<IGES_ENTITY_126*>&
                                           double aMinX, double aMaxX, double aMinY, double aMaxY,
                                           double zHeight, MCAD_SEGMENT* aSegment, bool aReverse )
 {
+    if( NULL == aModel || NULL == aSegment )
+    {
+        ERRMSG << "\n + [ERROR] null pointer passed for IGES model or segment\n";
+        return false;
+    }
+
+    if( !( aMaxX > aMinX ) )
+    {
+        ERRMSG << "\n + [ERROR] invalid bounds for the plane\n";
+        return false;
+    }
+
     double scale = 1.0 / ( aMaxX - aMinX ); // scale factor (must be same for X and Y axes)
     bool ok;
 
@@ -1000,9 +1018,9 @@ bool IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel, std::list<IGES_ENTITY_126*>&
 bool IGES_GEOM_PCB::GetSegmentWall( IGES* aModel, std::vector<IGES_ENTITY_144*>& aSurface,
     double aTopZ, double aBotZ, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( !aModel )
+    if( !aModel || !aSegment )
     {
-        ERRMSG << "\n + [ERROR] null pointer passed for IGES model\n";
+        ERRMSG << "\n + [ERROR] null pointer passed for IGES model or segment\n";
         return false;
     }
 
-- 
2.43.0


From 97de00cf41341008237a8f863a93b1b4bf2d35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 104/143] fix: merging outlines with clockwise arcs joins them
 where the drawing of the arc ends

---
 src/geom/mcad_outline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b7c11d5..a180468 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1876,13 +1876,13 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
             else
                 --tmpT;
 
-            lastPt = (*tmpT)->GetEnd();
+            lastPt = (*tmpT)->mend;
 
         } while(0);
 
         // ensure that we start with the segment whose Start Point matches lastPt;
         // this maintains the correct segment order.
-        while( !PointMatches( (*eT)->GetStart(), lastPt, 1e-8 ) )
+        while( !PointMatches( (*eT)->mstart, lastPt, 1e-8 ) )
         {
             ++eT;
 
-- 
2.43.0


From 0c5560931854172ad2d495d8849f2018163deb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:00 +0000
Subject: [PATCH 105/143] fix: report all overlaps of collinear line segments

---
 src/geom/mcad_segment.cpp | 123 ++++++++------------------------------
 1 file changed, 25 insertions(+), 98 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index f6b0896..ce4adcd 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -1207,126 +1207,53 @@ bool MCAD_SEGMENT::checkLines( const MCAD_SEGMENT& aSegment,
 
     double t1;
     double t2;
+    double L1 = sqrt( XA1 * XA1 + YA1 * YA1 );
+    double L2 = sqrt( XA2 * XA2 + YA2 * YA2 );
 
-    if( abs( den ) < 1e-6 )
+    if( abs( den ) < 1e-8 * L1 * L2 )
     {
         // check if lines are parallel
-        if( abs( num ) > 1e-6 )
+        if( abs( num ) > 1e-8 * L1 )
             return false;
 
         // lines are colinear, but do they intersect (overlap along a segment)?
-        // if there is an overlap the points must be in order 0 <= t1 < t2 <= 1
-        // as parameterized on *this segment.
+        // t1, t2 are the positions of the end points of aSegment along *this;
+        // they are in the order of increasing distance from the start of *this
+        t1 = ( ( p0.x - XB1 ) * XA1 + ( p0.y - YB1 ) * YA1 ) / L1;
+        t2 = ( ( p1.x - XB1 ) * XA1 + ( p1.y - YB1 ) * YA1 ) / L1;
 
-        // cases:
-        // 1. (S0, E0) not in (S1, E1) *and* (S1, E1) not in (S0, E0): no overlap
-        // 2. [S0 and E0 in (S1, E1)] *or* [S1 and E1 in (S0, E0)]: one segment inside the other or equal
-        // 3. S0 or E0 in (S1, E1) *and* S1 or E1 in (S0, E1): partial overlap
-
-        bool s0i = false;
-        bool e0i = false;
-        bool s1i = false;
-        bool e1i = false;
-
-        if( abs( XA2 ) >= abs( YA2 ) )
-        {
-            t1 = ( mstart.x - XB2 ) / XA2;
-            t2 = ( mend.x - XB2 ) / XA2;
-        }
-        else
-        {
-            t1 = ( mstart.y - YB2 ) / YA2;
-            t2 = ( mend.y - YB2 ) / YA2;
-        }
-
-        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            s0i = true;
-
-        if( abs( t2 ) < 1e-8 || abs( t2 - 1.0 ) < 1e-8 )
-            e0i = true;
-
-        if( abs( XA1 ) >= abs( YA1 ) )
-        {
-            t1 = ( p0.x - XB1 ) / XA1;
-            t2 = ( p1.x - XB1 ) / XA1;
-        }
-        else
+        if( t1 > t2 )
         {
-            t1 = ( p0.y - YB1 ) / YA1;
-            t2 = ( p1.y - YB1 ) / YA1;
+            double tmp = t1;
+            t1 = t2;
+            t2 = tmp;
+            MCAD_POINT ptmp = p0;
+            p0 = p1;
+            p1 = ptmp;
         }
 
-        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            s1i = true;
-
-        if( abs( t2 ) < 1e-8 || abs( t2 - 1.0 ) < 1e-8 )
-            e1i = true;
-
-        if( !s0i && !e0i && !s1i && !e1i )
+        if( t2 < -1e-8 || t1 > L1 + 1e-8 )
             return false;
 
-        flags = MCAD_IFLAG_EDGE;
-
-        if( s0i && e0i )
+        // the segments touch but do not overlap
+        if( t2 < 1e-8 )
         {
             aIntersectList.push_back( mstart );
-            aIntersectList.push_back( mend );
-            return true;
-        }
-
-        if( s1i && e1i )
-        {
-            if( abs( XA1 ) >= abs( YA1 ) )
-            {
-                t1 = ( p0.x - XB1 ) / XA1;
-                t2 = ( p1.x - XB1 ) / XA1;
-            }
-            else
-            {
-                t1 = ( p0.y - YB1 ) / YA1;
-                t2 = ( p1.y - YB1 ) / YA1;
-            }
-
-            if( t1 < t2 )
-            {
-                aIntersectList.push_back( p0 );
-                aIntersectList.push_back( p1 );
-            }
-            else
-            {
-                aIntersectList.push_back( p1 );
-                aIntersectList.push_back( p0 );
-            }
-
-            return true;
-        }
-
-        if( s0i && s1i )
-        {
-            aIntersectList.push_back( mstart );
-            aIntersectList.push_back( p0 );
-            return true;
-        }
-
-        if( s0i && e1i )
-        {
-            aIntersectList.push_back( mstart );
-            aIntersectList.push_back( p1 );
+            flags = MCAD_IFLAG_ENDPOINT;
             return true;
         }
 
-        // must be e0i
-
-        if( s1i )
+        if( t1 > L1 - 1e-8 )
         {
-            aIntersectList.push_back( p0 );
             aIntersectList.push_back( mend );
+            flags = MCAD_IFLAG_ENDPOINT;
             return true;
         }
 
-        // must be e0i && e1i
-        aIntersectList.push_back( p1 );
-        aIntersectList.push_back( mend );
+        // an end point of the overlap is the innermost of the segments' end points
+        aIntersectList.push_back( t1 > 0.0 ? p0 : mstart );
+        aIntersectList.push_back( t2 < L1 ? p1 : mend );
+        flags = MCAD_IFLAG_EDGE;
         return true;
     }
 
-- 
2.43.0


From f653e586ae73affe0f7624a9fff2ebf3e61141ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:00 +0000
Subject: [PATCH 106/143] fix: find the intersections of an arc and a line
 independently of direction and position

---
 src/geom/mcad_segment.cpp | 301 ++++++++++----------------------------
 1 file changed, 81 insertions(+), 220 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index ce4adcd..a9e56ac 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -53,6 +53,39 @@ static inline void NORMALIZE_ANGLES( double &a0, double &a1 )
 }
 
 
+// return the angle of a point as seen from the center of an arc or circle;
+// the angle is in the range a0 <= angle < a0 + 2*PI where a0 is the start angle
+static double pointAngle( const MCAD_SEGMENT& aArc, const MCAD_POINT& aPoint )
+{
+    MCAD_POINT c = aArc.GetCenter();
+    double a0 = aArc.GetStartAngle();
+    double ang = atan2( aPoint.y - c.y, aPoint.x - c.x );
+
+    if( MCAD_SEGTYPE_ARC == aArc.GetSegType() && PointMatches( aPoint, aArc.GetStart(), 1e-8 ) )
+        return a0;
+
+    while( ang < a0 )
+        ang += 2.0 * M_PI;
+
+    while( ang >= a0 + 2.0 * M_PI )
+        ang -= 2.0 * M_PI;
+
+    return ang;
+}
+
+
+// determine if a point of the circle which carries an arc is on the arc
+static bool pointOnArc( const MCAD_SEGMENT& aArc, const MCAD_POINT& aPoint )
+{
+    if( MCAD_SEGTYPE_CIRCLE == aArc.GetSegType()
+        || PointMatches( aPoint, aArc.GetStart(), 1e-8 )
+        || PointMatches( aPoint, aArc.GetEnd(), 1e-8 ) )
+        return true;
+
+    return pointAngle( aArc, aPoint ) <= aArc.GetEndAngle();
+}
+
+
 MCAD_SEGMENT::MCAD_SEGMENT()
 {
     init();
@@ -889,265 +922,93 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
     flags = MCAD_IFLAG_NONE;
 
     // retrieve parameters of the arc and line segment
-    MCAD_POINT arcC;
-    MCAD_POINT arcS;
-    MCAD_POINT arcE;
-    double arcR;
-    double arcSAng;
-    double arcEAng;
-    bool arcCircle = false;
-
-    MCAD_POINT lS;
-    MCAD_POINT lE;
+    const MCAD_SEGMENT* arc = this;
+    MCAD_POINT lS = aSegment.GetStart();
+    MCAD_POINT lE = aSegment.GetEnd();
 
-    if( MCAD_SEGTYPE_ARC == msegtype || MCAD_SEGTYPE_CIRCLE == msegtype )
-    {
-        if( MCAD_SEGTYPE_CIRCLE == msegtype )
-            arcCircle = true;
-
-        arcSAng = GetStartAngle();
-        arcEAng = GetEndAngle();
-        arcR = mradius;
-        arcC = mcenter;
-        arcS = mstart;
-        arcE = mend;
-
-        lS = aSegment.GetStart();
-        lE = aSegment.GetEnd();
-    }
-    else
+    if( MCAD_SEGTYPE_LINE == msegtype )
     {
-        if( MCAD_SEGTYPE_CIRCLE == aSegment.GetSegType() )
-            arcCircle = true;
-
-        arcSAng = aSegment.GetStartAngle();
-        arcEAng = aSegment.GetEndAngle();
-        arcR = aSegment.GetRadius();
-        arcC = aSegment.GetCenter();
-        arcS = aSegment.GetStart();
-        arcE = aSegment.GetEnd();
-
+        arc = &aSegment;
         lS = GetStart();
         lE = GetEnd();
     }
 
-    // Step 1: the line segment must be parameterized:
-    // x = t*x1 + (1-t)*x2
-    // y = t*y1 + (1-t)*y2
-    // Step 2: given a circle with center (x0, y0), solve for:
-    // (x0 - x)^2 + (y0 - y)^2 = R^2
-    // Intermediates:
-    //      + expanding (x0 - x)^2 we get:
-    //          t^2*(x1^2 -2x1*x2 +x2^2) +t*2*(x0*x2 -x0*x1 +x1*x2 -x2^2) + (x0^2 -2*x0*x2 +x2^2)
-    //        (y0 - y)^2 expands to the same general expression
-    //      + gathering known values into single coefficients we get:
-    //          a0 = (x1^2 -2x1*x2 +x2^2)
-    //          b0 = 2*(x0*x2 -x0*x1 +x1*x2 -x2^2)
-    //          c0 = (x0^2 -2*x0*x2 +x2^2)
-    //          a1 = (y1^2 -2y1*y2 +y2^2)
-    //          b1 = 2*(y0*y2 -y0*y1 +y1*y2 -y2^2)
-    //          c1 = (y0^2 -2*y0*y2 +y2^2)
-    //      + Step 2 reduces to:
-    //          (a0 + a1)*t^2 + (b0 + b1)*t + (c0 + c1 - R^2) = 0
-    //        Which is equal to:
-    //          A*t^2 + B*t +C = 0
-    // Step 3: solution for t:
-    //      t = (-B * sqrt( B^2 -4*A*C )) / (2*A)
-    // First check the discriminant; if it is == 0 we have a tangent, if <0
-    // we have no intersection, and if >0 we may have an intersection.
-    // If the discriminant > 0, solve for t and for any value 0<= t <= 1
-    // check if p(t) lies on the arc/circle
-
-    double a0 = ( lS.x * lS.x - 2.0 * lS.x * lE.x + lE.x * lE.x );
-    double b0 = 2.0 * ( arcC.x * lE.x - arcC.x * lS.x + lS.x * lE.x - lE.x * lE.x );
-    double c0 = arcC.x * arcC.x - 2.0 * arcC.x * lE.x + lE.x * lE.x;
-
-    double a1 = ( lS.y * lS.y - 2.0 * lS.y * lE.y + lE.y * lE.y );
-    double b1 = 2.0 * ( arcC.y * lE.y - arcC.y * lS.y + lS.y * lE.y - lE.y * lE.y );
-    double c1 = arcC.y * arcC.y - 2.0 * arcC.y * lE.y + lE.y * lE.y;
-
-    double A = a0 + a1;
-    double B = b0 + b1;
-    double C = c0 + c1 - arcR * arcR;
-
-    double D = B * B - 4.0 * A * C;
-
-    bool tangent = false;
-
-    if( abs( D ) < 1e-6 )
-    {
-        if( arcCircle )
-        {
-            double t = -B / ( 2.0 * A );
+    MCAD_POINT arcC = arc->GetCenter();
+    double arcR = arc->GetRadius();
 
-            if( t < 0.0 || t > 1.0 )
-                return false;
+    // The line is parameterized by the distance t from its start point; the
+    // point of the line which is nearest to the center of the arc is at t = tf
+    // and the line intersects the circle at t = tf - th and t = tf + th.
+    double dx = lE.x - lS.x;
+    double dy = lE.y - lS.y;
+    double len = sqrt( dx*dx + dy*dy );
+    dx /= len;
+    dy /= len;
 
-            flags = MCAD_IFLAG_TANGENT;
-            MCAD_POINT p;
-            p.x = t * lS.x + (1.0 - t) * lE.x;
-            p.y = t * lS.y + (1.0 - t) * lE.y;
-            aIntersectList.push_back( p );
-            return true;
-        }
+    double tf = ( arcC.x - lS.x ) * dx + ( arcC.y - lS.y ) * dy;
+    double dist = abs( ( arcC.x - lS.x ) * dy - ( arcC.y - lS.y ) * dx );
 
-        tangent = true;
-    }
+    bool tangent = ( abs( dist - arcR ) < 1e-8 );
 
-    if( D < 0 )
+    if( dist > arcR && !tangent )
         return false;
 
-    double t0;
-    double t1;
+    double th = 0.0;
+    int np = 1;
 
-    if( tangent )
-    {
-        t0 = -B / ( 2.0 * A );
-        t1 = t0;
-    }
-    else
+    if( !tangent )
     {
-        t0 = ( -B + sqrt( D ) ) / ( 2.0 * A );
-        t1 = ( -B - sqrt( D ) ) / ( 2.0 * A );
-    }
-
-    int np = 0;
-    MCAD_POINT p[2];
-    MCAD_INTERSECT_FLAG f[2];
-
-    if( t0 >= 0.0 && t0 <= 1.0 )
-    {
-        p[0].x = t0 * lS.x + (1.0 - t0) * lE.x;
-        p[0].y = t0 * lS.y + (1.0 - t0) * lE.y;
-
-        if( ( ( PointMatches( p[0], arcS, 1e-8 ) || PointMatches( p[0], arcE, 1e-8 ) )
-            && !arcCircle )
-            || abs( t0 ) < 1e-8 || abs( t0 - 1.0 ) < 1e-8 )
-            f[0] = MCAD_IFLAG_ENDPOINT;
-        else
-            f[0] = MCAD_IFLAG_NONE;
-
-        ++np;
-    }
-
-    if( !tangent && t1 >= 0.0 && t1 <= 1.0 )
-    {
-        p[np].x = t1 * lS.x + (1.0 - t1) * lE.x;
-        p[np].y = t1 * lS.y + (1.0 - t1) * lE.y;
-
-        if( ( ( PointMatches( p[np], arcS, 1e-8 ) || PointMatches( p[np], arcE, 1e-8 ) )
-            && !arcCircle )
-            || abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            f[np] = MCAD_IFLAG_ENDPOINT;
-        else
-            f[np] = MCAD_IFLAG_NONE;
-
-        ++np;
+        th = sqrt( ( arcR - dist ) * ( arcR + dist ) );
+        np = 2;
     }
 
-    if( 0 == np )
-        return false;
-
+    MCAD_POINT pt[2];
     double ang[2];
+    int np2 = 0;
+    bool isEndpoint = false;
 
     for( int i = 0; i < np; ++i )
-        ang[i] = atan2( p[i].y - arcC.y, p[i].x - arcC.x );
-
-    if( arcCircle )
     {
-        if( 1 == np )
-        {
-            aIntersectList.push_back( p[0] );
-            flags = f[0];
-            return true;
-        }
+        double t = ( 0 == i ) ? ( tf - th ) : ( tf + th );
 
-        if( MCAD_IFLAG_ENDPOINT == f[0] || MCAD_IFLAG_ENDPOINT == f[1] )
-            flags = MCAD_IFLAG_ENDPOINT;
+        if( t < -1e-8 || t > len + 1e-8 )
+            continue;
 
-        bool swap = false; // set to true if p[0], p[1] must be swapped
+        MCAD_POINT p( lS.x + t * dx, lS.y + t * dy, 0.0 );
 
-        if( ang[0] >= 0.0 )
-        {
-            if( ang[1] >= 0.0 && ang[1] < ang[0] )
-                    swap = true;
-        }
-        else
-        {
-            if( ang[1] >= 0.0 || ang[1] < ang[0] )
-                swap = true;
-        }
+        if( !pointOnArc( *arc, p ) )
+            continue;
 
-        if( swap )
-        {
-            aIntersectList.push_back( p[1] );
-            aIntersectList.push_back( p[0] );
-        }
-        else
-        {
-            aIntersectList.push_back( p[0] );
-            aIntersectList.push_back( p[1] );
-        }
+        if( PointMatches( p, lS, 1e-8 ) || PointMatches( p, lE, 1e-8 )
+            || ( MCAD_SEGTYPE_ARC == arc->GetSegType()
+            && ( PointMatches( p, arc->GetStart(), 1e-8 )
+            || PointMatches( p, arc->GetEnd(), 1e-8 ) ) ) )
+            isEndpoint = true;
 
-        return true;
-    }
-
-    MCAD_POINT pt[2];
-    int np2 = 0;
-
-    // check if each point is on the arc
-    for( int i = 0; i < np; ++i )
-    {
-        // note: the endpoints are checked as well to account for discrepancies
-        // in the angle calculations which may result in false negatives.
-        if( ( ang[i] >= arcSAng && ang[i] <= arcEAng )
-            || ( ( ang[i] + 2.0 * M_PI ) >= arcSAng && ( ang[i] + 2.0 * M_PI ) <= arcEAng )
-            || ( abs( p[i].x - mstart.x ) < 1e-14 && abs( p[i].y - mstart.y ) < 1e-14 )
-            || ( abs( p[i].x - mend.x ) < 1e-14 && abs( p[i].y - mend.y ) < 1e-14 ) )
-        {
-            pt[np2] = p[i];
-            ++np2;
-        }
+        pt[np2] = p;
+        ang[np2] = pointAngle( *arc, p );
+        ++np2;
     }
 
     if( 0 == np2 )
         return false;
 
     if( tangent )
-    {
         flags = MCAD_IFLAG_TANGENT;
-        aIntersectList.push_back( pt[0] );
-        return true;
-    }
-
-    if( 1 == np2 )
-    {
-        flags = f[0];
-        aIntersectList.push_back( pt[0] );
-        return true;
-    }
-
-    if( MCAD_IFLAG_ENDPOINT == f[0] || MCAD_IFLAG_ENDPOINT == f[1] )
+    else if( isEndpoint )
         flags = MCAD_IFLAG_ENDPOINT;
 
-    // determine point order on the arc
-    if( ang[0] < arcSAng )
-        ang[0] += 2.0 * M_PI;
-
-    if( ang[1] < arcSAng )
-        ang[1] += 2.0 * M_PI;
-
-    if( ang[1] > ang[0] )
-    {
-        aIntersectList.push_back( pt[0] );
-        aIntersectList.push_back( pt[1] );
-    }
-    else
+    // the points are listed in their order on the arc
+    if( 2 == np2 && ang[1] < ang[0] )
     {
         aIntersectList.push_back( pt[1] );
         aIntersectList.push_back( pt[0] );
+        return true;
     }
 
+    for( int i = 0; i < np2; ++i )
+        aIntersectList.push_back( pt[i] );
+
     return true;
 }
 
-- 
2.43.0


From 459c816ac3bbe8f69b919c72842383398f433351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:00 +0000
Subject: [PATCH 107/143] fix: find the intersections, overlaps and tangencies
 of arcs at all positions

---
 src/geom/mcad_segment.cpp | 268 ++++++++++----------------------------
 1 file changed, 71 insertions(+), 197 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index a9e56ac..465b48b 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -593,40 +593,28 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     double b0 = aSegment.GetStartAngle();
     double b1 = aSegment.GetEndAngle();
 
-    // XXX -
-    // WARNING: TO BE IMPLEMENTED
-    // XXX - we may have a condition where we have 2 edge overlaps;
-    // this violates our constraint of 0 or 2 point intersections
-    // and we must inform the calling routine of the problem (invalid geometry)
-
     // check if no intersection possible
-    if( (d > ( mradius + r2 )) || ((d + r2) < mradius) || ((d + mradius) < r2) )
+    if( (d > ( mradius + r2 + 1e-8 )) || ((d + r2) < mradius - 1e-8)
+        || ((d + mradius) < r2 - 1e-8) )
         return false;
 
-    if( abs( d - mradius - r2 ) < 0.001 )
+    bool extTangent = ( abs( d - mradius - r2 ) < 0.001 );
+
+    if( extTangent || ( d > 1e-3 && abs( d - abs( mradius - r2 ) ) < 1e-8 ) )
     {
         // calculate the intersection point and check if it lies on both arcs
-        double tang0 = atan2( c2.y - mcenter.y, c2.x - mcenter.x );
-        double tang1;
-
-        if( tang0 > 0.0 )
-            tang1 = tang0 - M_PI;
-        else
-            tang1 = tang0 + M_PI;
-
-        if( tang0 > a0 )
-            tang0 -= 2.0 * M_PI;
-
-        if( tang0 < a0 )
-            tang0 += 2.0 * M_PI;
-
-        if( tang1 > b0 )
-            tang1 -= 2.0 * M_PI;
-
-        if( tang1 < b0 )
-            tang1 += 2.0 * M_PI;
-
-        if( tang0 >= a0 && tang0 <= a1 && tang1 >= b0 && tang1 <= b1 )
+        MCAD_POINT tp1 = mcenter;
+        MCAD_POINT tp2 = c2;
+
+        // direction from the centers to the point
+        double dir1 = ( extTangent || mradius > r2 ) ? -1.0 / d : 1.0 / d;
+        double dir2 = extTangent ? -dir1 : dir1;
+        tp1.x += dir1 * dx * mradius;
+        tp1.y += dir1 * dy * mradius;
+        tp2.x += dir2 * dx * r2;
+        tp2.y += dir2 * dy * r2;
+
+        if( pointOnArc( *this, tp1 ) && pointOnArc( aSegment, tp2 ) )
             flags = MCAD_IFLAG_TANGENT;
 
         return false;
@@ -653,70 +641,61 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
             return true;
         }
 
-        // Special case: arcs only intersect at their endpoints;
-        // we must return the endpoints with the flag MCAD_IFLAG_ENDPOINT
-        // possible sub-cases:
-        // b1 == a0, b0 == a1 - 2*M_PI
-        // a1 == b0, a0 == b1 - 2*M_PI
-        // b0 == a1, b1 == a0 + 2*M_PI
-        // a0 == b1, a1 == b0 + 2*M_PI
-        if( (abs(b1 - a0) < 1e-8 && abs(b0 -a1 + 2.0*M_PI) < 1e-8)
-            || (abs(a1 - b0) < 1e-8 && abs(a0 -b1 + 2.0*M_PI) < 1e-8)
-            || (abs(b0 - a1) < 1e-8 && abs(b1 -a0 - 2.0*M_PI) < 1e-8)
-            || (abs(a0 - b1) < 1e-8 && abs(a1 -b0 - 2.0*M_PI) < 1e-8) )
+        // move the angles of aSegment to the range a0 <= b0 < a0 + 2*M_PI
+        while( b0 < a0 - 1e-8 )
         {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( GetEnd() );
-            flags = MCAD_IFLAG_ENDPOINT;
-            return true;
+            b0 += 2.0 * M_PI;
+            b1 += 2.0 * M_PI;
+        }
+
+        while( b0 > a0 + 2.0 * M_PI - 1e-8 )
+        {
+            b0 -= 2.0 * M_PI;
+            b1 -= 2.0 * M_PI;
         }
 
-        // XXX - TO BE IMPLEMENTED
-        // Special case: arcs intersect at only a single endpoint
+        // aSegment starts within *this
+        bool startsIn = ( b0 < a1 - 1e-8 );
+        // aSegment runs past the start of *this
+        bool runsInto = ( b1 - 2.0 * M_PI > a0 + 1e-8 );
+
+        if( startsIn && runsInto )
+        {
+            // the arcs overlap on 2 edges (invalid geometry)
+            flags = MCAD_IFLAG_MULTIEDGE;
+            return false;
+        }
 
-        // determine if an entire segment is enveloped
-        if( (b0 >= a0 && b1 <= a1)
-            || ((b0 + 2.0*M_PI) >= a0 && (b1 + 2.0*M_PI) <= a1)
-            || ((b0 - 2.0*M_PI) >= a0 && (b1 - 2.0*M_PI) <= a1) )
+        if( startsIn )
         {
             aIntersectList.push_back( aSegment.GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
+            aIntersectList.push_back( b1 < a1 ? aSegment.GetEnd() : GetEnd() );
             flags = MCAD_IFLAG_EDGE;
             return true;
         }
 
-        if( (a0 >= b0 && a1 <= b1)
-            || (a0 >= (b0 + 2.0*M_PI) && a1 <= (b1 + 2.0*M_PI))
-            || (a0 >= (b0 - 2.0*M_PI) && a1 <= (b1 - 2.0*M_PI)) )
+        if( runsInto )
         {
             aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( GetEnd() );
+            aIntersectList.push_back( b1 - 2.0 * M_PI < a1 ? aSegment.GetEnd() : GetEnd() );
             flags = MCAD_IFLAG_EDGE;
             return true;
         }
 
-        // case 1: aSegment encompasses the start of *this
-        if( (b0 <= a0 && b1 >= a0 && b1 <= a1)
-            || ((b0 - 2.0*M_PI) <= a0 && (b1 - 2.0*M_PI) >= a0 && (b1 - 2.0*M_PI) <= a1) )
+        // there is no overlap; the arcs may still share 1 or 2 endpoints
+        if( abs( b1 - 2.0 * M_PI - a0 ) <= 1e-8 )
         {
             aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
-            return true;
+            flags = MCAD_IFLAG_ENDPOINT;
         }
 
-        // case 2: aSegment encompasses the end of *this
-        if( (b0 >= a0 && b0 <= a1 && b1 >= a1)
-            || ((b0 + 2.0*M_PI) >= a0 && (b0 + 2.0*M_PI) <= a1 && (b1 + 2.0*M_PI) >= a1)
-            || ((b0 - 2.0*M_PI) >= a0 && (b0 - 2.0*M_PI) <= a1 && (b1 - 2.0*M_PI) >= a1) )
+        if( abs( b0 - a1 ) <= 1e-8 )
         {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
-            return true;
+            aIntersectList.push_back( GetEnd() );
+            flags = MCAD_IFLAG_ENDPOINT;
         }
 
-        return false;
+        return ( MCAD_IFLAG_ENDPOINT == flags );
     }
 
     // Special cases: arcs only intersect at their endpoints
@@ -775,142 +754,37 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     MCAD_POINT p2;
     calcCircleIntercepts( c2, r2, d, p1, p2 );
 
-    // determine if any of the points lie on *this arc and
-    // place them in a ccw order
-
-    double angX0 = atan2( p1.y - mcenter.y, p1.x - mcenter.x );
-    double angX1 = atan2( p2.y - mcenter.y, p2.x - mcenter.x );
-    MCAD_POINT p0[2];
-    double ang0[2];
-    int np = 0;
-    int isOnArc[2];
-    double tang;
-
-    isOnArc[0] = 0;
-    isOnArc[1] = 0;
-
-    if ( MCAD_SEGTYPE_CIRCLE == aSegment.GetSegType() )
+    // determine if the points lie on both arcs and
+    // list them in a ccw order
+    if( pointAngle( *this, p2 ) < pointAngle( *this, p1 ) )
     {
-        ++isOnArc[0];
-        ++isOnArc[1];
+        MCAD_POINT tp = p1;
+        p1 = p2;
+        p2 = tp;
     }
-    else
-    {
-        // check if each point lies on the arc
-        tang = angX0;
-
-        if( tang > b1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < b0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= b1 )
-        {
-            ++isOnArc[0];
-        }
-
-        tang = angX1;
-
-        if( tang > b1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < b0 )
-            tang += 2.0 * M_PI;
 
-        if( tang <= b1 )
-        {
-            ++isOnArc[1];
-        }
-    }
-
-    if( MCAD_SEGTYPE_CIRCLE == msegtype )
-    {
-        ++isOnArc[0];
-        ++isOnArc[1];
-    }
-    else
-    {
-        // check if each point lies on the arc
-        tang = angX0;
-
-        if( tang > a1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < a0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= a1 )
-        {
-            ++isOnArc[0];
-        }
-
-        tang = angX1;
-
-        if( tang > a1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < a0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= a1 )
-        {
-            ++isOnArc[1];
-        }
-    }
-
-    if( angX0 < a0 )
-        angX0 += 2.0 * M_PI;
-
-    if( angX1 < a0 )
-        angX1 += 2.0 * M_PI;
-
-    if( 2 == isOnArc[0] )
-    {
-        p0[0] = p1;
-        ang0[0] = angX0;
-        ++np;
-    }
-
-    if( 2 == isOnArc[1] )
-    {
-        p0[np] = p2;
-        ang0[np] = angX1;
-        ++np;
-    }
-
-    if( 0 == np )
-    {
-        return false;
-    }
+    MCAD_POINT p0[2];
+    p0[0] = p1;
+    p0[1] = p2;
+    bool found = false;
 
-    if( 1 == np )
+    for( int i = 0; i < 2; ++i )
     {
-        aIntersectList.push_back( p0[0] );
-        return true;
-    }
+        if( !pointOnArc( *this, p0[i] ) || !pointOnArc( aSegment, p0[i] ) )
+            continue;
 
-    // adjust range to fit within a0 .. a1
-    for( int i = 0; i < np; ++i )
-    {
-        if( ang0[i] < a0 )
-            ang0[i] += 2.0*M_PI;
-        else if ( ang0[i] > a1 )
-            ang0[i] -= 2.0*M_PI;
-    }
+        aIntersectList.push_back( p0[i] );
+        found = true;
 
-    if( ang0[0] > ang0[1] )
-    {
-        aIntersectList.push_back( p0[1] );
-        aIntersectList.push_back( p0[0] );
-    }
-    else
-    {
-        aIntersectList.push_back( p0[0] );
-        aIntersectList.push_back( p0[1] );
+        if( ( MCAD_SEGTYPE_ARC == msegtype
+            && ( PointMatches( p0[i], mstart, 1e-8 ) || PointMatches( p0[i], mend, 1e-8 ) ) )
+            || ( MCAD_SEGTYPE_ARC == aSegment.GetSegType()
+            && ( PointMatches( p0[i], aSegment.GetStart(), 1e-8 )
+            || PointMatches( p0[i], aSegment.GetEnd(), 1e-8 ) ) ) )
+            flags = MCAD_IFLAG_ENDPOINT;
     }
 
-    return true;
+    return found;
 }
 
 
-- 
2.43.0


From 91dddfb9080ad5f0a9f4053880ab4fdf5dfa6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:00 +0000
Subject: [PATCH 108/143] fix: recognise tangent circles in spite of rounding

---
 src/geom/mcad_segment.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 465b48b..2a24784 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -530,7 +530,7 @@ bool MCAD_SEGMENT::checkCircles( const MCAD_SEGMENT& aSegment,
     double dy = mcenter.y - c2.y;
     double d= sqrt( dx*dx + dy*dy );
 
-    if( d > ( mradius + r2 ) )
+    if( d > ( mradius + r2 + 1e-8 ) )
         return false;
 
     // check if the circles are identical
@@ -553,14 +553,14 @@ bool MCAD_SEGMENT::checkCircles( const MCAD_SEGMENT& aSegment,
     if( d < mradius || d < r2)
     {
         // check if aSegment is inside this circle
-        if( d <= (mradius - r2) )
+        if( d <= (mradius - r2 + 1e-8) )
         {
             flags = MCAD_IFLAG_ENCIRCLES;
             return false;
         }
 
         // check if this circle is inside aSegment
-        if( d <= (r2 - mradius) )
+        if( d <= (r2 - mradius + 1e-8) )
         {
             flags = MCAD_IFLAG_INSIDE;
             return false;
-- 
2.43.0


From fed0f1c9124e39828eec86f00ef6ca7b4af6691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:08 +0000
Subject: [PATCH 109/143] fix: classify arcs of equal radius with common end
 points independently of rounding

---
 src/geom/mcad_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 2a24784..b347184 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -725,7 +725,7 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
             aIntersectList.push_back( GetStart() );
             aIntersectList.push_back( GetEnd() );
 
-            if( r2 > mradius )
+            if( r2 > mradius + 1e-8 )
             {
                 double mrad = (a0 + a1) * 0.5;
                 double iaX = mcenter.x + mradius * cos( mrad );
-- 
2.43.0


From 50c1f861fafc0356e085babc2549ea6b3aa3ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 110/143] fix: set all coordinates of the midpoint and of the
 bounding box of a segment

---
 src/geom/mcad_segment.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index b347184..72ea2b9 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -1025,6 +1025,9 @@ bool MCAD_SEGMENT::GetBoundingBox( MCAD_POINT& p0, MCAD_POINT& p1 )
         return false;
     }
 
+    p0.z = 0.0;
+    p1.z = 0.0;
+
     if( MCAD_SEGTYPE_LINE == msegtype )
     {
         if( abs( mstart.x - mend.x ) < 1e-8 )
@@ -1188,6 +1191,7 @@ bool MCAD_SEGMENT::GetMidpoint( MCAD_POINT& p0 )
         case MCAD_SEGTYPE_LINE:
             p0.x = 0.5 * (mend.x - mstart.x) + mstart.x;
             p0.y = 0.5 * (mend.y - mstart.y) + mstart.y;
+            p0.z = 0.0;
             break;
 
         default:
-- 
2.43.0


From a04821bcff13e447ab10ab93862ab6069404a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 111/143] fix: splitting a segment twice at one point does not
 create a degenerate piece

---
 src/geom/mcad_segment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 72ea2b9..84fd0d9 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -428,6 +428,11 @@ bool MCAD_SEGMENT::Split( std::list<MCAD_POINT>& aIntersectList,
             return false;
     }
 
+    // a repeated point does not split a line or arc twice
+    if( MCAD_SEGTYPE_CIRCLE != msegtype && 2 == aIntersectList.size()
+        && PointMatches( aIntersectList.front(), aIntersectList.back(), 1e-8 ) )
+        aIntersectList.pop_back();
+
     bool ok = false;
 
     switch( msegtype )
-- 
2.43.0


From 4cd933d13152fdf49196f7072e3dd9492a2a7231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 112/143] fix: tell points inside an outline from points
 outside for every position of the point

---
 src/geom/mcad_outline.cpp | 175 +++++++++++++++++---------------------
 1 file changed, 78 insertions(+), 97 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index a180468..2c9b426 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -291,120 +291,101 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
         return false;
     }
 
-    // Steps:
-    // 1. take a line passing through this point and directly to the
-    //    left or right, whichever is the shortest segment.
-    // 2. count nodes: IF an intersection is an endpoint, only
-    //    count it as a node if ALL points of the segment touched
-    //    are <= aPoint.y.
-    // 3. odd nodes = inside, even nodes = outside
-
-    MCAD_POINT bb0 = mBottomLeft;
-    MCAD_POINT bb1 = mTopRight;
-
-    // expand the limits to ensure non-zero segment lengths in all cases
-    bb0.x -= 5.0;
-    bb0.y -= 5.0;
-    bb1.x += 5.0;
-    bb1.y += 5.0;
-
-    MCAD_POINT p2;
-
-    if( (aPoint.x - mBottomLeft.x) <= (mTopRight.x - aPoint.x) )
-        p2.x = bb0.x;
-    else
-        p2.x = bb1.x;
+    error = false;
 
-    p2.y = aPoint.y;
+    // Steps:
+    // 1. a point on a segment is on the outline
+    // 2. count the crossings of the outline and the ray from the point to
+    //    the right; a vertex at the level of the ray is deemed to be below it.
+    //    Arcs are taken as up to 3 pieces which rise or fall monotonically.
+    // 3. odd crossings = inside, even crossings = outside
 
-    MCAD_SEGMENT ls0;
-    ls0.SetParams( aPoint, p2 );
     int nI = 0; // number of intersections with the outline
+    double level = aPoint.y + 1e-8;
 
     list<MCAD_SEGMENT*>::iterator sSegs = msegments.begin();
     list<MCAD_SEGMENT*>::iterator eSegs = msegments.end();
-    list<MCAD_POINT> iList;
-    MCAD_INTERSECT_FLAG flag;
-
-    int acc = 0;
 
     while( sSegs != eSegs )
     {
-        if( (*sSegs)->GetIntersections( ls0, iList, flag ) )
+        MCAD_SEGMENT* seg = *sSegs;
+        ++sSegs;
+
+        MCAD_POINT p0 = seg->GetStart();
+        MCAD_POINT p1 = seg->GetEnd();
+
+        if( MCAD_SEGTYPE_LINE == seg->GetSegType() )
         {
-            list<MCAD_POINT>::iterator sL = iList.begin();
-            list<MCAD_POINT>::iterator eL = iList.end();
+            double dx = p1.x - p0.x;
+            double dy = p1.y - p0.y;
+            double len = sqrt( dx*dx + dy*dy );
+            double t = ( ( aPoint.x - p0.x ) * dx + ( aPoint.y - p0.y ) * dy ) / len;
+            double d = ( ( aPoint.x - p0.x ) * dy - ( aPoint.y - p0.y ) * dx ) / len;
 
-            while( sL != eL )
-            {
-                // note: handle the case of a circle differently
-                if( MCAD_SEGTYPE_CIRCLE == (*sSegs)->GetSegType() )
-                {
-                    ++nI;
-                }
-                else
-                {
-                    bool isEnd0 = PointMatches( *sL, (*sSegs)->mstart, 1e-8 );
-                    bool isEnd1 = PointMatches( *sL, (*sSegs)->mend, 1e-8 );
+            if( abs( d ) < 1e-8 && t > -1e-8 && t < len + 1e-8 )
+                return true;
 
-                    if( isEnd0 || isEnd1 )
-                    {
-                        (*sSegs)->GetBoundingBox( bb0, bb1 );
-
-                        if( bb0.y <= aPoint.y && bb1.y <= aPoint.y )
-                        {
-                            ++nI;
-                        }
-                        else
-                        {
-                            // it is possible for the simple bounding box test to
-                            // fail if the endpoint is on an arc; in such cases
-                            // we must check the bounds of the adjacent curve and
-                            // increment nI is those bounds are exclusively >= aPoint.y
-                            if( MCAD_SEGTYPE_ARC == (*sSegs)->GetSegType() && bb0.y < aPoint.y )
-                            {
-                                list<MCAD_SEGMENT*>::iterator tSeg = sSegs;
-
-                                if( isEnd1 )
-                                {
-                                    ++tSeg;
-
-                                    if( tSeg == eSegs )
-                                        tSeg = msegments.begin();
-                                }
-                                else if ( tSeg == msegments.begin() )
-                                {
-                                    tSeg = --msegments.end();
-                                }
-                                else
-                                {
-                                    --tSeg;
-                                }
-
-                                (*tSeg)->GetBoundingBox( bb0, bb1 );
-
-                                if( bb0.y >= aPoint.y && bb1.y >= aPoint.y )
-                                {
-                                    ++nI;
-                                }
-
-                            }
-                        }
+            if( ( p0.y > level ) != ( p1.y > level )
+                && p0.x + dx * ( aPoint.y - p0.y ) / dy > aPoint.x )
+                ++nI;
 
-                    }
-                    else
-                    {
-                        ++nI;
-                    }
-                }
+            continue;
+        }
 
-                ++sL;
-            }
+        MCAD_POINT c = seg->GetCenter();
+        double r = seg->GetRadius();
+        double dx = aPoint.x - c.x;
+        double dy = aPoint.y - c.y;
+        double d = sqrt( dx*dx + dy*dy );
 
-            iList.clear();
+        if( MCAD_SEGTYPE_CIRCLE == seg->GetSegType() )
+        {
+            if( d < r + 1e-8 )
+                return true;
+
+            continue;
         }
 
-        ++sSegs;
+        double a0 = seg->GetStartAngle();
+        double a1 = seg->GetEndAngle();
+
+        if( PointMatches( aPoint, p0, 1e-8 ) || PointMatches( aPoint, p1, 1e-8 ) )
+            return true;
+
+        if( abs( d - r ) < 1e-8 )
+        {
+            double ang = atan2( dy, dx );
+
+            while( ang < a0 )
+                ang += 2.0 * M_PI;
+
+            if( ang <= a1 )
+                return true;
+        }
+
+        // half of the extent of the circle at the level of the ray
+        double w = ( abs( dy ) < r ) ? sqrt( ( r - dy ) * ( r + dy ) ) : 0.0;
+        double top = -1.5 * M_PI;   // angle of the next extremum
+
+        while( top <= a0 )
+            top += M_PI;
+
+        double y0 = p0.y;
+        double ang0 = a0;
+
+        do
+        {
+            double ang1 = min( top, a1 );
+            double y1 = ( top < a1 ) ? ( c.y + r * sin( top ) ) : p1.y;
+            double x = ( cos( 0.5 * ( ang0 + ang1 ) ) > 0.0 ) ? ( c.x + w ) : ( c.x - w );
+
+            if( ( y0 > level ) != ( y1 > level ) && x > aPoint.x )
+                ++nI;
+
+            ang0 = ang1;
+            y0 = y1;
+            top += M_PI;
+        } while( ang0 < a1 );
     }
 
     // note: an odd number means the point is inside the outline
-- 
2.43.0


From 39d1f7fb6d524b1031ee659f5306ae47df013b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 113/143] fix: determine the direction of an outline from the
 true area of its arcs

---
 src/geom/mcad_outline.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 2c9b426..47771c3 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -502,13 +502,14 @@ bool MCAD_OUTLINE::AddSegment( MCAD_SEGMENT* aSegment, bool& error )
     if( MCAD_SEGTYPE_ARC == pseg->GetSegType() )
     {
         // To ensure correct winding calculations involving
-        // arcs we must take the midpoint of the arc and
-        // calculate the winding based on 2 segments.
-        MCAD_POINT p2;
-        pseg->GetMidpoint( p2 );
+        // arcs we must take account of the area between the
+        // arc and its chord
+        double r = pseg->GetRadius();
+        double ang = pseg->GetEndAngle() - pseg->GetStartAngle();
+        double area = r * r * ( ang - sin( ang ) );
 
-        mWinding += ( p0.x - p2.x ) * ( p0.y + p2.y );
-        mWinding += ( p2.x - p1.x ) * ( p2.y + p1.y );
+        mWinding += ( p0.x - p1.x ) * ( p0.y + p1.y );
+        mWinding += pseg->IsCW() ? area : -area;
     }
     else
     {
-- 
2.43.0


From c2e0072566fb642eb13bdc6d4bae928ad52ffbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:44 +0000
Subject: [PATCH 114/143] fix: union and difference of outlines where a vertex
 lies on the other boundary or a segment is split twice; refuse outlines which
 only touch

---
 src/geom/mcad_outline.cpp | 574 +++++++++-----------------------------
 1 file changed, 132 insertions(+), 442 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 47771c3..a9215e3 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -854,6 +854,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
             msg << "the outline";
             ERRMSG << msg.str() << "\n";
             errors.push_back( msg.str() );
+            error = true;
             return false;
         }
 
@@ -956,62 +957,36 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
         return true;
     }
 
-    if( !p1e && !p2e )
-    {
-        // if both points lie on a single segment then split at 2 points
-        if( pSeg[0] == pSeg[1] )
-        {
-            iList.clear();
-            iList.push_back(pF[0]);
-            iList.push_back(pF[1]);
-            list<MCAD_SEGMENT*> sList;
-
-            if( !(*pSeg[0])->Split(iList, sList) )
-            {
-                ostringstream msg;
-                GEOM_ERR( msg );
-                msg << "[BUG] could not split segment";
-                ERRMSG << msg.str() << "\n";
-                errors.push_back( msg.str() );
-                error = true;
-                delete sp;
-                return false;
-            }
-
-            if( sList.size() != 2 )
-            {
-                ostringstream msg;
-                GEOM_ERR( msg );
-                msg << "[BUG] expected 2 new segments, got " << sList.size();
-                ERRMSG << msg.str() << "\n";
-                errors.push_back( msg.str() );
-                error = true;
-                delete sp;
-
-                while( !sList.empty() )
-                {
-                    delete sList.back();
-                    sList.pop_back();
-                }
-
-                return false;
-            }
+    // if both points lie on a single segment then split at 2 points
+    bool single = !p1e && !p2e && pSeg[0] == pSeg[1];
 
-            // replace the first new segment with the arc
-            delete sList.front();
-            sList.pop_front();
-            sList.push_front( sp );
-            list<MCAD_SEGMENT*>::iterator pS0 = pSeg[0];
-            msegments.insert( ++pS0, sList.begin(), sList.end() );
+    if( single )
+    {
+        iList.clear();
+        iList.push_back(pF[0]);
+        iList.push_back(pF[1]);
+        list<MCAD_SEGMENT*> sList;
 
-            return true;
+        if( !(*pSeg[0])->Split(iList, sList) )
+        {
+            ostringstream msg;
+            GEOM_ERR( msg );
+            msg << "[BUG] could not split segment";
+            ERRMSG << msg.str() << "\n";
+            errors.push_back( msg.str() );
+            error = true;
+            delete sp;
+            return false;
         }
+
+        list<MCAD_SEGMENT*>::iterator pS0 = pSeg[0];
+        msegments.insert( ++pS0, sList.begin(), sList.end() );
     }
 
     // perform the splits
     for( int i = 0; i < 2; ++ i )
     {
-        if( !isEnd[i] )
+        if( !single && !isEnd[i] )
         {
             // split here
             iList.clear();
@@ -1060,19 +1035,16 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
         }
     }
 
-    // either pSeg[0] or pSeg[0]-- must have an endpoint 'mend' which
-    // is equal to pf[0]; find that iterator then eradicate all
+    // one of the segments must have an endpoint 'mend' which is
+    // equal to pf[0]; find that iterator then eradicate all
     // subsequent entries (wrapping to begin() if necessary) until
     // we encounter a segment whose 'mstart' equals pf[1]. Finally,
     // insert 'sp' after the aforementioned iterator or, more
     // conveniently, before the first segment not eradicated.
-
-    if( !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
+    for( pSeg[0] = msegments.begin(); *pSeg[0] != msegments.back(); ++pSeg[0] )
     {
-        if( msegments.front() == *pSeg[0] )
-            pSeg[0] = --msegments.end();
-        else
-            --pSeg[0];
+        if( PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
+            break;
     }
 
     if( !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
@@ -1121,6 +1093,34 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
 }   // opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
 
 
+// arrange a closed chain of segments to start at p0 and list the segments
+// running from p0 to p1 and those running from p1 back to p0
+static bool divideOutline( list<MCAD_SEGMENT*>& segs, MCAD_POINT p0, MCAD_POINT p1,
+    list<MCAD_SEGMENT*>& first, list<MCAD_SEGMENT*>& second )
+{
+    list<MCAD_SEGMENT*>::iterator iSeg = segs.begin();
+    list<MCAD_SEGMENT*>::iterator eSeg = segs.end();
+
+    while( iSeg != eSeg && !PointMatches( (*iSeg)->GetMStart(), p0, 1e-8 ) )
+        ++iSeg;
+
+    // move the segments before p0 to the end of the chain
+    segs.splice( eSeg, segs, segs.begin(), iSeg );
+    iSeg = segs.begin();
+
+    while( iSeg != eSeg && !PointMatches( (*iSeg)->GetMStart(), p1, 1e-8 ) )
+    {
+        first.push_back( *iSeg );
+        ++iSeg;
+    }
+
+    second.assign( iSeg, eSeg );
+
+    return !first.empty() && !second.empty()
+        && PointMatches( first.front()->GetMStart(), p0, 1e-8 );
+}
+
+
 // operate on the generic outline (add/subtract)
 bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
 {
@@ -1134,29 +1134,17 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
     // c. Split aOutline at the unique points; for each point
     //    retain an iterator to the segment whose 'mstart'
     //    is the split point.
-    // d. Take a point along the segment in *this which was
-    //    associated with the split point and determine whether
-    //    it is inside or outside aOutline.
-    // e. Take a point along the segment in aOutline which was
-    //    associated with the split point and determine whether
-    //    it is inside or outside *this.
-    // f. A test for invalid geometry: if both (d) and (e) are
-    //    inside (or outside) then we have invalid geometry due
-    //    to a case of 2 non-overlapping outlines coinciding at
-    //    2 points.
-    // g. Trimming:
-    //    1. Subtraction: determine the iterators for the aOutline
-    //       segments "inside" *this and the iterators for the
-    //       *this segments "outside" aOutline. Trim away the
-    //       "outside" segments of aOutline and the "inside" segments
-    //       of *this. Starting at the CCW point of the remaining
-    //       segments in *this, insert the remaining segments of
-    //       aOutline starting at the CW-most position and with each
-    //       segment reversed.
-    //    2. Addition: similar to subtraction, but eliminate the
-    //       "inside" segments of aOutline and add them to the
-    //       remaining segments of *this proceeding in the normal
-    //       CCW order along aOutline.
+    // d. Divide each outline into the 2 pieces between the points.
+    // e. Take a point along each piece and determine whether it
+    //    is inside or outside the other outline.
+    // f. A test for invalid geometry: unless each outline has one
+    //    piece inside and one piece outside the other we have
+    //    invalid geometry due to a case of 2 outlines coinciding
+    //    at 2 points without crossing there.
+    // g. Trimming: retain the piece of *this which is outside aOutline
+    //    and continue with a piece of aOutline:
+    //    1. Subtraction: the piece inside *this, reversed.
+    //    2. Addition: the piece outside *this.
     //
 
     mBBisOK = false;
@@ -1219,8 +1207,10 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             if( (*iSeg)->GetIntersections( **sO, iList, flag ) )
             {
+                // note: MCAD_IFLAG_OUTSIDE means that 2 arcs share both
+                // endpoints but do not overlap
                 if( MCAD_IFLAG_NONE != flag && MCAD_IFLAG_ENDPOINT != flag
-                    && MCAD_IFLAG_TANGENT != flag )
+                    && MCAD_IFLAG_TANGENT != flag && MCAD_IFLAG_OUTSIDE != flag )
                 {
                     ostringstream msg;
                     GEOM_ERR( msg );
@@ -1393,8 +1383,8 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             MCAD_SEGMENT* pSeg = **sSegs;
 
-            if( !PointMatches( *iPts, pSeg->mstart, 1e-8 )
-                && !PointMatches( *iPts, pSeg->mend, 1e-8 ) )
+            // note: the ends of a segment change when it is split
+            if( iPts == iList.begin() ? !p1e : !p2e )
             {
                 // this is not an endpoint; split the entity
                 list<MCAD_SEGMENT*> sList;
@@ -1471,8 +1461,8 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             MCAD_SEGMENT* pSeg = **sSegs;
 
-            if( !PointMatches( *iPts, pSeg->mstart, 1e-8 )
-                && !PointMatches( *iPts, pSeg->mend, 1e-8 ) )
+            // note: the ends of a segment change when it is split
+            if( iPts == iList.begin() ? !p1e : !p2e )
             {
                 // this is not an endpoint; split the entity
                 list<MCAD_SEGMENT*> sList;
@@ -1499,402 +1489,102 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         }
     }
 
-    // d. Take a point along the segment in *this which was
-    //    associated with the split point and determine whether
-    //    it is inside or outside aOutline.
-    // e. Take a point along the segment in aOutline which was
-    //    associated with the split point and determine whether
-    //    it is inside or outside *this.
-
-    MCAD_POINT pT;  // test point to use in determining if a segment is
-                    // inside or outside a closed region
-
-    // test if CCW point from the split point on *this is in or out
-    if( PointMatches( iList.front(), (*lSegs.front())->mstart, 1e-8 ) )
-    {
-        (*lSegs.front())->GetMidpoint( pT );
-    }
-    else
-    {
-        list<MCAD_SEGMENT*>::iterator sSL = lSegs.front();
-        ++sSL;
-
-        if( sSL == msegments.end() )
-            sSL = msegments.begin();
-
-        if( PointMatches( iList.front(), (*sSL)->mstart, 1e-8 ) )
-        {
-            (*sSL)->GetMidpoint( pT );
-            lSegs.front() = sSL;
-        }
-        else
-        {
-            ++sSL;
-
-            if( sSL == msegments.end() )
-                sSL = msegments.begin();
+    // d. Divide each outline into the piece running from the first
+    //    split point to the second and the piece running back again.
+    list<MCAD_SEGMENT*> tPiece[2];  // pieces of *this
+    list<MCAD_SEGMENT*> oPiece[2];  // pieces of aOutline
 
-            if( PointMatches( iList.front(), (*sSL)->mstart, 1e-8 ) )
-            {
-                (*sSL)->GetMidpoint( pT );
-                lSegs.front() = sSL;
-            }
-            else
-            {
-                ostringstream msg;
-                GEOM_ERR( msg );
-                msg << "[BUG] cannot find *this segment starting at split point 0";
-                ERRMSG << msg.str() << "\n";
-                errors.push_back( msg.str() );
-                return false;
-            }
-        }
-    }
+    bool ok = divideOutline( msegments, iList.front(), iList.back(), tPiece[0], tPiece[1] );
 
-    bool tpIn0 = aOutline->IsInside( pT, error );
+    if( !divideOutline( aOutline->msegments, iList.front(), iList.back(), oPiece[0], oPiece[1] ) )
+        ok = false;
 
-    if( !tpIn0 && error )
+    if( !ok )
     {
         ostringstream msg;
         GEOM_ERR( msg );
-        msg << "[BUG] cannot test if a point is inside aOutline";
+        msg << "[BUG] cannot find the segments starting at the split points";
         ERRMSG << msg.str() << "\n";
         errors.push_back( msg.str() );
+        error = true;
         return false;
     }
 
-    // test if CCW point from the split point on aOutline is in or out
-    if( PointMatches( iList.front(), (*oSegs.front())->mstart, 1e-8 ) )
-    {
-        (*oSegs.front())->GetMidpoint( pT );
-    }
-    else
+    // e. Take a point along each piece and determine whether it is
+    //    inside or outside the other outline.
+    bool tIn[2];
+    bool oIn[2];
+
+    for( int i = 0; i < 2; ++i )
     {
-        list<MCAD_SEGMENT*>::iterator sSL = oSegs.front();
-        ++sSL;
+        MCAD_POINT pT;
+        bool tErr = false;
+        bool oErr = false;
 
-        if( sSL == aOutline->msegments.end() )
-            sSL = aOutline->msegments.begin();
+        tPiece[i].front()->GetMidpoint( pT );
+        tIn[i] = aOutline->IsInside( pT, tErr );
+        oPiece[i].front()->GetMidpoint( pT );
+        oIn[i] = IsInside( pT, oErr );
 
-        if( PointMatches( iList.front(), (*sSL)->mstart, 1e-8 ) )
+        if( ( !tIn[i] && tErr ) || ( !oIn[i] && oErr ) )
         {
-            (*sSL)->GetMidpoint( pT );
-            oSegs.front() = sSL;
-        }
-        else
-        {
-            ++sSL;
-
-            if( sSL == aOutline->msegments.end() )
-                sSL = aOutline->msegments.begin();
-
-            if( PointMatches( iList.front(), (*sSL)->mstart, 1e-8 ) )
-            {
-                (*sSL)->GetMidpoint( pT );
-                oSegs.front() = sSL;
-            }
-            else
-            {
-                ostringstream msg;
-                GEOM_ERR( msg );
-                msg << "[BUG] cannot find aOutline segment starting at split point 0";
-                ERRMSG << msg.str() << "\n";
-                errors.push_back( msg.str() );
-                return false;
-            }
+            ostringstream msg;
+            GEOM_ERR( msg );
+            msg << "[BUG] cannot test if a point is inside an outline";
+            ERRMSG << msg.str() << "\n";
+            errors.push_back( msg.str() );
+            error = true;
+            return false;
         }
     }
 
-    bool tpIn1 = IsInside( pT, error );
-
-    if( !tpIn1 && error )
+    // f. A test for invalid geometry: the outlines cross each other at
+    //    the 2 points only if each has one piece inside and one piece
+    //    outside the other, otherwise they merely touch.
+    if( tIn[0] == tIn[1] || oIn[0] == oIn[1] || tIn[0] == oIn[0] )
     {
         ostringstream msg;
         GEOM_ERR( msg );
-        msg << "[BUG] cannot test if a point is inside *this";
+        msg << "[ERROR] invalid geometry (regions coincident at 2 points do not cross)";
         ERRMSG << msg.str() << "\n";
         errors.push_back( msg.str() );
+        error = true;
         return false;
     }
 
-    // f. A test for invalid geometry: if both (d) and (e) are
-    //    inside (or outside) then we have invalid geometry due
-    //    to a case of 2 non-overlapping outlines coinciding at
-    //    2 points.
-    if( tpIn0 == tpIn1 )
-    {
-        ostringstream msg;
-        GEOM_ERR( msg );
-        msg << "[ERROR] invalid geometry (non-overlapping regions coincident at 2 points)";
-        ERRMSG << msg.str() << "\n";
-        errors.push_back( msg.str() );
-        return false;
-    }
+    // g. Trimming: retain the piece of *this which is outside aOutline
+    //    and continue with a piece of aOutline:
+    //    1. Subtraction: the piece inside *this, reversed.
+    //    2. Addition: the piece outside *this.
+    int tKeep = tIn[0] ? 1 : 0;
+    int oKeep = ( oIn[0] == opsub ) ? 0 : 1;
 
-    // g. Trimming:
-    //    1. Subtraction: determine the iterators for the aOutline
-    //       segments "inside" *this and the iterators for the
-    //       *this segments "outside" aOutline. Trim away the
-    //       "outside" segments of aOutline and the "inside" segments
-    //       of *this. Starting at the CCW point of the remaining
-    //       segments in *this, insert the remaining segments of
-    //       aOutline starting at the CW-most position and with each
-    //       segment reversed.
-    //    2. Addition: similar to subtraction, but eliminate the
-    //       "inside" segments of aOutline and add them to the
-    //       remaining segments of *this proceeding in the normal
-    //       CCW order along aOutline.
-    //
+    msegments.swap( tPiece[tKeep] );
 
-    // delete inside segments of *this
-    // note: lSegs.front() must point to the first CW segment
-    list<MCAD_SEGMENT*>::iterator eSegT = lSegs.front();
+    list<MCAD_SEGMENT*>::iterator sO = oPiece[oKeep].begin();
+    list<MCAD_SEGMENT*>::iterator eO = oPiece[oKeep].end();
 
-    if( tpIn0 )
-    {
-        while( true )
-        {
-            if( msegments.end() == eSegT )
-            {
-                eSegT = msegments.begin();
-
-                if( msegments.empty() )
-                {
-                    ostringstream msg;
-                    GEOM_ERR( msg );
-                    msg << "[BUG] deleted entire outline";
-                    ERRMSG << msg.str() << "\n";
-                    errors.push_back( msg.str() );
-                    error = true;
-                    return false;
-                }
-            }
-
-            if( PointMatches( (*eSegT)->mstart, iList.back(), 1e-8 ) )
-                break;
-
-            delete *eSegT;
-            eSegT = msegments.erase( eSegT );
-        }
-
-        lSegs.front() = eSegT;
-    }
-    else
-    {
-        list<MCAD_SEGMENT*> tSegs;
-
-        while( true )
-        {
-            if( msegments.end() == eSegT )
-            {
-                eSegT = msegments.begin();
-
-                if( msegments.empty() )
-                {
-                    ostringstream msg;
-                    GEOM_ERR( msg );
-                    msg << "[BUG] deleted entire outline";
-                    ERRMSG << msg.str() << "\n";
-                    errors.push_back( msg.str() );
-                    error = true;
-                    return false;
-                }
-            }
-
-            if( PointMatches( (*eSegT)->mstart, iList.back(), 1e-8 ) )
-                break;
-
-            tSegs.push_back( *eSegT );
-            eSegT = msegments.erase( eSegT );
-        }
-
-        while( !msegments.empty() )
-        {
-            delete msegments.front();
-            msegments.pop_front();
-        }
-
-        msegments = tSegs;
-        lSegs.front() = msegments.begin();
-    }
-
-    // trim the applied outline
-    list<MCAD_SEGMENT*>::iterator eSegO = oSegs.front();
-
-    // note: oSegs.front() must point to the first CW segment
-    // and eSeg0 must point to the first CCW segment
-    if( ( tpIn1 && !opsub ) || ( opsub && !tpIn1 ) )
-    {
-        while( true )
-        {
-            if( aOutline->msegments.end() == eSegO )
-            {
-                eSegO = aOutline->msegments.begin();
-
-                if( aOutline->msegments.empty() )
-                {
-                    ostringstream msg;
-                    GEOM_ERR( msg );
-                    msg << "[BUG] deleted entire outline";
-                    ERRMSG << msg.str() << "\n";
-                    errors.push_back( msg.str() );
-                    error = true;
-                    return false;
-                }
-            }
-
-            if( PointMatches( (*eSegO)->mstart, iList.back(), 1e-8 ) )
-                break;
-
-            delete *eSegO;
-            eSegO = aOutline->msegments.erase( eSegO );
-        }
-
-        oSegs.front() = eSegO;
-
-        if( aOutline->msegments.begin() == eSegO )
-            eSegO = --aOutline->msegments.end();
-        else
-            --eSegO;
-
-    }
-    else
-    {
-        // store elements starting at oSegs.front()
-        list<MCAD_SEGMENT*> tSegs;
-
-        while( true )
-        {
-            if( aOutline->msegments.end() == eSegO )
-            {
-                eSegO = aOutline->msegments.begin();
-
-                if( aOutline->msegments.empty() )
-                {
-                    ostringstream msg;
-                    GEOM_ERR( msg );
-                    msg << "[BUG] deleted entire outline";
-                    ERRMSG << msg.str() << "\n";
-                    errors.push_back( msg.str() );
-                    error = true;
-                    return false;
-                }
-            }
-
-            if( PointMatches( (*eSegO)->mstart, iList.back(), 1e-8 ) )
-                break;
-
-            tSegs.push_back( *eSegO );
-            eSegO = aOutline->msegments.erase( eSegO );
-        }
-
-        while( !aOutline->msegments.empty() )
-        {
-            delete aOutline->msegments.front();
-            aOutline->msegments.pop_front();
-        }
-
-        aOutline->msegments = tSegs;
-        oSegs.front() = --aOutline->msegments.end();
-        eSegO = --aOutline->msegments.end();
-    }
-
-    // stitch partial outlines together
     if( opsub )
     {
-        // insert the remaining segments of aOutline starting at
-        // the CCW-most position and with each aOutline segment
-        // reversed and in the reverse order within the list
-        list<MCAD_SEGMENT*>::iterator eT = oSegs.front();
-        list<MCAD_SEGMENT*>::iterator qT;
-
-        if( eT == aOutline->msegments.begin() )
-            eT = --aOutline->msegments.end();
-        else
-            --eT;
-
-        eSegT = lSegs.front();
+        for( ; sO != eO; ++sO )
+            (*sO)->reverse();
 
-        while( !aOutline->msegments.empty() )
-        {
-            if( aOutline->msegments.size() > 1 )
-            {
-                if( eT == aOutline->msegments.begin() )
-                    qT = aOutline->msegments.end();
-                else
-                    qT = eT;
-
-                --qT;
-            }
-            else
-            {
-                qT = aOutline->msegments.end();
-            }
-
-            (*eT)->reverse();
-            msegments.insert( eSegT, *eT );
-            aOutline->msegments.erase( eT );
-            eT = qT;
-        }
-
-        delete aOutline;
-        return true;
+        oPiece[oKeep].reverse();
     }
-    else
-    {
-        // insert the remaining segments of aOutline starting at
-        // the CCW-most position
-        list<MCAD_SEGMENT*>::iterator eT = oSegs.front();
-
-        eSegT = lSegs.front();
-        MCAD_POINT lastPt;
-
-        do
-        {
-            list<MCAD_SEGMENT*>::iterator tmpT = eSegT;
-
-            if( tmpT == msegments.begin() )
-                tmpT = --msegments.end();
-            else
-                --tmpT;
 
-            lastPt = (*tmpT)->mend;
+    msegments.splice( msegments.end(), oPiece[oKeep] );
 
-        } while(0);
+    // dispose of the remaining pieces
+    aOutline->msegments.clear();
+    oPiece[1 - oKeep].splice( oPiece[1 - oKeep].end(), tPiece[1 - tKeep] );
 
-        // ensure that we start with the segment whose Start Point matches lastPt;
-        // this maintains the correct segment order.
-        while( !PointMatches( (*eT)->mstart, lastPt, 1e-8 ) )
-        {
-            ++eT;
-
-            if( aOutline->msegments.end() == eT )
-                eT = aOutline->msegments.begin();
-
-        }
-
-        while( eT != aOutline->msegments.end() )
-        {
-            msegments.insert( eSegT, *eT );
-            eT = aOutline->msegments.erase( eT );
-        }
-
-        if( !aOutline->msegments.empty() )
-        {
-            eT = aOutline->msegments.begin();
-
-            while( eT != aOutline->msegments.end() )
-            {
-                msegments.insert( eSegT, *eT );
-                ++eT;
-            }
-
-            aOutline->msegments.clear();
-        }
-
-        delete aOutline;
+    while( !oPiece[1 - oKeep].empty() )
+    {
+        delete oPiece[1 - oKeep].front();
+        oPiece[1 - oKeep].pop_front();
     }
 
+    delete aOutline;
     return true;
 }   // opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
 
-- 
2.43.0


From ce2652fcdf695dea89a7cac571c1aa30afaea505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:35 +0000
Subject: [PATCH 115/143] fix: a socket is neither a directory nor a regular
 file

---
 src/iges/mcad_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 5125bcb..106aaff 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -185,7 +185,7 @@ bool MCAD_FILEPATH::Exists( void )
     if( 0 != stat( m_fullpath->c_str(), &fs ) )
         return false;
 
-    if( fs.st_mode & ( S_IFDIR | S_IFREG ) )
+    if( S_ISDIR( fs.st_mode ) || S_ISREG( fs.st_mode ) )
         return true;
 #endif
 
@@ -212,7 +212,7 @@ bool MCAD_FILEPATH::DirExists( void )
     if( 0 != stat( m_fullpath->c_str(), &fs ) )
         return false;
 
-    if( fs.st_mode & S_IFDIR )
+    if( S_ISDIR( fs.st_mode ) )
         return true;
 #endif
 
@@ -239,7 +239,7 @@ bool MCAD_FILEPATH::FileExists( void )
     if( 0 != stat( m_fullpath->c_str(), &fs ) )
         return false;
 
-    if( fs.st_mode & S_IFREG )
+    if( S_ISREG( fs.st_mode ) )
         return true;
 #endif
 
-- 
2.43.0


From d00707ec717d10d997f7335bb4b6616a09a98f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 116/143] fix: IDF boards asked for in mm were written in thou
 and the reverse

---
 src/idf/idf_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index cf305e8..676752b 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3098,7 +3098,7 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
 bool IDF3_BOARD::WriteFile( const std::string& aFullFileName, bool aUnitMM, bool aForceUnitFlag )
 {
-    if( aUnitMM != IDF3::UNIT_THOU )
+    if( aUnitMM )
         setUnit( IDF3::UNIT_MM, aForceUnitFlag );
     else
         setUnit( IDF3::UNIT_THOU, aForceUnitFlag );
-- 
2.43.0


From d1022d21ca95695fd3adbf1e31685b340fa8d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 117/143] fix: the first outline point of an OTHER_OUTLINE was
 written on the line of its side

---
 src/idf/idf_outlines.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index cba8c80..d344209 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1900,6 +1900,7 @@ void OTHER_OUTLINE::writeData( std::ofstream& aBoardFile )
             case LYR_TOP:
             case LYR_BOTTOM:
                 WriteLayersText( aBoardFile, side );
+                aBoardFile << "\n";
                 break;
 
             default:
-- 
2.43.0


From afe9a4ba3b37f333b44bceb3549043ac0b0dabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 118/143] fix: a PLACE_OUTLINE without a height was written
 with a negative one

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index d344209..47b8c17 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -2597,7 +2597,7 @@ void PLACE_OUTLINE::writeData( std::ofstream& aBoardFile )
     }
 
     // thickness is optional for OTLN_PLACE, but mandatory for OTLN_PLACE_KEEPOUT
-    if( thickness < 0.0 && outlineType == OTLN_PLACE_KEEPOUT)
+    if( thickness < 0.0 && outlineType == OTLN_PLACE )
     {
         aBoardFile << "\n";
     }
-- 
2.43.0


From 2f1c1384ebad5f3818f1647fb5cb58806f1bb4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 119/143] fix: IDFv2 components in TNM units were refused and
 wrong units taken as TNM

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 47b8c17..f8bdd6b 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -3252,7 +3252,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     {
         unit = UNIT_THOU;
     }
-    else if( aIdfVersion == IDF_V2 && !CompareToken( "TNM", token ) )
+    else if( aIdfVersion == IDF_V2 && CompareToken( "TNM", token ) )
     {
         unit = UNIT_TNM;
     }
-- 
2.43.0


From 9f34c2d02d39a60d683396743b3687f064de2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 120/143] fix: IDFv2 placements in TNM units were not converted

---
 src/idf/idf_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 676752b..51deb71 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -637,6 +637,11 @@ bool IDF3_COMP_OUTLINE_DATA::readPlaceData( std::ifstream &aBoardFile,
         yoff *= IDF_THOU_TO_MM;
         zoff *= IDF_THOU_TO_MM;
     }
+    else if( ( aIdfVersion == IDF_V2 ) && ( aBoard->GetUnit() == IDF3::UNIT_TNM ) )
+    {
+        xoff *= IDF_TNM_TO_MM;
+        yoff *= IDF_TNM_TO_MM;
+    }
 
     parent = aBoard->FindComponent( refdes );
 
-- 
2.43.0


From ad44b775a8328f47960cf65bdd30e2386f94bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 121/143] fix: further outlines of components on the bottom
 were written at mirrored positions

---
 src/idf/idf2igs.cpp    |  4 ++--
 src/idf/idf_parser.cpp | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 0794b7b..c019868 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -928,10 +928,10 @@ bool MakeComponents( IDF3_BOARD& board, DLL_IGES& model )
 
             // retrieve the additional component and orientation offsets
             (*so)->GetOffsets( tX, tY, tZ, tA );
-            tX += vX;
+            tX = bottom ? vX - tX : vX + tX;
             tY += vY;
             tZ += th;
-            tA = (tA + vA) * M_PI / 180.0;
+            tA = ( bottom ? vA - tA : vA + tA ) * M_PI / 180.0;
 
             IGES_ENTITY_124* tx = calcTransform( model, tX, tY, tZ, tA, bottom );
 
diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 51deb71..8bfbe4e 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -691,9 +691,19 @@ bool IDF3_COMP_OUTLINE_DATA::readPlaceData( std::ifstream &aBoardFile,
                 throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__, ostr.str() ) );
             }
 
-            xoff -= tX;
+            // the offsets of items on the bottom are mirrored, see writePlaceData()
+            if( side == LYR_BOTTOM )
+            {
+                xoff = tX - xoff;
+                aoff = tA - aoff;
+            }
+            else
+            {
+                xoff -= tX;
+                aoff -= tA;
+            }
+
             yoff -= tY;
-            aoff -= tA;
         }
         else
         {
-- 
2.43.0


From b026e9a266820444435a45de96dd47157513533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 122/143] fix: reference designators with spaces were written
 without quotes

---
 src/idf/idf_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 8bfbe4e..8012978 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -803,6 +803,8 @@ void IDF3_COMP_OUTLINE_DATA::writePlaceData( std::ofstream& aBoardFile,
     if( arefdes.empty() || !arefdes.compare( "~" )
         || ( arefdes.size() >= 8 && CompareToken( "NOREFDES", arefdes.substr(0, 8) ) ) )
         arefdes = "NOREFDES";
+    else
+        arefdes = "\"" + arefdes + "\"";
 
     aBoardFile << "\"" << outline->GetGeomName() << "\" \"" << outline->GetPartName() << "\" "
     << arefdes << "\n";
-- 
2.43.0


From 1ab93273dd4e43482e7004b864a1e53965706be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 123/143] fix: IDF files without a newline after their last
 section were refused

---
 src/idf/idf_outlines.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index f8bdd6b..64f7668 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1184,7 +1184,7 @@ void BOARD_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -1694,7 +1694,7 @@ void OTHER_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
         // [outline identifier] [thickness] [board side: Top/Bot]
         while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-        if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+        if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
         {
             ostringstream ostr;
 
@@ -1815,7 +1815,7 @@ void OTHER_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2129,7 +2129,7 @@ void ROUTE_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2517,7 +2517,7 @@ void PLACE_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2869,7 +2869,7 @@ void GROUP_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -3321,7 +3321,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     // check RECORD 4
     while( aLibFile.good() && !FetchIDFLine( aLibFile, iline, comment, pos ) );
 
-    if( ( !aLibFile.good() && aLibFile.eof() ) || iline.empty() )
+    if( ( !aLibFile.good() && !aLibFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
-- 
2.43.0


From da9bc0126a98787f84ca92800a058d3d4bb32817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 124/143] fix: outlines used only by components with offsets
 were missing from the library file

---
 src/idf/idf_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 8012978..fb70d5c 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -146,6 +146,10 @@ IDF3_COMP_OUTLINE_DATA::IDF3_COMP_OUTLINE_DATA( IDF3_COMPONENT* aParent,
     yoff = aYoff;
     zoff = aZoff;
     aoff = aAngleOff;
+
+    if( aOutline )
+        aOutline->incrementRef();
+
     return;
 }
 
-- 
2.43.0


From 2eb818f5015684d04150142e58579d619dbb7feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:30 +0000
Subject: [PATCH 125/143] fix: a board cleared or refused kept outlines,
 comments, owner and unit of the earlier one

---
 src/idf/idf_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index fb70d5c..2a78b44 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -4221,6 +4221,8 @@ void IDF3_BOARD::Clear( void )
     } while(0);
 
     boardName.clear();
+    olnBoard.clear();
+    olnBoard.SetUnit( UNIT_MM );
     olnBoard.setThickness( thickness );
 
     state     = FILE_START;
-- 
2.43.0


From 22393af062c96f3b281e2db4bb519e27dd6cc8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 126/143] fix: empty IDF file names raised an exception

---
 src/idf/idf_parser.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 2a78b44..f9968e1 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -2764,6 +2764,13 @@ bool IDF3_BOARD::ReadFile( const std::string& aFullFileName, bool aNoSubstituteO
     // 2. Check if a file with extension 'emp' exists and read it
     // 3. Open the specified filename and read it
 
+    if( aFullFileName.empty() )
+    {
+        errormsg = "no file name was given";
+
+        return false;
+    }
+
     MCAD_FILEPATH bpbname( aFullFileName.c_str() );
     MCAD_FILEPATH bplname( aFullFileName.c_str() );
 
@@ -3128,6 +3135,13 @@ bool IDF3_BOARD::WriteFile( const std::string& aFullFileName, bool aUnitMM, bool
     // 2. Write the *.emn file according to the IDFv3 spec
     // 3. Write the *.emp file according to the IDFv3 spec
 
+    if( aFullFileName.empty() )
+    {
+        errormsg = "no file name was given";
+
+        return false;
+    }
+
     MCAD_FILEPATH bpbname( aFullFileName.c_str() );
     MCAD_FILEPATH bplname( aFullFileName.c_str() );
 
@@ -3790,6 +3804,13 @@ IDF3_COMPONENT* IDF3_BOARD::FindComponent( std::string aRefDes )
 // if the object doesn't exist
 IDF3_COMP_OUTLINE* IDF3_BOARD::GetComponentOutline( const std::string aFullFileName )
 {
+    if( aFullFileName.empty() )
+    {
+        errormsg = "no file name was given";
+
+        return NULL;
+    }
+
     MCAD_FILEPATH bponame( aFullFileName.c_str() );
     std::string fname = bponame.GetFullPath();
 
-- 
2.43.0


From 45dee0ba898ec2668e414d5f2bb7fdd3efa97766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:09 +0000
Subject: [PATCH 127/143] fix: all sections after one of unknown type were
 silently skipped

---
 src/idf/idf_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index f9968e1..83bf562 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -1969,6 +1969,7 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
         }
 
         // This must be a header
+        idx = 0;
         GetIDFString( iline, token, quoted, idx );
 
         if( quoted )
-- 
2.43.0


From 26bfd7c187a12c738cf3ba151fb2e88c1545b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:31 +0000
Subject: [PATCH 128/143] fix: IDF strings with a quote mark inside were
 accepted but could not be written

---
 src/idf/idf_helpers.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/idf/idf_helpers.cpp b/src/idf/idf_helpers.cpp
index aa54d37..307d88b 100644
--- a/src/idf/idf_helpers.cpp
+++ b/src/idf/idf_helpers.cpp
@@ -113,7 +113,18 @@ bool IDF3::GetIDFString( const std::string& aLine, std::string& aIDFString,
         hasQuotes = false;
 
         while( !isspace( aLine[idx] ) && idx < len )
+        {
+            if( aLine[idx] == '"' )
+            {
+                ERROR_IDF << "misplaced quote mark in line:\n";
+                std::cerr << "LINE: " << aLine << "\n";
+                aIDFString.clear();
+                aIndex = len;
+                return false;
+            }
+
             ostr << aLine[idx++];
+        }
 
     }
 
-- 
2.43.0


From 3413429a5eda6439fb5dc5bfdcf5685b17c68c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 129/143] fix: retrieving the data of a B-spline curve
 dereferenced a NULL pointer

---
 src/entities/entity126.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 9d47cca..63c3a8a 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -933,8 +933,15 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 {
     nCoeff = 0;
     order =0 ;
-    knot = NULL;
-    coeff = NULL;
+
+    if( !knot || !coeff )
+    {
+        ERRMSG << "\n + [INFO] invalid NURBS parameter pointer (NULL)\n";
+        return false;
+    }
+
+    *knot = NULL;
+    *coeff = NULL;
 
     if( !knots )
         return false;
-- 
2.43.0


From 95034fe9965f961348afd2e81d58e9f0ce32de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 130/143] fix: end points of rational B-spline curves ignored
 that SISL takes weighted control points

---
 src/entities/entity126.cpp   | 39 ++++++++++++++++++++++++++++++------
 src/include/core/entity126.h |  1 +
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 63c3a8a..70b0778 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -792,6 +792,37 @@ IGES_CURVE* IGES_ENTITY_126::GetCurve( int index )
 }
 
 
+#ifdef USE_SISL
+// create the SISL representation of the curve
+bool IGES_ENTITY_126::makeSISLCurve( void )
+{
+    if( PROP3 )
+    {
+        scurve = newCurve( nCoeffs, M + 1, knots, coeffs, 1, 3, 0 );
+        return NULL != scurve;
+    }
+
+    // SISL expects the control points of rational curves multiplied by their weights
+    double* hcoeffs = new double[nCoeffs * 4];
+
+    for( int i = 0, j = 0; i < nCoeffs; ++i )
+    {
+        double w = coeffs[j + 3];
+
+        for( int k = 0; k < 3; ++k, ++j )
+            hcoeffs[j] = coeffs[j] * w;
+
+        hcoeffs[j++] = w;
+    }
+
+    scurve = newCurve( nCoeffs, M + 1, knots, hcoeffs, 2, 3, 1 );
+    delete [] hcoeffs;
+
+    return NULL != scurve;
+}
+#endif
+
+
 bool IGES_ENTITY_126::GetStartPoint( MCAD_POINT& pt, bool xform )
 {
     if( nCoeffs < 2 )
@@ -801,9 +832,7 @@ bool IGES_ENTITY_126::GetStartPoint( MCAD_POINT& pt, bool xform )
 #ifdef USE_SISL
     if( !scurve )
     {
-        scurve = newCurve( nCoeffs, M + 1, knots, coeffs, PROP3 ? 1 : 2, 3, 0 );
-
-        if( !scurve )
+        if( !makeSISLCurve() )
         {
             ERRMSG << "\n + [INFO] memory allocation failed in SISL newCurve()\n";
             return false;
@@ -859,9 +888,7 @@ bool IGES_ENTITY_126::GetEndPoint( MCAD_POINT& pt, bool xform )
 #ifdef USE_SISL
     if( !scurve )
     {
-        scurve = newCurve( nCoeffs, M + 1, knots, coeffs, PROP3 ? 1 : 2, 3, 0 );
-
-        if( !scurve )
+        if( !makeSISLCurve() )
         {
             ERRMSG << "\n + [INFO] memory allocation failed in SISL newCurve()\n";
             return false;
diff --git a/src/include/core/entity126.h b/src/include/core/entity126.h
index bf8ca60..c9e0398 100644
--- a/src/include/core/entity126.h
+++ b/src/include/core/entity126.h
@@ -87,6 +87,7 @@ private:
     bool hasUniquePlane( MCAD_POINT* norm = NULL );
 #ifdef USE_SISL
     SISLCurve* scurve;
+    bool makeSISLCurve( void );
 #endif
 
 protected:
-- 
2.43.0


From 40f67acb194cf2e67dd6a89fdac5c9ec121944d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 131/143] fix: B-spline curves with decreasing knots or weights
 which cannot be read were accepted

---
 src/entities/entity126.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 70b0778..cd9aba6 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1039,6 +1039,24 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
         return false;
     }
 
+    for( int i = 0; i < lastKnot; ++i )
+    {
+        if( !( knot[i] <= knot[i + 1] ) )
+        {
+            ERRMSG << "\n + [INFO] the knot values decrease\n";
+            return false;
+        }
+    }
+
+    for( int i = 0; isRational && i < nCoeff; ++i )
+    {
+        if( !( coeff[i * 4 + 3] > 0.0 ) )
+        {
+            ERRMSG << "\n + [INFO] the weights must be positive\n";
+            return false;
+        }
+    }
+
 #ifdef USE_SISL
     if( NULL != scurve )
     {
-- 
2.43.0


From 7535fbcbbb5cb12272d81334cc7ab82f60af8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:24 +0000
Subject: [PATCH 132/143] fix: curves with control points on a line were
 written as planar and planar ones as not

---
 src/entities/entity126.cpp | 104 ++++++++++++++++++++++---------------
 1 file changed, 62 insertions(+), 42 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index cd9aba6..7e75375 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -24,6 +24,8 @@
  *
  */
 
+#include <cmath>
+#include <vector>
 #include <sstream>
 #include <error_macros.h>
 #include <core/iges.h>
@@ -1150,65 +1152,83 @@ bool IGES_ENTITY_126::hasUniquePlane( MCAD_POINT* norm )
         return false;
     }
 
-    // we must test for planarity by taking the normal vector of every
-    // 3 control points; if all normals are equal (or anti) then we have a plane
-    MCAD_POINT p0;
-    MCAD_POINT p1;
-    MCAD_POINT p2;
+    // the plane is defined by the first point, the point most distant from it
+    // and the point most distant from the line through the two; there is
+    // a unique plane only if those points are not on a line
+    std::vector<MCAD_POINT> pts;
 
-    MCAD_POINT* pts[3] = { &p0, &p1, &p2 };
-
-    int i = 0;
-    int j = 0;
+    for( int i = 0, j = 0; i < nCoeffs; ++i )
+    {
+        pts.push_back( MCAD_POINT( coeffs[j], coeffs[j + 1], coeffs[j + 2] ) );
+        j += ( 0 == PROP3 ) ? 4 : 3;
+    }
 
-    MCAD_POINT tnorm0;
-    MCAD_POINT tnorm1;
+    MCAD_POINT a;
+    MCAD_POINT n;
+    double la = 0.0;
+    double ln = 0.0;
 
-    for( i = 0; i < 3; ++i )
+    for( int i = 1; i < nCoeffs; ++i )
     {
-        pts[i]->x = coeffs[j++];
-        pts[i]->y = coeffs[j++];
-        pts[i]->z = coeffs[j++];
+        MCAD_POINT d = pts[i] - pts[0];
+        double l = sqrt( d.x*d.x + d.y*d.y + d.z*d.z );
 
-        if( 0 == PROP3 )
-            ++j;
+        if( l > la )
+        {
+            la = l;
+            a = d;
+        }
     }
 
-    CalcNormal( &p0, &p1, &p2, norm );
+    for( int i = 1; i < nCoeffs; ++i )
+    {
+        MCAD_POINT d = pts[i] - pts[0];
+        MCAD_POINT m( a.y * d.z - a.z * d.y, a.z * d.x - a.x * d.z, a.x * d.y - a.y * d.x );
+        double l = sqrt( m.x*m.x + m.y*m.y + m.z*m.z );
 
-    if( nCoeffs == 3 )
-        return true;
+        if( l > ln )
+        {
+            ln = l;
+            n = m;
+        }
+    }
 
-    tnorm0 = *norm;
-    MCAD_POINT* px;
+    norm->x = 0.0;
+    norm->y = 0.0;
+    norm->z = 1.0;
 
-    for( i = 3; i < nCoeffs; ++i )
-    {
-        px = pts[0];
-        pts[0] = pts[1];
-        pts[1] = pts[2];
-        pts[2] = px;
+    if( ln <= 1e-8 * la * la )
+        return false;
 
-        pts[2]->x = coeffs[j++];
-        pts[2]->y = coeffs[j++];
-        pts[2]->z = coeffs[j++];
+    n *= 1.0 / ln;
 
-        if( 0 == PROP3 )
-            ++j;
+    bool hasDir = false;
 
-        CalcNormal( pts[0], pts[1], pts[2], &tnorm1 );
+    for( int i = 1; i < nCoeffs; ++i )
+    {
+        MCAD_POINT d = pts[i] - pts[0];
 
-        if( !PointMatches( tnorm0, tnorm1, 1e-8 )
-            && !PointMatches( tnorm0, tnorm1 * -1.0, 1e-8 ) )
-        {
-            norm->x = 0.0;
-            norm->y = 0.0;
-            norm->z = 1.0;
+        if( fabs( n.x*d.x + n.y*d.y + n.z*d.z ) > 1e-8 * la )
             return false;
-        }
 
-        tnorm0 = tnorm1;
+        // the normal takes its direction from the first 3 points not on a line
+        if( !hasDir && i > 1 )
+        {
+            MCAD_POINT b = pts[i - 1] - pts[i - 2];
+            MCAD_POINT c = pts[i] - pts[i - 2];
+            double l = n.x * ( b.y*c.z - b.z*c.y ) + n.y * ( b.z*c.x - b.x*c.z )
+                + n.z * ( b.x*c.y - b.y*c.x );
+
+            if( fabs( l ) > 1e-8 * la * la )
+            {
+                hasDir = true;
+
+                if( l < 0.0 )
+                    n *= -1.0;
+            }
+        }
     }
 
+    *norm = n;
     return true;
 }
-- 
2.43.0


From 2a8594b826ffecd0a04332c4e1fc3714a161a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:24 +0000
Subject: [PATCH 133/143] fix: transforms with an invalid form were read

---
 src/entities/entity124.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 14766e3..648ba29 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -283,7 +283,7 @@ bool IGES_ENTITY_124::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     visible = true;                 // N.A., but true => Blank Status = 0
     hierarchy = STAT_HIER_ALL_SUB;  // field ignored
 
-    if( form != 0 && form != 1 && form < 10 && form > 12 )
+    if( form != 0 && form != 1 && ( form < 10 || form > 12 ) )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Transform\n";
         cerr << " + DE: " << aRecord->index << "\n";
-- 
2.43.0


From 03ec8874025093127d6a7e91d4fefc3f99b6a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:25 +0000
Subject: [PATCH 134/143] fix: retrieving the data of a B-spline surface
 dereferenced a NULL pointer

---
 src/entities/entity128.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index f15a75a..70d48a0 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -904,9 +904,16 @@ bool IGES_ENTITY_128::GetNURBSData( int& nCoeff1, int& nCoeff2,
     nCoeff2 = 0;
     order1 = 0 ;
     order2 = 0 ;
-    knot1 = NULL;
-    knot2 = NULL;
-    coeff = NULL;
+
+    if( !knot1 || !knot2 || !coeff )
+    {
+        ERRMSG << "\n + [INFO] invalid NURBS parameter pointer (NULL)\n";
+        return false;
+    }
+
+    *knot1 = NULL;
+    *knot2 = NULL;
+    *coeff = NULL;
 
     if( !knots1 )
         return false;
-- 
2.43.0


From 40c3fcc80e1c65042b34e87cb51a6905f5f47a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:25 +0000
Subject: [PATCH 135/143] fix: B-spline surfaces with decreasing knots or
 weights which cannot be read were accepted

---
 src/entities/entity128.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 70d48a0..ea4e12f 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -1026,6 +1026,33 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
         return false;
     }
 
+    for( int i = 0; i < lastKnot1; ++i )
+    {
+        if( !( knot1[i] <= knot1[i + 1] ) )
+        {
+            ERRMSG << "\n + [INFO] the knot values of parameter 1 decrease\n";
+            return false;
+        }
+    }
+
+    for( int i = 0; i < lastKnot2; ++i )
+    {
+        if( !( knot2[i] <= knot2[i + 1] ) )
+        {
+            ERRMSG << "\n + [INFO] the knot values of parameter 2 decrease\n";
+            return false;
+        }
+    }
+
+    for( int i = 0; isRational && i < nCoeff1 * nCoeff2; ++i )
+    {
+        if( !( coeff[i * 4 + 3] > 0.0 ) )
+        {
+            ERRMSG << "\n + [INFO] the weights must be positive\n";
+            return false;
+        }
+    }
+
     nKnots1 = nCoeff1 + order1;
     nKnots2 = nCoeff2 + order2;
     nCoeffs1 = nCoeff1;
-- 
2.43.0


From 57c9e6f2137668b4926592b94cf016d3bfa5b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 136/143] fix: IGES files depended on the C++ global locale and
 on the locale of the thread

---
 src/iges/iges.cpp         | 35 ++++--------------
 src/include/mcad_locale.h | 74 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 81 insertions(+), 28 deletions(-)
 create mode 100644 src/include/mcad_locale.h

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 779eb05..492e8b4 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -37,7 +37,7 @@
 //
 
 #include <libigesconf.h>
-#include <locale.h>
+#include <mcad_locale.h>
 #include <cstdlib>
 #include <cerrno>
 #include <sstream>
@@ -234,33 +234,8 @@ static bool checkDate( const std::string aDate )
 }
 
 
-// This class magically manages switching between the C locale and
-// the user's locale
-class IGES_LOCALE
-{
-private:
-    char locale[80];
-public:
-    IGES_LOCALE()
-    {
-        const char *cp = setlocale( LC_NUMERIC, NULL );
-        if (NULL != cp)
-        {
-            sprintf(locale, "%.79s", cp);
-        }
-        else
-        {
-            locale[0] = 0;
-        }
-
-        setlocale( LC_NUMERIC, "C" );     // switch the numerics locale to "C"
-    }
-
-    ~IGES_LOCALE()
-    {
-        setlocale( LC_NUMERIC, locale );  // revert to the current numerics default locale
-    }
-};
+// the locale is switched to "C" and back by instances of this class
+typedef MCAD_LOCALE IGES_LOCALE;
 
 
 IGES::IGES()
@@ -2674,6 +2649,8 @@ void IGES::GetNewPartName( std::string& name )
     struct tm date;
     gmtime_r( &now, &date );
 
+    IGES_LOCALE loc;
+
     // to reduce likelihood of name clashes, use partYYYYDDDHHMMSSnnnn
     ostringstream ostr;
     ostr << "part" << setw(4) << setfill('0') << (date.tm_year + 1900);
@@ -2694,6 +2671,8 @@ void IGES::GetNewAssemblyName( std::string& name )
     struct tm date;
     gmtime_r( &now, &date );
 
+    IGES_LOCALE loc;
+
     // to reduce likelihood of name clashes, use assyYYYYDDDHHMMSSnnnn
     ostringstream ostr;
     ostr << "assy" << setw(4) << setfill('0') << (date.tm_year + 1900);
diff --git a/src/include/mcad_locale.h b/src/include/mcad_locale.h
new file mode 100644
index 0000000..86a1e07
--- /dev/null
+++ b/src/include/mcad_locale.h
@@ -0,0 +1,74 @@
+/*
+ * file: mcad_locale.h
+ *
+ * Description: switches to the "C" locale within a scope; IGES and IDF
+ * files never depend on the locale of the user.
+ *
+ * This file is part of libIGES.
+ *
+ * libIGES is free software; you can redistribute it and/or
+ * modify it under the terms of the GNU Lesser General Public
+ * License as published by the Free Software Foundation; either
+ * version 2.1 of the License, or (at your option) any later version.
+ *
+ * libIGES is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU
+ * Lesser General Public License for more details.
+ *
+ */
+
+#ifndef MCAD_LOCALE_H
+#define MCAD_LOCALE_H
+
+#include <locale.h>
+#include <locale>
+#include <string>
+
+/**
+ * Class MCAD_LOCALE
+ * switches the locale of the C library, the global locale of the
+ * C++ library and, where there is one, the locale of the calling
+ * thread to "C" and restores them upon destruction
+ */
+class MCAD_LOCALE
+{
+private:
+    std::string m_clocale;
+    std::locale m_global;
+#ifdef LC_GLOBAL_LOCALE
+    locale_t m_thread;
+#endif
+
+    MCAD_LOCALE( const MCAD_LOCALE& );
+    MCAD_LOCALE& operator=( const MCAD_LOCALE& );
+
+public:
+    MCAD_LOCALE()
+    {
+#ifdef LC_GLOBAL_LOCALE
+        m_thread = uselocale( LC_GLOBAL_LOCALE );
+#endif
+        const char* cp = setlocale( LC_ALL, NULL );
+
+        if( NULL != cp )
+            m_clocale = cp;
+
+        // note: this switches the locale of the C library as well
+        m_global = std::locale::global( std::locale::classic() );
+    }
+
+    ~MCAD_LOCALE()
+    {
+        std::locale::global( m_global );
+
+        if( !m_clocale.empty() )
+            setlocale( LC_ALL, m_clocale.c_str() );
+
+#ifdef LC_GLOBAL_LOCALE
+        uselocale( m_thread );
+#endif
+    }
+};
+
+#endif  // MCAD_LOCALE_H
-- 
2.43.0


From cb84fac29a47a93683b3503144cca97d4cb28d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 137/143] fix: IDF files depended on the locale of the user

---
 src/idf/idf_parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 83bf562..6352d96 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -34,6 +34,7 @@
 #include <idf_parser.h>
 #include <idf_helpers.h>
 #include <geom/mcad_utils.h>
+#include <mcad_locale.h>
 
 using namespace std;
 using namespace IDF3;
@@ -1404,6 +1405,8 @@ IDF3_BOARD::~IDF3_BOARD()
 
 const std::string& IDF3_BOARD::GetNewRefDes( void )
 {
+    MCAD_LOCALE loc;
+
     ostringstream ostr;
     ostr << "NOREFDESn" << iRefDes++;
 
@@ -2761,6 +2764,8 @@ void IDF3_BOARD::readLibFile( const std::string& aFileName )
 
 bool IDF3_BOARD::ReadFile( const std::string& aFullFileName, bool aNoSubstituteOutlines )
 {
+    MCAD_LOCALE loc;
+
     // 1. Check that the file extension is 'emn'
     // 2. Check if a file with extension 'emp' exists and read it
     // 3. Open the specified filename and read it
@@ -3127,6 +3132,8 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
 bool IDF3_BOARD::WriteFile( const std::string& aFullFileName, bool aUnitMM, bool aForceUnitFlag )
 {
+    MCAD_LOCALE loc;
+
     if( aUnitMM )
         setUnit( IDF3::UNIT_MM, aForceUnitFlag );
     else
@@ -3805,6 +3812,8 @@ IDF3_COMPONENT* IDF3_BOARD::FindComponent( std::string aRefDes )
 // if the object doesn't exist
 IDF3_COMP_OUTLINE* IDF3_BOARD::GetComponentOutline( const std::string aFullFileName )
 {
+    MCAD_LOCALE loc;
+
     if( aFullFileName.empty() )
     {
         errormsg = "no file name was given";
-- 
2.43.0


From b0b22d4d85a280e0fdf5331c93c59cf46514fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:25 +0000
Subject: [PATCH 138/143] fix: exporting a model to itself lost it, and exports
 which failed or had nothing to package changed it

---
 src/iges/iges.cpp | 141 ++++++++++++++++++++++++++++++----------------
 1 file changed, 93 insertions(+), 48 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 492e8b4..451aaa9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1839,7 +1839,7 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
 
 bool IGES::ChangeModelScale( double aScale )
 {
-    if( aScale < 6.0e-8 )
+    if( !( aScale >= 6.0e-8 ) )
     {
         ERRMSG << "\n + [INFO] rejecting scale (< 6.0e-8)\n";
         return false;
@@ -2407,53 +2407,17 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         return false;
     }
 
-    if( entities.empty() )
-        return true;
-
-    // extract information from parent IGES
-    // + int maxLinewidthGrad
-    // + double modelScale
-    // + IGES_UNIT   unitsFlag
-    int maxLWG = newParent->globalData.maxLinewidthGrad;
-    double pms = newParent->globalData.modelScale;
-    IGES_UNIT pUF = newParent->globalData.unitsFlag;
-
-    if( globalData.unitsFlag != pUF
-        && ( UNIT_EXTERN == globalData.unitsFlag || UNIT_EXTERN == pUF ) )
+    if( this == newParent )
     {
-        ERRMSG << "\n + [INFO] cannot export between externally defined and other units\n";
+        ERRMSG << "\n + [BUG] Export() invoked with the IGES object itself\n";
         return false;
     }
 
-    if( globalData.modelScale != pms && !ChangeModelScale( pms ) )
-        return false;
-
-    if( globalData.unitsFlag != pUF && !ConvertUnits( pUF ) )
-        return false;
+    if( entities.empty() )
+        return true;
 
     size_t nEnt = entities.size();
 
-    // determine crude linewidth adjustment; the new linewidths are guaranteed to
-    // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
-    // for the new parent IGES and the IGES being merged.
-    double lws = double(maxLWG) / globalData.maxLinewidthGrad;
-    int llw;
-
-    for( size_t i = 0; i < nEnt; ++ i )
-    {
-        llw = entities[i]->lineWeightNum;
-
-        if( llw > 0 )
-        {
-            llw = (int)(double(llw) * lws);
-
-            if( llw == 0 )
-                llw = 1;
-        }
-
-        entities[i]->lineWeightNum = llw;
-    }
-
     // iterate through the list of entities and store lists of
     // + (a) top level Entity 144 (Trimmed Parametric Surfaces)
     // + (b) top level Entity 408 (Singular Subfigure Instance)
@@ -2505,6 +2469,76 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     if( tplist.empty() && sslist.empty() && brlist.empty() )
         return true;
 
+    // extract information from parent IGES
+    // + int maxLinewidthGrad
+    // + double modelScale
+    // + IGES_UNIT   unitsFlag
+    int maxLWG = newParent->globalData.maxLinewidthGrad;
+    double pms = newParent->globalData.modelScale;
+    IGES_UNIT pUF = newParent->globalData.unitsFlag;
+
+    if( globalData.unitsFlag != pUF
+        && ( UNIT_EXTERN == globalData.unitsFlag || UNIT_EXTERN == pUF ) )
+    {
+        ERRMSG << "\n + [INFO] cannot export between externally defined and other units\n";
+        return false;
+    }
+
+    if( UNIT_EXTERN == pUF && globalData.unitsName != newParent->globalData.unitsName )
+    {
+        ERRMSG << "\n + [INFO] cannot export between different externally defined units\n";
+        return false;
+    }
+
+    // nothing may be changed unless the conversions below can be completed
+    if( pUF < UNIT_INCH || pUF > UNIT_MICROINCH )
+    {
+        ERRMSG << "\n + [BUG] invalid unit (" << pUF << ")\n";
+        return false;
+    }
+
+    if( !( pms >= 6.0e-8 && pms <= 17000000.0 ) )
+    {
+        ERRMSG << "\n + [INFO] invalid model scale (" << pms << ")\n";
+        return false;
+    }
+
+    if( globalData.modelScale != pms && !ChangeModelScale( pms ) )
+        return false;
+
+    if( globalData.unitsFlag != pUF && !ConvertUnits( pUF ) )
+        return false;
+
+    // determine crude linewidth adjustment; the new linewidths are guaranteed to
+    // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
+    // for the new parent IGES and the IGES being merged. As in Write(), there
+    // is always at least 1 gradation.
+    if( maxLWG < 1 )
+        maxLWG = 1;
+
+    double lws = double(maxLWG) / max( 1, globalData.maxLinewidthGrad );
+    int llw;
+
+    for( size_t i = 0; i < nEnt; ++ i )
+    {
+        llw = entities[i]->lineWeightNum;
+
+        if( llw > 0 )
+        {
+            double dlw = double(llw) * lws;
+
+            if( dlw >= maxLWG )
+                llw = maxLWG;
+            else
+                llw = (int)dlw;
+
+            if( llw == 0 )
+                llw = 1;
+        }
+
+        entities[i]->lineWeightNum = llw;
+    }
+
     IGES_ENTITY* ep;
     IGES_ENTITY_308* p308;
 
@@ -2539,10 +2573,13 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer entity to Subfigure Definition\n";
-                ep = p308;
-                sEnt = sslist.begin();
+                eEnt = sEnt;
 
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
+                for( sEnt = sslist.begin(); sEnt != eEnt; ++sEnt )
+                {
+                    p308->DelDE( *sEnt );
+                    AddEntity( *sEnt );
+                }
 
                 newParent->DelEntity( ep );
                 return false;
@@ -2561,9 +2598,13 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer entity to Subfigure Definition\n";
-                sEnt = tplist.begin();
+                eEnt = sEnt;
 
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
+                for( sEnt = tplist.begin(); sEnt != eEnt; ++sEnt )
+                {
+                    p308->DelDE( *sEnt );
+                    AddEntity( *sEnt );
+                }
 
                 newParent->DelEntity( ep );
                 return false;
@@ -2582,9 +2623,13 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer MSBO entity to Subfigure Definition\n";
-                sEnt = brlist.begin();
+                eEnt = sEnt;
 
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
+                for( sEnt = brlist.begin(); sEnt != eEnt; ++sEnt )
+                {
+                    p308->DelDE( *sEnt );
+                    AddEntity( *sEnt );
+                }
 
                 newParent->DelEntity( ep );
                 return false;
-- 
2.43.0


From bddb578020d295452a268faf5d7d90cf7cef85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:25 +0000
Subject: [PATCH 139/143] fix: the names of exported parts were not unique
 within the receiving model

---
 src/iges/iges.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 451aaa9..6def05c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2677,7 +2677,25 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         if( string::npos != pos && pos > 0 )
             tname = tname.substr( 0, pos );
 
+        // the name must be unique within the receiving model
         p308->NAME = tname;
+        nEnt = newParent->entities.size();
+        int idx = 1;
+
+        for( size_t i = 0; i < nEnt; )
+        {
+            ep = newParent->entities[i++];
+
+            if( ep == p308 || ENT_SUBFIGURE_DEFINITION != ep->GetEntityType()
+                || ((IGES_ENTITY_308*)ep)->NAME != p308->NAME )
+                continue;
+
+            ostringstream ostr;
+            ostr.imbue( std::locale::classic() );
+            ostr << tname << "_" << ++idx;
+            p308->NAME = ostr.str();
+            i = 0;
+        }
     }
 
     entities.clear();
-- 
2.43.0


From 29039ce9f3a796b25ae8426cf14b823c748184fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 140/143] fix: coordinates in the units of a file were compared
 with its resolution in mm

---
 src/iges/iges.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 6def05c..039d3b7 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -597,6 +597,10 @@ bool IGES::Read( const char* aFileName )
     {
         for( iEnt = 0; iEnt < nEnt; ++iEnt )
             entities[iEnt]->rescale( globalData.cf );
+
+        // note: the resolution is converted last since the entities compare
+        // it with the coordinates of the file
+        globalData.minResolution *= globalData.cf;
     }
 
     Cull();
@@ -1525,7 +1529,6 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // apply a scale if the model scale is not 1.0
     if( globalData.modelScale < 0.9999998 || globalData.modelScale > 1.000001 )
     {
-        globalData.minResolution /= globalData.modelScale;
         globalData.cf = 1.0 / globalData.modelScale;
         globalData.modelScale = 1.0;
         globalData.convert = true;
@@ -1533,7 +1536,6 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
     if( globalData.unitsFlag != UNIT_MILLIMETER && globalData.unitsFlag != UNIT_EXTERN )
     {
-        globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
         globalData.unitsFlag = UNIT_MILLIMETER;
         globalData.convert = true;
-- 
2.43.0


From d7092c7b0da0479e8077296756ef7238e5891bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:53 +0000
Subject: [PATCH 141/143] fix: outlines with arcs which start or end at 0 or
 180 degrees except for noise could not be extruded

---
 src/geom/geom_cylinder.cpp      |  3 +--
 src/geom/iges_geom_pcb.cpp      |  8 +++---
 src/geom/mcad_helpers.cpp       | 44 +++++++++++++++++++++++++++++++++
 src/include/geom/mcad_helpers.h |  6 +++++
 4 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/src/geom/geom_cylinder.cpp b/src/geom/geom_cylinder.cpp
index 2b253bb..e860bd1 100644
--- a/src/geom/geom_cylinder.cpp
+++ b/src/geom/geom_cylinder.cpp
@@ -169,8 +169,7 @@ bool IGES_GEOM_CYLINDER::SetParams( MCAD_POINT center, MCAD_POINT start, MCAD_PO
     double ang2 = atan2( end.y - center.y, end.x - center.x );
 
     // ensure that the final angle is always > start angle
-    if( ang2 < ang1 )
-        ang2 += 2.0 * M_PI;
+    NormalizeArcAngles( ang1, ang2, radius );
 
     if( ang1 < 0.0 )
     {
diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index 4ab4a37..fbd4617 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -1202,6 +1202,8 @@ bool IGES_GEOM_PCB::getCurveArc( IGES* aModel, std::list<IGES_CURVE*>& aCurves,
         a1 = aSegment->GetMEAngle();
     }
 
+    NormalizeArcAngles( a0, a1, mradius );
+
     if( a0 >= 0.0 && a0 < M_PI )
     {
         if( a1 <= M_PI )
@@ -1670,11 +1672,7 @@ bool IGES_GEOM_PCB::copArc( IGES* aModel, std::list<IGES_ENTITY_126*>& aCurves,
         cpt[1] = 1.0 - cpt[1];
     }
 
-    if( sAng > M_PI )
-    {
-        sAng -= 2.0 * M_PI;
-        eAng -= 2.0 * M_PI;
-    }
+    NormalizeArcAngles( sAng, eAng, mradius );
 
     int na = 0; // number of arcs in the curve
     spt[0][0] = ptArc[0].x;
diff --git a/src/geom/mcad_helpers.cpp b/src/geom/mcad_helpers.cpp
index 8be0d6d..9b9c3d9 100644
--- a/src/geom/mcad_helpers.cpp
+++ b/src/geom/mcad_helpers.cpp
@@ -37,6 +37,50 @@
 using namespace std;
 
 
+// normalize the angles of an arc and suppress numeric noise
+void NormalizeArcAngles( double& a0, double& a1, double aRadius )
+{
+    while( a0 > M_PI )
+    {
+        a0 -= 2.0 * M_PI;
+        a1 -= 2.0 * M_PI;
+    }
+
+    while( a0 <= -M_PI )
+    {
+        a0 += 2.0 * M_PI;
+        a1 += 2.0 * M_PI;
+    }
+
+    while( a1 <= a0 )
+        a1 += 2.0 * M_PI;
+
+    double tol = 2e-8 / aRadius;
+    double n0 = floor( a0 / M_PI + 0.5 );
+    double n1 = floor( a1 / M_PI + 0.5 );
+    bool near0 = abs( a0 - n0 * M_PI ) <= tol;
+    bool near1 = abs( a1 - n1 * M_PI ) <= tol;
+
+    // do not suppress an entire arc
+    if( near0 && near1 && n0 == n1 )
+        return;
+
+    if( near0 )
+        a0 = n0 * M_PI;
+
+    if( near1 )
+        a1 = n1 * M_PI;
+
+    if( near0 && n0 < 0.0 )
+    {
+        a0 = M_PI;
+        a1 = near1 ? ( n1 + 2.0 ) * M_PI : a1 + 2.0 * M_PI;
+    }
+
+    return;
+}
+
+
 // return true if the 2 points match to within 'minRes'
 // or best effort if the numbers are big
 bool PointMatches( MCAD_POINT p1, MCAD_POINT p2, double minRes )
diff --git a/src/include/geom/mcad_helpers.h b/src/include/geom/mcad_helpers.h
index 745c4de..aeeff37 100644
--- a/src/include/geom/mcad_helpers.h
+++ b/src/include/geom/mcad_helpers.h
@@ -34,6 +34,12 @@
 // return true if the 2 points match to within 'minRes'
 MCAD_API bool PointMatches( MCAD_POINT p1, MCAD_POINT p2, double minRes );
 
+// given the angles of an arc which extends counterclockwise from a0 to a1,
+// adjust the angles so that -M_PI < a0 <= M_PI and a1 > a0; angles which
+// are a multiple of M_PI except for numeric noise are set to that multiple
+// to ensure that no insignificant arcs result when an arc is divided.
+MCAD_API void NormalizeArcAngles( double& a0, double& a1, double aRadius );
+
 // check and renormalize a vector; return false if vector is invalid
 MCAD_API bool CheckNormal(double& X, double &Y, double& Z);
 
-- 
2.43.0


From 5f55c85ad157b4ce4ab9e92f152c31900e195cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:53 +0000
Subject: [PATCH 142/143] fix: flat walls faced inward if the top was below the
 bottom

---
 src/geom/iges_geom_pcb.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index fbd4617..03d75af 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -1030,6 +1030,10 @@ bool IGES_GEOM_PCB::GetSegmentWall( IGES* aModel, std::vector<IGES_ENTITY_144*>&
         return false;
     }
 
+    // ensure that all walls face the same way as those of cylinders
+    if( aTopZ < aBotZ )
+        swap( aTopZ, aBotZ );
+
     if( !aSegment->GetSegType() )
     {
         ERRMSG << "\n + [ERROR] no model data to work with\n";
-- 
2.43.0


From c7ee7fc73b74d17f80941b90d3f16c549f037ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:53 +0000
Subject: [PATCH 143/143] fix: extruding an outline without a model crashed,
 and refused requests left surfaces in the model

---
 src/geom/iges_geom_pcb.cpp | 47 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index 03d75af..d9c9894 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -28,6 +28,7 @@
  */
 
 #include <sstream>
+#include <cfloat>
 #include <cmath>
 #include <core/iges.h>
 #include <error_macros.h>
@@ -192,6 +193,30 @@ bool IGES_GEOM_PCB::GetVerticalSurface( IGES* aModel, bool& error,
 {
     error = false;
 
+    if( NULL == aModel )
+    {
+        ostringstream msg;
+        GEOM_ERR( msg );
+        msg << "[ERROR] null pointer passed for IGES model";
+        ERRMSG << msg.str() << "\n";
+        errors.push_back( msg.str() );
+        error = true;
+        return false;
+    }
+
+    // note: the thickness must be acceptable to the vertical surfaces
+    // of every type of segment
+    if( !( abs( aTopZ - aBotZ ) >= 0.001 && abs( aTopZ - aBotZ ) <= DBL_MAX ) )
+    {
+        ostringstream msg;
+        GEOM_ERR( msg );
+        msg << "[ERROR] invalid heights (" << aTopZ << ", " << aBotZ << ")";
+        ERRMSG << msg.str() << "\n";
+        errors.push_back( msg.str() );
+        error = true;
+        return false;
+    }
+
     if( !mIsClosed )
     {
         ostringstream msg;
@@ -300,6 +325,28 @@ bool IGES_GEOM_PCB::GetTrimmedPlane( IGES* aModel, bool& error,
 {
     error = false;
 
+    if( NULL == aModel )
+    {
+        ostringstream msg;
+        GEOM_ERR( msg );
+        msg << "[ERROR] null pointer passed for IGES model";
+        ERRMSG << msg.str() << "\n";
+        errors.push_back( msg.str() );
+        error = true;
+        return false;
+    }
+
+    if( !( abs( aHeight ) <= DBL_MAX ) )
+    {
+        ostringstream msg;
+        GEOM_ERR( msg );
+        msg << "[ERROR] invalid height (" << aHeight << ")";
+        ERRMSG << msg.str() << "\n";
+        errors.push_back( msg.str() );
+        error = true;
+        return false;
+    }
+
     calcBoundingBox();
 
     if( !mIsClosed )
-- 
2.43.0


From 072117ae440d8f8b8d244ccad635b88eb0754221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 001/174] fix: decode \x escapes in decode_cstring as
 hexadecimal

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index d5486cb..931aba9 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -389,7 +389,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                               for (j = 0; j < 2 && i+2+j != str.end() && isxdigit(*(i+2+j)); ++j)
                                   buf[2+j] = *(i+2+j);
                               i += j;
-                              res += static_cast<char>(atoi(buf));
+                              res += static_cast<char>(strtoul(buf, nullptr, 16));
                               break;
                           }
                 default:
-- 
2.43.0


From 9bcc12dc337ba2ac169c06de48764a5ba7b7b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 002/174] fix: normpath of a relative path that goes above its
 start

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 931aba9..5055f0b 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -183,7 +183,7 @@ std::string normpath(const std::string& pathname)
     {
         if (i == "." || i.empty()) continue;
         if (i == "..")
-            if (st.back() == "..")
+            if (st.empty() || st.back() == "..")
                 st.emplace_back(i);
             else if (st.back() == "/")
                 continue;
-- 
2.43.0


From 2a922f6b632f7d275ced83efc75bc44e2effe8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 003/174] fix: read past the end of the base64 decoding table

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 5055f0b..f47fcc6 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -449,7 +449,7 @@ static char invbase64(const T& idx)
 {
     static const char data[] = {62,0,0,0,63,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,0,0,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
     if (idx < 43) return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data)/sizeof(data[0]))) return 0;
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data)/sizeof(data[0]))) return 0;
     return data[idx - 43];
 }
 
-- 
2.43.0


From 6fa64b87931f2a5aa26426ca38f880f0aaf21587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 004/174] fix: decode_url of a string that is only a percent
 sign

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index f47fcc6..cffdcf9 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -431,7 +431,7 @@ std::string decode_url(const std::string& str)
         if (str[i] == '%')
         {
             // If there's a partial %something at the end, ignore it
-            if (i >= str.size() - 2)
+            if (i + 2 >= str.size())
                 return res;
             res += static_cast<char>(strtoul(str.substr(i+1, 2).c_str(), nullptr, 16));
             i += 2;
-- 
2.43.0


From e398a8d8db568584df685206716858753359bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 005/174] fix: Split with skip_empty on strings made of
 separators and with an empty separator

---
 msat/utils/string.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index cffdcf9..ce85e9f 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -214,7 +214,11 @@ Split::const_iterator::const_iterator(const Split& split_)
     {
         // Ignore leading separators if skip_end is true
         if (split_.skip_empty) skip_separators();
-        ++*this;
+        if (split_.skip_empty && end == split_.str.size())
+            // There were only separators
+            this->split = nullptr;
+        else
+            ++*this;
     }
 }
 
@@ -235,6 +239,9 @@ void Split::const_iterator::skip_separators()
     const std::string& str = split->str;
     const std::string& sep = split->sep;
 
+    // An empty separator never produces empty tokens between characters
+    if (sep.empty()) return;
+
     while (end + sep.size() <= str.size())
     {
         unsigned i = 0;
-- 
2.43.0


From 70438d368d43048584753218c5bead5b3fcd71a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 006/174] fix: looking up the empty key in a dictionary
 dereferenced a null pointer

---
 msat/iniparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index 9625def..fc303a7 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -339,7 +339,7 @@ static char * dictionary_get(dictionary * d, char * key, char * def)
 
     hash = dictionary_hash(key);
     for (i=0 ; i<d->size ; i++) {
-        if (d->key==NULL)
+        if (d->key[i]==NULL)
             continue ;
         /* Compare hash */
         if (hash==d->hash[i]) {
-- 
2.43.0


From 1d0d8dd6da829a6f15ed61fccd2eea6ff0b04e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 007/174] fix: reading an entry without value as a number or
 boolean dereferenced a null pointer

---
 msat/iniparser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index fc303a7..b03d333 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -755,7 +755,7 @@ int iniparser_getint(dictionary * d, char * key, int notfound)
     char    *   str ;
 
     str = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (str==INI_INVALID_KEY) return notfound ;
+    if (str==INI_INVALID_KEY || str==NULL) return notfound ;
     return atoi(str);
 }
 
@@ -778,7 +778,7 @@ double iniparser_getdouble(dictionary * d, char * key, double notfound)
     char    *   str ;
 
     str = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (str==INI_INVALID_KEY) return notfound ;
+    if (str==INI_INVALID_KEY || str==NULL) return notfound ;
     return atof(str);
 }
 
@@ -822,7 +822,7 @@ int iniparser_getboolean(dictionary * d, char * key, int notfound)
     int         ret ;
 
     c = iniparser_getstring(d, key, INI_INVALID_KEY);
-    if (c==INI_INVALID_KEY) return notfound ;
+    if (c==INI_INVALID_KEY || c==NULL) return notfound ;
     if (c[0]=='y' || c[0]=='Y' || c[0]=='1' || c[0]=='t' || c[0]=='T') {
         ret = 1 ;
     } else if (c[0]=='n' || c[0]=='N' || c[0]=='0' || c[0]=='f' || c[0]=='F') {
-- 
2.43.0


From 298ab87143cf5cae09b11f7cea13560b9464ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 008/174] fix: the empty value "" in an ini file was read as
 two quotes

---
 msat/iniparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index b03d333..dedacca 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -948,14 +948,13 @@ dictionary * iniparser_new(char *ininame)
                    ||  sscanf (where, "%[^=] = '%[^\']'",   key, val) == 2
                    ||  sscanf (where, "%[^=] = %[^;#]",     key, val) == 2) {
                 strcpy(key, strlwc(strcrop(key)));
+                strcpy(val, strcrop(val));
                 /*
                  * sscanf cannot handle "" or '' as empty value,
                  * this is done here
                  */
                 if (!strcmp(val, "\"\"") || !strcmp(val, "''")) {
                     val[0] = (char)0;
-                } else {
-                    strcpy(val, strcrop(val));
                 }
                 iniparser_add_entry(d, sec, key, val);
             }
-- 
2.43.0


From 34838553a11a03a22fbe002df604f87c3e670528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 009/174] fix: keys without a section were lost when saving a
 dictionary

---
 msat/iniparser.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/msat/iniparser.c b/msat/iniparser.c
index dedacca..9296d77 100644
--- a/msat/iniparser.c
+++ b/msat/iniparser.c
@@ -645,7 +645,7 @@ void iniparser_dump(dictionary * d, FILE * f)
 void iniparser_dump_ini(dictionary * d, FILE * f)
 {
     int     i, j ;
-    char    keym[ASCIILINESZ+1];
+    char    keym[ASCIILINESZ+2];
     int     nsec ;
     char *  secname ;
     int     seclen ;
@@ -658,10 +658,18 @@ void iniparser_dump_ini(dictionary * d, FILE * f)
         for (i=0 ; i<d->size ; i++) {
             if (d->key[i]==NULL)
                 continue ;
-            fprintf(f, "%s = %s\n", d->key[i], d->val[i]);
+            fprintf(f, "%s = %s\n",
+                    d->key[i][0]==':' ? d->key[i]+1 : d->key[i],
+                    d->val[i] ? d->val[i] : "");
         }
         return ;
     }
+    /* Keys without a section must precede the first section */
+    for (j=0 ; j<d->size ; j++) {
+        if (d->key[j]==NULL || d->key[j][0]!=':')
+            continue ;
+        fprintf(f, "%-30s = %s\n", d->key[j]+1, d->val[j] ? d->val[j] : "");
+    }
     for (i=0 ; i<nsec ; i++) {
         secname = iniparser_getsecname(d, i) ;
         seclen  = (int)strlen(secname);
-- 
2.43.0


From f0cc2372615ee803cd7b583c69757210851d3dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 010/174] fix: an xRIT product ID longer than its field was cut
 to the name of another product

---
 msat/xrit/fileaccess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index ad68e24..ed170a7 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -38,7 +38,8 @@ namespace xrit {
 static std::string underscoreit(const std::string& base, int final_len)
 {
 	string res = base;
-	res.resize(final_len, '_');
+	if (res.size() < (size_t)final_len)
+		res.resize(final_len, '_');
 	return res;
 }
 
-- 
2.43.0


From 40d74ef20c9126e527efa73db6a354a15da0597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 011/174] fix: read outside the string on xRIT segment names
 with an empty field

---
 msat/xrit/fileaccess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index ed170a7..11454cd 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -45,6 +45,7 @@ static std::string underscoreit(const std::string& base, int final_len)
 
 static std::string deunderscore(const std::string& str)
 {
+    if (str.empty()) return str;
     size_t pos = str.size() - 1;
     while (pos > 0 && str[pos] == '_')
         --pos;
-- 
2.43.0


From cd8267ceee4143d988e8b63299216866197086d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 012/174] fix: xRIT files were not found in directories whose
 name has wildcard characters

---
 msat/xrit/fileaccess.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index 11454cd..59f20c2 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -22,6 +22,7 @@
 
 #include <msat/xrit/fileaccess.h>
 #include <glob.h>
+#include <cstring>
 #include <stdexcept>
 #include <sstream>
 
@@ -52,6 +53,19 @@ static std::string deunderscore(const std::string& str)
     return str.substr(0, pos + 1);
 }
 
+// Escape the characters that are special to glob()
+static std::string globescape(const std::string& str)
+{
+    string res;
+    for (char c: str)
+    {
+        if (strchr("\\*?[", c))
+            res += '\\';
+        res += c;
+    }
+    return res;
+}
+
 // dir/res:prodid1:prodid2:time
 bool isValid(const std::string& filename)
 {
@@ -182,7 +196,7 @@ void FileAccess::ensureComplete() const
 
 std::string FileAccess::prologueFile() const
 {
-  std::string filename = directory
+  std::string filename = globescape(directory)
 		       + PATH_SEPARATOR
 					 + resolution
 		       + "-" "???" "-" "??????" "-" // Split to avoid warnings on trigraphs
@@ -208,7 +222,7 @@ std::string FileAccess::prologueFile() const
 
 std::string FileAccess::epilogueFile() const
 {
-  std::string filename = directory
+  std::string filename = globescape(directory)
 		       + PATH_SEPARATOR
 					 + resolution
 		       + "-???" "-??????" "-"  // Split to avoid warnings on trigraphs
@@ -234,7 +248,7 @@ std::string FileAccess::epilogueFile() const
 
 std::vector<std::string> FileAccess::segmentFiles() const
 {
-    string filename = directory
+    string filename = globescape(directory)
         + PATH_SEPARATOR
         + resolution
         + "-???" "-??????" "-"  // Split to avoid warnings on trigraphs
-- 
2.43.0


From 1586cb45097770956e989a6f71c140b22924ccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 013/174] fix: errors in xRIT files aborted the process instead
 of throwing an exception

---
 msat/hrit/MSG_data.cpp                  | 19 ++++++++++---------
 msat/hrit/MSG_data_gts.cpp              |  3 ++-
 msat/hrit/MSG_data_image.cpp            |  3 ++-
 msat/hrit/MSG_data_key.cpp              |  3 ++-
 msat/hrit/MSG_data_text.cpp             |  3 ++-
 msat/hrit/MSG_header.cpp                | 25 +++++++++++++------------
 msat/hrit/MSG_header_ancillary_text.cpp |  5 +++--
 msat/hrit/MSG_header_image_datafunc.cpp |  5 +++--
 8 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 49a5d39..5a9a445 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <string>
 #include <fstream>
 #include <msat/hrit/MSG_data.h>
@@ -99,7 +100,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("invalid xRIT data field");
       }
 
       if (header.image_structure->compression_flag == MSG_NO_COMPRESSION)
@@ -129,7 +130,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("invalid xRIT data field");
       }
       gts_message = new MSG_data_gts;
       dpos = gts_message->read_from(dbuff, dsize);
@@ -150,7 +151,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("invalid xRIT data field");
       }
       text_message = new MSG_data_text;
       dpos = text_message->read_from(dbuff, dsize);
@@ -166,7 +167,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("invalid xRIT data field");
       }
       key_message = new MSG_data_key;
       dpos = key_message->read_from(dbuff, dsize);
@@ -181,7 +182,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("invalid xRIT data field");
       }
 
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
@@ -237,7 +238,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("invalid xRIT data field");
       }
 
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
@@ -274,7 +275,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("invalid xRIT data field");
       }
       {
         std::ofstream os;
@@ -283,7 +284,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
         outname += ".bin";
         os.open(outname.c_str( ));
         if (!os.good())
-          throw;
+          throw std::runtime_error("invalid xRIT data field");
         os.write((char *) dbuff, (size_t) dsize);
         os.close( );
       }
@@ -291,7 +292,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     default:
       std::cerr << "Unknown MSG file type " << header.f_typecode << std::endl;
-      throw;
+      throw std::runtime_error("invalid xRIT data field");
       break;
   }
 
diff --git a/msat/hrit/MSG_data_gts.cpp b/msat/hrit/MSG_data_gts.cpp
index 6c276f4..cd23257 100644
--- a/msat/hrit/MSG_data_gts.cpp
+++ b/msat/hrit/MSG_data_gts.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <fstream>
 #include <cstring>
 #include <msat/hrit/MSG_data_gts.h>
@@ -53,7 +54,7 @@ size_t MSG_data_gts::read_from( unsigned const char_1 *buff, size_t datasize )
   if (msize == 0 || msize > (MSG_MAX_GTS_MESSAGE_SIZE*MSG_MAX_GTS_MESSAGES))
   {
     std::cerr << "Invalid GTS message(s) size." << std::endl;
-    throw;
+    throw std::runtime_error("cannot decode xRIT data");
   }
 
   mbuff = new unsigned char_1[msize];
diff --git a/msat/hrit/MSG_data_image.cpp b/msat/hrit/MSG_data_image.cpp
index b642b75..395de23 100644
--- a/msat/hrit/MSG_data_image.cpp
+++ b/msat/hrit/MSG_data_image.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <vector>
 #include <cstring>
 
@@ -64,7 +65,7 @@ void MSG_data_image_encoded::decode( MSG_data_image *dec )
       break;
     default:
       std::cerr << "Unknown compression used." << std::endl;
-      throw;
+      throw std::runtime_error("unknown xRIT image compression");
   }
 
   COMP::CImage cimg(udata);
diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 2671d73..616f59f 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <cstring>
 #include <msat/hrit/MSG_data_key.h>
 
@@ -52,7 +53,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   if (nkeys > MSG_MAX_NUMBER_KEY_MESSAGES || nkeys <= 0)
   {
     std::cerr << "Key message number or size invalid." << std::endl;
-    throw;
+    throw std::runtime_error("cannot decode xRIT data");
   }
 
   keys = new MSG_encryption_key[nkeys];
diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index 8ee630d..8e4246d 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <fstream>
 #include <cstring>
 #include <msat/hrit/MSG_data_text.h>
@@ -53,7 +54,7 @@ size_t MSG_data_text::read_from( unsigned const char_1 *buff, size_t datasize )
   if (tsize == 0)
   {
     std::cerr << "Invalid TEXT message size." << std::endl;
-    throw;
+    throw std::runtime_error("cannot decode xRIT data");
   }
 
   tbuff = new unsigned char_1[tsize];
diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 898b67c..041ecb6 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <cstring>
 
 #include <msat/hrit/MSG_header.h>
@@ -81,18 +82,18 @@ void MSG_header::read_from( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Primary Header." << std::endl;
-    throw;
+    throw std::runtime_error("invalid xRIT header");
   }
   if (primary_header[0] != MSG_HEADER_PRIMARY)
   {
     std::cerr << "Error: First header type value is not primary." << std::endl;
-    throw;
+    throw std::runtime_error("invalid xRIT header");
   }
   if (get_ui2(primary_header+1) != MSG_HEADER_PRIMARY_LEN)
   {
     std::cerr << "Error: Primary Header Length mismatch." << std::endl;
     std::cerr << "Header Length: " << get_ui2(primary_header+1) << std::endl;
-    throw;
+    throw std::runtime_error("invalid xRIT header");
   }
   f_typecode = (t_enum_MSG_filetype) *(primary_header+3);
   total_header_length = get_ui4(primary_header+4);
@@ -104,13 +105,13 @@ void MSG_header::read_from( std::ifstream &in )
   {
     std::cerr << "Memory allocation error in MSG_header." << std::endl
               << "Requested allocation of " << hsize << " bytes." << std::endl;
-    throw;
+    throw std::runtime_error("invalid xRIT header");
   }
   in.read((char_1 *) hbuff, hsize);
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Header body" << std::endl;
-    throw;
+    throw std::runtime_error("invalid xRIT header");
   }
   unsigned char_1 *pnt = hbuff;
   size_t left = hsize;
@@ -125,7 +126,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Structure Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("invalid xRIT header");
         }
         image_structure = new MSG_header_image_struct;
         image_structure->read_from(pnt);
@@ -137,7 +138,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Navigation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("invalid xRIT header");
         }
         image_navigation = new MSG_header_image_navig;
         image_navigation->read_from(pnt);
@@ -156,7 +157,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Annotation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("invalid xRIT header");
         }
         annotation = new MSG_header_annotation;
         annotation->read_from(pnt);
@@ -168,7 +169,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Timestamp Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("invalid xRIT header");
         }
         timestamp = new MSG_header_timestamp;
         timestamp->read_from(pnt);
@@ -187,7 +188,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Key Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("invalid xRIT header");
         }
         key = new MSG_header_key;
         key->read_from(pnt);
@@ -199,7 +200,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Segment Id Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("invalid xRIT header");
         }
         segment_id = new MSG_header_segment_id;
         segment_id->read_from(pnt);
@@ -216,7 +217,7 @@ void MSG_header::read_from( std::ifstream &in )
       default:
         std::cerr << "Unknown header type: " << (uint_2) *pnt << std::endl;
         std::cerr << "Unparsed " << left << " bytes." << std::endl;
-        throw;
+        throw std::runtime_error("invalid xRIT header");
         break;
       }
    }
diff --git a/msat/hrit/MSG_header_ancillary_text.cpp b/msat/hrit/MSG_header_ancillary_text.cpp
index 70e5ef9..7a5b948 100644
--- a/msat/hrit/MSG_header_ancillary_text.cpp
+++ b/msat/hrit/MSG_header_ancillary_text.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <cstring>
 
 #include <msat/hrit/MSG_header_ancillary_text.h>
@@ -56,14 +57,14 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
   {
     std::cerr << "Error: Data Function Header length invalid." << std::endl;
     std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
+    throw std::runtime_error("invalid xRIT ancillary text header");
   }
   ancillary_text = new char_1[h_length];
   if (!ancillary_text)
   {
     std::cerr << "Memory error in MSG_header_ancillary_text." << std::endl;
     std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
+    throw std::runtime_error("invalid xRIT ancillary text header");
   }
   memcpy(ancillary_text, buff+3, h_length);
   return;
diff --git a/msat/hrit/MSG_header_image_datafunc.cpp b/msat/hrit/MSG_header_image_datafunc.cpp
index f351e92..0f77154 100644
--- a/msat/hrit/MSG_header_image_datafunc.cpp
+++ b/msat/hrit/MSG_header_image_datafunc.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <cstring>
 #include <msat/hrit/MSG_header_image_datafunc.h>
 
@@ -49,14 +50,14 @@ void MSG_header_image_datafunc::read_from( unsigned const char_1 *buff )
   {
     std::cerr << "Error: Data Function Header length invalid." << std::endl;
     std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
+    throw std::runtime_error("invalid xRIT image data function header");
   }
   char_1 *tmpchar = new char_1[h_length];
   if (!tmpchar)
   {
     std::cerr << "Memory error in MSG_header_image_datafunc." << std::endl;
     std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
+    throw std::runtime_error("invalid xRIT image data function header");
   }
   memcpy(tmpchar, buff+3, h_length-1);
   tmpchar[h_length-1] = 0;
-- 
2.43.0


From 8f9a856aa6a5c11ca437ec79aac00a7257257efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 014/174] fix: wrong lengths in xRIT headers made the reader
 loop or read outside its buffer

---
 msat/hrit/MSG_header.cpp | 34 ++++++++++++++++++++++++++++------
 msat/hrit/MSG_header.h   |  3 +++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 041ecb6..cdbb037 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -29,6 +29,7 @@
 
 #include <stdexcept>
 #include <cstring>
+#include <vector>
 
 #include <msat/hrit/MSG_header.h>
 
@@ -72,6 +73,16 @@ MSG_header::~MSG_header( )
   if (segment_quality) delete segment_quality;
 }
 
+size_t MSG_bytes_left( std::ifstream &in )
+{
+  std::ifstream::pos_type pos = in.tellg( );
+  in.seekg(0, std::ios_base::end);
+  std::ifstream::pos_type end = in.tellg( );
+  in.seekg(pos);
+  if (in.fail( ) || end < pos) return 0;
+  return end - pos;
+}
+
 void MSG_header::read_from( std::ifstream &in )
 {
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
@@ -99,14 +110,20 @@ void MSG_header::read_from( std::ifstream &in )
   total_header_length = get_ui4(primary_header+4);
   data_field_length   = get_ui8(primary_header+8);
   filesize = data_field_length/8+total_header_length;
+  if (total_header_length < MSG_HEADER_PRIMARY_LEN)
+  {
+    std::cerr << "Error: Total Header Length mismatch." << std::endl;
+    std::cerr << "Header Length: " << total_header_length << std::endl;
+    throw std::runtime_error("invalid xRIT header");
+  }
   size_t hsize = total_header_length-MSG_HEADER_PRIMARY_LEN;
-  hbuff = new unsigned char_1[hsize];
-  if (!hbuff)
+  if (hsize > MSG_bytes_left(in))
   {
-    std::cerr << "Memory allocation error in MSG_header." << std::endl
-              << "Requested allocation of " << hsize << " bytes." << std::endl;
+    std::cerr << "Error: the file is shorter than its header." << std::endl;
     throw std::runtime_error("invalid xRIT header");
   }
+  std::vector<unsigned char_1> header_body(hsize);
+  hbuff = header_body.data();
   in.read((char_1 *) hbuff, hsize);
   if (in.fail( ))
   {
@@ -119,6 +136,12 @@ void MSG_header::read_from( std::ifstream &in )
   size_t hqlen = 0;
   while (left)
   {
+    // Every record starts with its type and its length
+    if (left < 3 || get_ui2(pnt+1) < 3 || get_ui2(pnt+1) > left)
+    {
+      std::cerr << "Error: Header record length mismatch." << std::endl;
+      throw std::runtime_error("invalid xRIT header");
+    }
     switch(*pnt)
     {
       case MSG_HEADER_IMAGE_STRUCTURE:
@@ -221,8 +244,7 @@ void MSG_header::read_from( std::ifstream &in )
         break;
       }
    }
-   delete [ ] hbuff;
-   return;
+    return;
 }
 
 std::ostream& operator<< ( std::ostream& os, MSG_header &h )
diff --git a/msat/hrit/MSG_header.h b/msat/hrit/MSG_header.h
index 7fa84ad..6c23533 100644
--- a/msat/hrit/MSG_header.h
+++ b/msat/hrit/MSG_header.h
@@ -70,6 +70,9 @@ typedef enum {
 #define MSG_KEY_LEN                12
 #define MSG_SEGMENT_ID_LEN         13
 
+/// Number of bytes between the current position and the end of the file
+size_t MSG_bytes_left( std::ifstream &in );
+
 class MSG_header {
   public:
     MSG_header( );
-- 
2.43.0


From b60821add2cced44f4a7d8eaab61d427a11a54c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 015/174] fix: segment quality header before, without or longer
 or shorter than the image structure

---
 msat/hrit/MSG_header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index cdbb037..7d345d1 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -232,8 +232,8 @@ void MSG_header::read_from( std::ifstream &in )
         break;
       case MSG_HEADER_IMAGE_SEGMENT_LINE_QUALITY:
         segment_quality = new MSG_header_segment_quality;
-        segment_quality->read_from(pnt, image_structure->number_of_lines);
         hqlen = get_ui2(pnt+1);
+        segment_quality->read_from(pnt, (hqlen-3)/MSG_SEGMENT_QUALITY_RECORD_LEN);
         pnt = pnt + hqlen;
         left = left - hqlen;
         break;
-- 
2.43.0


From 364f2dd913267c028054f34d012b95d947891042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 016/174] fix: header records of the file read before stayed in
 the header object

---
 msat/hrit/MSG_header.cpp | 46 +++++++++++++++++++++++++++++++---------
 msat/hrit/MSG_header.h   |  3 +++
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 7d345d1..bb57f5f 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -62,15 +62,29 @@ MSG_header::MSG_header( std::ifstream &in )
 
 MSG_header::~MSG_header( )
 {
-  if (image_structure) delete image_structure;
-  if (image_navigation) delete image_navigation;
-  if (image_data_function) delete image_data_function;
-  if (annotation) delete annotation;
-  if (timestamp) delete timestamp;
-  if (ancillary_text) delete ancillary_text;
-  if (key) delete key;
-  if (segment_id) delete segment_id;
-  if (segment_quality) delete segment_quality;
+  clear( );
+}
+
+void MSG_header::clear( )
+{
+  delete image_structure;
+  image_structure = 0;
+  delete image_navigation;
+  image_navigation = 0;
+  delete image_data_function;
+  image_data_function = 0;
+  delete annotation;
+  annotation = 0;
+  delete timestamp;
+  timestamp = 0;
+  delete ancillary_text;
+  ancillary_text = 0;
+  delete key;
+  key = 0;
+  delete segment_id;
+  segment_id = 0;
+  delete segment_quality;
+  segment_quality = 0;
 }
 
 size_t MSG_bytes_left( std::ifstream &in )
@@ -88,6 +102,9 @@ void MSG_header::read_from( std::ifstream &in )
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
   unsigned char_1 *hbuff;
 
+  // Forget the records of a file read before
+  clear( );
+
   check_endianess( );
   in.read((char_1 *) primary_header, MSG_HEADER_PRIMARY_LEN);
   if (in.fail( ))
@@ -151,6 +168,7 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("invalid xRIT header");
         }
+        delete image_structure;
         image_structure = new MSG_header_image_struct;
         image_structure->read_from(pnt);
         pnt = pnt + MSG_IMAGE_STRUCTURE_LEN;
@@ -163,6 +181,7 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("invalid xRIT header");
         }
+        delete image_navigation;
         image_navigation = new MSG_header_image_navig;
         image_navigation->read_from(pnt);
         pnt = pnt + MSG_IMAGE_NAVIGATION_LEN;
@@ -170,6 +189,7 @@ void MSG_header::read_from( std::ifstream &in )
         break;
       case MSG_HEADER_IMAGE_DATA_FUNCTION:
         hunk_size = (size_t) get_ui2(pnt+1);
+        delete image_data_function;
         image_data_function = new MSG_header_image_datafunc;
         image_data_function->read_from(pnt);
         pnt = pnt + hunk_size;
@@ -182,6 +202,7 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("invalid xRIT header");
         }
+        delete annotation;
         annotation = new MSG_header_annotation;
         annotation->read_from(pnt);
         pnt = pnt + MSG_ANNOTATION_LEN;
@@ -194,6 +215,7 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("invalid xRIT header");
         }
+        delete timestamp;
         timestamp = new MSG_header_timestamp;
         timestamp->read_from(pnt);
         pnt = pnt + MSG_TIMESTAMP_LEN;
@@ -201,6 +223,7 @@ void MSG_header::read_from( std::ifstream &in )
         break;
       case MSG_HEADER_ANCILLARY_TEXT:
         hunk_size = (size_t) get_ui2(pnt+1);
+        delete ancillary_text;
         ancillary_text = new MSG_header_ancillary_text;
         ancillary_text->read_from(pnt);
         pnt = pnt + hunk_size;
@@ -213,6 +236,7 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("invalid xRIT header");
         }
+        delete key;
         key = new MSG_header_key;
         key->read_from(pnt);
         pnt = pnt + MSG_KEY_LEN;
@@ -225,12 +249,14 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("invalid xRIT header");
         }
+        delete segment_id;
         segment_id = new MSG_header_segment_id;
         segment_id->read_from(pnt);
         pnt = pnt + MSG_SEGMENT_ID_LEN;
         left = left - MSG_SEGMENT_ID_LEN;
         break;
       case MSG_HEADER_IMAGE_SEGMENT_LINE_QUALITY:
+        delete segment_quality;
         segment_quality = new MSG_header_segment_quality;
         hqlen = get_ui2(pnt+1);
         segment_quality->read_from(pnt, (hqlen-3)/MSG_SEGMENT_QUALITY_RECORD_LEN);
@@ -244,7 +270,7 @@ void MSG_header::read_from( std::ifstream &in )
         break;
       }
    }
-    return;
+  return;
 }
 
 std::ostream& operator<< ( std::ostream& os, MSG_header &h )
diff --git a/msat/hrit/MSG_header.h b/msat/hrit/MSG_header.h
index 6c23533..72ade3a 100644
--- a/msat/hrit/MSG_header.h
+++ b/msat/hrit/MSG_header.h
@@ -97,6 +97,9 @@ class MSG_header {
     MSG_header_key *key;
     MSG_header_segment_id *segment_id;
     MSG_header_segment_quality *segment_quality;
+
+  private:
+    void clear( );
 };
 
 #endif
-- 
2.43.0


From b0fe436c1830ad111ccaf766e4dcfcf364aa0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 017/174] fix: reading a polar projection dereferenced a null
 pointer

---
 msat/hrit/MSG_header_image_navig.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/msat/hrit/MSG_header_image_navig.cpp b/msat/hrit/MSG_header_image_navig.cpp
index 93805dc..a7cf55b 100644
--- a/msat/hrit/MSG_header_image_navig.cpp
+++ b/msat/hrit/MSG_header_image_navig.cpp
@@ -66,14 +66,9 @@ void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
   }
   else if (projection_name[0] == 'P' && projection_name[1] == 'O')
   {
-    char_1 *tmp;
     projection_name[5] = 0;
     pname = projection_name;
-    tmp = strchr(projection_name+6, ',');
-    *(tmp) = 0;
-    sscanf(projection_name+6, "%f", &projection_plane);
-    *(strchr(tmp, ')')) = 0;
-    sscanf(tmp, "%f", &projection_longitude);
+    sscanf(projection_name+6, "%f,%f", &projection_plane, &projection_longitude);
   }
   else if (projection_name[0] == 'P' && projection_name[1] == 'S')
     pname = "PSD";
-- 
2.43.0


From 50c9c8ae0ba9cde7ff35083d70a230d126dddb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 018/174] fix: unterminated text in navigation and ancillary
 text headers

---
 msat/hrit/MSG_header_ancillary_text.cpp | 3 ++-
 msat/hrit/MSG_header_image_navig.cpp    | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_header_ancillary_text.cpp b/msat/hrit/MSG_header_ancillary_text.cpp
index 7a5b948..4f5c84e 100644
--- a/msat/hrit/MSG_header_ancillary_text.cpp
+++ b/msat/hrit/MSG_header_ancillary_text.cpp
@@ -59,7 +59,7 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
     std::cerr << "Header Length : " << h_length << std::endl;
     throw std::runtime_error("invalid xRIT ancillary text header");
   }
-  ancillary_text = new char_1[h_length];
+  ancillary_text = new char_1[h_length+1];
   if (!ancillary_text)
   {
     std::cerr << "Memory error in MSG_header_ancillary_text." << std::endl;
@@ -67,6 +67,7 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
     throw std::runtime_error("invalid xRIT ancillary text header");
   }
   memcpy(ancillary_text, buff+3, h_length);
+  ancillary_text[h_length] = 0;
   return;
 }
 
diff --git a/msat/hrit/MSG_header_image_navig.cpp b/msat/hrit/MSG_header_image_navig.cpp
index a7cf55b..417b2c5 100644
--- a/msat/hrit/MSG_header_image_navig.cpp
+++ b/msat/hrit/MSG_header_image_navig.cpp
@@ -46,8 +46,12 @@ MSG_header_image_navig::~MSG_header_image_navig( ) { }
 
 void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
 {
-  char_1 projection_name[32];
+  char_1 projection_name[33];
   memcpy(projection_name, buff+3, 32);
+  projection_name[32] = 0;
+  subsatellite_longitude = 0;
+  projection_plane = 0;
+  projection_longitude = 0;
   column_scaling_factor = get_i4(buff+35);
   CFAC                  = column_scaling_factor;
   line_scaling_factor   = get_i4(buff+39);
-- 
2.43.0


From 832bebe61373ebeef7c218c6ade915ef6678b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 019/174] fix: integer overflow in the pixel count of large
 images

---
 msat/hrit/MSG_header_image_struct.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_header_image_struct.cpp b/msat/hrit/MSG_header_image_struct.cpp
index 9097f13..6fa8ec9 100644
--- a/msat/hrit/MSG_header_image_struct.cpp
+++ b/msat/hrit/MSG_header_image_struct.cpp
@@ -46,7 +46,7 @@ void MSG_header_image_struct::read_from( unsigned const char_1 *buff )
   number_of_columns         = get_ui2(buff+4);
   number_of_lines           = get_ui2(buff+6);
   compression_flag          = (t_enum_MSG_image_compression) buff[8];
-  image_pixels              = number_of_columns * number_of_lines;
+  image_pixels              = (uint_8) number_of_columns * number_of_lines;
   image_size                = (image_pixels*number_of_bits_per_pixel) / 8;
   if ((image_pixels*number_of_bits_per_pixel) % 8) image_size ++;
   return;
-- 
2.43.0


From 203329c0e31cf5582958475b0426c20bb237653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 020/174] fix: generalized times were converted as local times

---
 msat/hrit/MSG_time_cds.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index d47337a..a2845fc 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -349,7 +349,9 @@ size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 
 time_t MSG_time_generalized::get_unixtime( )
 {
-  return mktime(&generalized_time);
+  // The time is UTC, and timegm normalises its argument
+  struct tm t = generalized_time;
+  return timegm(&t);
 }
 
 struct tm *MSG_time_generalized::get_timestruct( )
-- 
2.43.0


From 2b6f3326b60985d1a0a5dc687f099bf72c807cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 021/174] fix: generalized times were parsed past the end of
 their field

---
 msat/hrit/MSG_time_cds.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index a2845fc..45385c9 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -338,7 +338,10 @@ MSG_time_generalized::~MSG_time_generalized( ) { }
 
 size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 {
-  sscanf((char *) buff, "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
+  char_1 text[16];
+  memcpy(text, buff, 15);
+  text[15] = 0;
+  sscanf(text, "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
          &generalized_time.tm_mon,  &generalized_time.tm_mday,
          &generalized_time.tm_hour, &generalized_time.tm_min,
          &generalized_time.tm_sec);
-- 
2.43.0


From 3bea331f7dbbfe2bba0edb08c4f90894ef08fa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 022/174] fix: get_timechar returned a pointer to freed memory

---
 msat/hrit/MSG_time_cds.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index 45385c9..3c9c537 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -32,6 +32,14 @@
 #include <cmath>
 #include <cstdio>
 
+// Static copy of a time string, valid until the next call
+static char_1 *time_buffer(const std::string &timestring)
+{
+  static char_1 buffer[128];
+  strncpy(buffer, timestring.c_str( ), sizeof(buffer) - 1);
+  return buffer;
+}
+
 MSG_time_cds_short::MSG_time_cds_short( )
 {
   day_from_epoch = 0;
@@ -122,7 +130,7 @@ std::string MSG_time_cds_short::get_timestring( ) const
 
 char_1 *MSG_time_cds_short::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  return time_buffer(get_timestring( ));
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_short &h )
@@ -247,7 +255,7 @@ std::string MSG_time_cds_expanded::get_timestring( ) const
 
 char_1 *MSG_time_cds_expanded::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  return time_buffer(get_timestring( ));
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_expanded &h )
@@ -310,7 +318,7 @@ std::string MSG_time_cds::get_timestring( ) const
 
 char_1 *MSG_time_cds::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  return time_buffer(get_timestring( ));
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds &h )
@@ -382,7 +390,7 @@ std::string MSG_time_generalized::get_timestring( ) const
 
 char_1 *MSG_time_generalized::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  return time_buffer(get_timestring( ));
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_generalized &h )
-- 
2.43.0


From e100fa75e686d3cd7e6865b52c8ad6b13180a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 023/174] fix: spin rate of landmark observations was read two
 bytes too far

---
 msat/hrit/MSG_data_NavigExtrResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_NavigExtrResult.cpp b/msat/hrit/MSG_data_NavigExtrResult.cpp
index ee26189..dcf99b7 100644
--- a/msat/hrit/MSG_data_NavigExtrResult.cpp
+++ b/msat/hrit/MSG_data_NavigExtrResult.cpp
@@ -124,7 +124,7 @@ size_t MSG_LandmarkObservation::read_from( unsigned const char_1 *buff )
   Beta = get_r8(buff+34);
   BetaConfidence = get_r8(buff+42);
   (void) ObservationTime.read_from(buff+50);
-  SpinRate = get_r8(buff+60);
+  SpinRate = get_r8(buff+58);
   AlphaDeviation = get_r8(buff+66);
   BetaDeviation = get_r8(buff+74);
   return 82;
-- 
2.43.0


From f3e1320f4d8595d4c37b9e1ceb94126260fab1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 024/174] fix: resampling function of all channels was the one
 of the first

---
 msat/hrit/MSG_data_GeometricProc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_GeometricProc.cpp b/msat/hrit/MSG_data_GeometricProc.cpp
index b5876f9..7944a72 100644
--- a/msat/hrit/MSG_data_GeometricProc.cpp
+++ b/msat/hrit/MSG_data_GeometricProc.cpp
@@ -126,7 +126,7 @@ size_t MSG_data_GeometricProc::read_from( unsigned const char_1 *buff)
       AtmosphericModel[i][j] = get_r4(buff+position+(i*360+j)*4);
   position += 12*360*4;
   for (int i = 0; i < 12; i ++)
-    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position);
+    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position+i);
   position += 12;
   return position;
 }
-- 
2.43.0


From da9f0aba13155a40d0702278120fce7872480a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 025/174] fix: DCR values were copied from the wrong place over
 the fields that follow

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 10 +++++++---
 msat/hrit/MSG_data_RadiometricProc.h   |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 7c31d29..85c7d25 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -361,8 +361,12 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   for (int i = 0; i < 15; i ++)
     PUBias[i] = get_ui2(buff+position+i*2);
   position += 15*2;
-  memcpy(DCRValues, buff, 63);
-  position += 63;
+  for (int i = 0; i < MSG_DCR_VALUES; i ++)
+  {
+    unsigned const char_1 *b = buff+position+i*12/8;
+    DCRValues[i].Value = i % 2 ? (b[0] & 0x0f) << 8 | b[1] : b[0] << 4 | b[1] >> 4;
+  }
+  position += MSG_DCR_VALUES_LEN;
   XDeepSpaceWindowPosition = (t_enum_MSG_DeepSpace_Window_Position)
                              *(buff+position);
   position += 1;
@@ -442,7 +446,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_BlackBodyDataUsed &b )
   for (int i = 0; i < 15; i ++)
     os << "PU Bias " << std::setw(2) << std::setfill('0') << i+1
        << "         : " << b.PUBias[i] << std::endl;
-  for (int i = 0; i < 12; i ++)
+  for (int i = 0; i < MSG_DCR_VALUES; i ++)
     os << "DCR Values " << std::setw(2) << std::setfill('0') << i+1
        << "       : "
        << std::setw(3) << std::setfill('0') << std::hex << b.DCRValues[i].Value
diff --git a/msat/hrit/MSG_data_RadiometricProc.h b/msat/hrit/MSG_data_RadiometricProc.h
index 72af7b7..c11d459 100644
--- a/msat/hrit/MSG_data_RadiometricProc.h
+++ b/msat/hrit/MSG_data_RadiometricProc.h
@@ -112,6 +112,10 @@ typedef struct {
   uint_2 Value:12;
 } __attribute__((packed)) t_MSG_DCR_Value;
 
+// DCR values are stored as 12 bit numbers, one per detector
+#define MSG_DCR_VALUES     42
+#define MSG_DCR_VALUES_LEN 63
+
 typedef struct {
   uint_2 status:16;
 } __attribute__((packed)) t_MSG_SMMStatus;
@@ -131,7 +135,7 @@ class MSG_BlackBodyDataUsed {
     uint_2                               PUGain[42];
     uint_2                               PUOffset[27];
     uint_2                               PUBias[15];
-    t_MSG_DCR_Value                      DCRValues[12];
+    t_MSG_DCR_Value                      DCRValues[MSG_DCR_VALUES];
     t_enum_MSG_DeepSpace_Window_Position XDeepSpaceWindowPosition;
     uint_2                               FCUNominalColdFocalPlaneTemp;
     uint_2                               FCURedundantColdFocalPlaneTemp;
-- 
2.43.0


From 8ee782122428f48f7da151dd5d28f415fdfca4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 026/174] fix: SMM status was read with its bytes swapped

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 85c7d25..bfa7895 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -410,9 +410,9 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   position += 2;
   FCURedundantBlackBodySensorTemp = get_ui2(buff+position);
   position += 2;
-  memcpy((void *) &FCUNominalSMMStatus, buff+position, 2);
+  FCUNominalSMMStatus.status = get_ui2(buff+position);
   position += 2;
-  memcpy((void *) &FCURedundantSMMStatus, buff+position, 2);
+  FCURedundantSMMStatus.status = get_ui2(buff+position);
   position += 2;
   for (int i = 0; i < 12; i ++)
     position += ExtractedBBData[i].read_from(buff+position);
-- 
2.43.0


From 43151fc00a4f30a19d931d654eacad45ac81db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 027/174] fix: calibration constants of the IMPF configuration
 are 4 bytes long

---
 msat/hrit/MSG_data_IMPFConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_IMPFConfiguration.cpp b/msat/hrit/MSG_data_IMPFConfiguration.cpp
index 35d084f..7a7baa8 100644
--- a/msat/hrit/MSG_data_IMPFConfiguration.cpp
+++ b/msat/hrit/MSG_data_IMPFConfiguration.cpp
@@ -344,7 +344,7 @@ size_t MSG_BlackBodyDataWarmStart::read_from( unsigned const char_1 *buff )
     GainInFrontOpticsCont[i] = get_r8(buff+position+i*8);
   position += 96;
   for (int i = 0; i < 12; i ++)
-    CalibrationConstants[i] = get_r4(buff+position+i*8);
+    CalibrationConstants[i] = get_r4(buff+position+i*4);
   position += 48;
   TimeOfColdObsSeconds = get_r8(buff+position);
   position += 8;
-- 
2.43.0


From dd7f6db61d9c93693dac3aaec300c7fb34959b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 028/174] fix: reserved bytes of the HKTM parameters were never
 read

---
 msat/hrit/MSG_data_IMPFConfiguration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/hrit/MSG_data_IMPFConfiguration.cpp b/msat/hrit/MSG_data_IMPFConfiguration.cpp
index 7a7baa8..d23a353 100644
--- a/msat/hrit/MSG_data_IMPFConfiguration.cpp
+++ b/msat/hrit/MSG_data_IMPFConfiguration.cpp
@@ -239,6 +239,7 @@ size_t MSG_HKTMParameters::read_from( unsigned const char_1 *buff)
   (void) TimeS9Packet.read_from(buff+54);
   (void) TimeSYPacket.read_from(buff+60);
   (void) TimePSPacket.read_from(buff+66);
+  memcpy(WSPReserved, buff+72, sizeof(WSPReserved));
   return 3480; // ?? 498
 }
 
-- 
2.43.0


From fc155c63ea10d19f5b325d039a82fb973aa3809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 029/174] fix: division by zero when printing histograms of few
 pixels

---
 msat/hrit/MSG_data_RadiometricQuality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_RadiometricQuality.cpp b/msat/hrit/MSG_data_RadiometricQuality.cpp
index 7a54295..504bf67 100644
--- a/msat/hrit/MSG_data_RadiometricQuality.cpp
+++ b/msat/hrit/MSG_data_RadiometricQuality.cpp
@@ -512,6 +512,6 @@ uint_4 maxistogram(uint_4 *istogram, int_4 len)
   uint_4 maxval = 0;
   for (int i = 0; i < len; i ++)
     if (maxval < istogram[i]) maxval = istogram[i];
-  if (maxval == 0) return 1;
+  if (maxval < 76) return 1;
   return maxval/76;
 }
-- 
2.43.0


From 74e6d88a6cca6dd2598f9c8e7636d2bb6276a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 030/174] fix: data fields shorter than their content were read
 outside the buffer

---
 msat/hrit/MSG_data.cpp            | 140 +++++++++++++++---------------
 msat/hrit/MSG_data.h              |  14 +++
 msat/hrit/MSG_data_SGS_header.cpp |  11 +++
 msat/hrit/MSG_data_SGS_header.h   |   4 +
 4 files changed, 101 insertions(+), 68 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 5a9a445..f972258 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -29,6 +29,7 @@
 
 #include <stdexcept>
 #include <string>
+#include <vector>
 #include <fstream>
 #include <msat/hrit/MSG_data.h>
 
@@ -66,6 +67,7 @@ MSG_data::MSG_data( )
 }
 
 MSG_data::MSG_data( std::ifstream &in, MSG_header &header)
+  : MSG_data( )
 {
   read_from(in, header);
 }
@@ -81,10 +83,48 @@ MSG_data::~MSG_data( )
   if (sdsprologue) delete sdsprologue;
 }
 
+// Read the data field of the file, whose length is declared in the header
+static size_t read_data_field( std::ifstream &in, MSG_header &header,
+                               std::vector<unsigned char_1> &buffer )
+{
+  uint_8 dsize = header.data_field_length / 8;
+  if (dsize > MSG_bytes_left(in))
+  {
+    std::cerr << "Read error from HRIT file: Data field is cut short."
+              << std::endl;
+    throw std::runtime_error("invalid xRIT data field");
+  }
+  // Room for one byte at least, so that there is always a buffer
+  buffer.resize(dsize + 1);
+  in.read((char *) buffer.data( ), dsize);
+  if (in.fail( ))
+  {
+    std::cerr << "Read error from HRIT file: Data field." << std::endl;
+    throw std::runtime_error("invalid xRIT data field");
+  }
+  return dsize;
+}
+
+static void check_data_length( size_t dsize, size_t needed )
+{
+  if (dsize >= needed) return;
+  std::cerr << "Error: HRIT data field is shorter than its content."
+            << std::endl;
+  throw std::runtime_error("invalid xRIT data field");
+}
+
+static void check_header( bool present, const char *what )
+{
+  if (present) return;
+  std::cerr << "Error: HRIT file without " << what << " header." << std::endl;
+  throw std::runtime_error("missing xRIT header");
+}
+
 void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 {
   size_t dsize;
   size_t dpos;
+  std::vector<unsigned char_1> buffer;
   unsigned char_1 *dbuff = 0;
   unsigned char_1 *dpnt = 0;
 
@@ -94,23 +134,19 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_IMAGE_DATA:
       image = new MSG_data_image;
 
-      dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw std::runtime_error("invalid xRIT data field");
-      }
+      dsize = read_data_field(in, header, buffer);
+      dbuff = buffer.data( );
 
+      check_header(header.image_structure != 0, "image structure");
       if (header.image_structure->compression_flag == MSG_NO_COMPRESSION)
       {
-        image->len = dsize;
-        image->data = (MSG_SAMPLE *) ( new char[dsize] );
+        image->len = dsize / sizeof(MSG_SAMPLE);
+        image->data = new MSG_SAMPLE[image->len + 1];
         memcpy(image->data, dbuff, dsize);
       }
       else
       {
+        check_header(header.segment_id != 0, "segment identification");
         MSG_data_image_encoded encoded;
         encoded.data   = dbuff;
         encoded.len    = dsize;
@@ -124,16 +160,11 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     case MSG_FILE_GTS_MESSAGE:
 
-      dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw std::runtime_error("invalid xRIT data field");
-      }
+      dsize = read_data_field(in, header, buffer);
+      dbuff = buffer.data( );
       gts_message = new MSG_data_gts;
       dpos = gts_message->read_from(dbuff, dsize);
+      check_header(header.annotation != 0, "annotation");
       {
         std::string outname;
         outname = header.annotation->annotation;
@@ -145,14 +176,8 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     case MSG_FILE_ALPHANUMERIC_TEXT:
 
-      dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw std::runtime_error("invalid xRIT data field");
-      }
+      dsize = read_data_field(in, header, buffer);
+      dbuff = buffer.data( );
       text_message = new MSG_data_text;
       dpos = text_message->read_from(dbuff, dsize);
 
@@ -161,32 +186,21 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     case MSG_FILE_ENCRYPTION_KEY_MESSAGE:
 
-      dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw std::runtime_error("invalid xRIT data field");
-      }
+      dsize = read_data_field(in, header, buffer);
+      dbuff = buffer.data( );
       key_message = new MSG_data_key;
       dpos = key_message->read_from(dbuff, dsize);
 
       break;
 
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
-      dsize = header.data_field_length / 8;
-
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw std::runtime_error("invalid xRIT data field");
-      }
+      dsize = read_data_field(in, header, buffer);
+      dbuff = buffer.data( );
 
+      check_header(header.annotation != 0, "annotation");
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
+        check_data_length(dsize, MSG_LEVEL_15_HEADER_LEN);
 
         prologue = new MSG_data_level_15_header;
 
@@ -218,7 +232,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       {
         dpnt = dbuff;
         sdsprologue = new MSG_data_SGS_header;
-        dpos = sdsprologue->read_from(dpnt);
+        dpos = sdsprologue->read_from(dpnt, dsize);
         dpnt += dpos;
       }
       else if (header.annotation->product_id_1.find("MET5")
@@ -232,17 +246,13 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       break;
 
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
-      dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw std::runtime_error("invalid xRIT data field");
-      }
+      dsize = read_data_field(in, header, buffer);
+      dbuff = buffer.data( );
 
+      check_header(header.annotation != 0, "annotation");
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
+        check_data_length(dsize, MSG_LEVEL_15_TRAILER_LEN);
 
         epilogue = new MSG_data_level_15_trailer;
 
@@ -269,14 +279,9 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     case MSG_FILE_BINARY_MESSAGE:
 
-      dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
-      in.read((char *) dbuff, dsize);
-      if (in.fail( ))
-      {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw std::runtime_error("invalid xRIT data field");
-      }
+      dsize = read_data_field(in, header, buffer);
+      dbuff = buffer.data( );
+      check_header(header.annotation != 0, "annotation");
       {
         std::ofstream os;
         std::string outname;
@@ -296,8 +301,6 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       break;
   }
 
-  if (dbuff) delete [ ] dbuff;
-
   return;
 }
 
@@ -309,22 +312,23 @@ std::ostream& operator<< ( std::ostream& os, MSG_data &h )
   switch (h.typecode)
   {
     case MSG_FILE_IMAGE_DATA:
-      os << *(h.image);
+      if (h.image) os << *(h.image);
       break;
     case MSG_FILE_GTS_MESSAGE:
-      os << *(h.gts_message);
+      if (h.gts_message) os << *(h.gts_message);
       break;
     case MSG_FILE_ALPHANUMERIC_TEXT:
-      os << *(h.text_message);
+      if (h.text_message) os << *(h.text_message);
       break;
     case MSG_FILE_ENCRYPTION_KEY_MESSAGE:
-      os << *(h.key_message);
+      if (h.key_message) os << *(h.key_message);
       break;
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
-      os << *(h.prologue);
+      if (h.prologue) os << *(h.prologue);
+      else if (h.sdsprologue) os << *(h.sdsprologue);
       break;
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
-      os << *(h.epilogue);
+      if (h.epilogue) os << *(h.epilogue);
       break;
     case MSG_FILE_DCP_MESSAGE:
       os << "DCP message." << std::endl;
diff --git a/msat/hrit/MSG_data.h b/msat/hrit/MSG_data.h
index 3f37259..40a0351 100644
--- a/msat/hrit/MSG_data.h
+++ b/msat/hrit/MSG_data.h
@@ -57,6 +57,20 @@
 #include <msat/hrit/MSG_data_IMPFConfiguration.h>
 #include <msat/hrit/MSG_data_SGS_header.h>
 
+// Length of the records that are in every image prologue, and of the whole
+// image epilogue
+#define MSG_LEVEL_15_HEADER_LEN  (MSG_SATELLITE_STATUS_LEN + \
+                                  MSG_IMAGE_ACQUISITION_LEN + \
+                                  MSG_CELESTIAL_EVENTS_LEN + \
+                                  MSG_IMAGE_DESCRIPTION_LEN + \
+                                  MSG_DATA_RADIOMETRIC_PROC_LEN + \
+                                  MSG_GEOMETRIC_PROCESSING_LEN)
+#define MSG_LEVEL_15_TRAILER_LEN (1 + MSG_IMAGE_PRODUCT_STATS_LEN + \
+                                  MSG_NAVIGATION_EXTR_RESULT_LEN + \
+                                  MSG_RADIOMETRIC_QUALITY_LEN + \
+                                  MSG_GEOMETRIC_QUALITY_LEN + \
+                                  MSG_TIMELINESS_COMPLETENESS_LEN)
+
 class MSG_data_level_15_header {
   public:
     MSG_data_SatelliteStatus sat_status;
diff --git a/msat/hrit/MSG_data_SGS_header.cpp b/msat/hrit/MSG_data_SGS_header.cpp
index b462f12..f050889 100644
--- a/msat/hrit/MSG_data_SGS_header.cpp
+++ b/msat/hrit/MSG_data_SGS_header.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <fstream>
 #include <cstring>
 #include <iomanip>
@@ -171,6 +172,16 @@ size_t MSG_data_SGS_header::read_from( unsigned const char_1 *buff )
   return position;
 }
 
+size_t MSG_data_SGS_header::read_from( unsigned const char_1 *buff, size_t len )
+{
+  if (len < MSG_SGS_COMMON_HEADER_LEN + 8)
+    throw std::runtime_error("foreign satellite prologue is too short");
+  uint_4 datlen = get_ui4(buff+MSG_SGS_COMMON_HEADER_LEN+4);
+  if (datlen < 9 || datlen > len - MSG_SGS_COMMON_HEADER_LEN)
+    throw std::runtime_error("wrong length in foreign satellite prologue");
+  return this->read_from(buff);
+}
+
 std::ostream& operator<< ( std::ostream& os, MSG_data_SGS_header &h )
 {
   os << "------------------------------------------------------" << std::endl
diff --git a/msat/hrit/MSG_data_SGS_header.h b/msat/hrit/MSG_data_SGS_header.h
index 2e7e52a..54a5b30 100644
--- a/msat/hrit/MSG_data_SGS_header.h
+++ b/msat/hrit/MSG_data_SGS_header.h
@@ -30,6 +30,8 @@
 #ifndef __MSG_DATA_SGS_HEADER_H__
 #define __MSG_DATA_SGS_HEADER_H__
 
+#define MSG_SGS_COMMON_HEADER_LEN 46
+
 #include <iostream>
 #include <msat/hrit/MSG_machine.h>
 #include <msat/hrit/MSG_time_cds.h>
@@ -101,6 +103,8 @@ class MSG_data_SGS_header {
     ~MSG_data_SGS_header( );
 
     size_t read_from( unsigned const char_1 *buff );
+    // Throws an exception if the header is not within len bytes
+    size_t read_from( unsigned const char_1 *buff, size_t len );
 
     // Overloaded << operator
     friend std::ostream& operator<< (std::ostream& os, MSG_data_SGS_header &s);
-- 
2.43.0


From e9f75a5302e325af5ff2004a764aaa79f659bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 031/174] fix: IMPF configuration of the prologue was printed
 without being read

---
 msat/hrit/MSG_data.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index f972258..60a2e03 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -202,7 +202,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       {
         check_data_length(dsize, MSG_LEVEL_15_HEADER_LEN);
 
-        prologue = new MSG_data_level_15_header;
+        prologue = new MSG_data_level_15_header( );
 
 
         dpnt = dbuff;
@@ -218,6 +218,11 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
         dpnt += dpos;
         dpos = prologue->geometric_proc.read_from(dpnt);
         dpnt += dpos;
+        if (dsize >= MSG_LEVEL_15_HEADER_LEN + MSG_IMPF_CONFIGURATION_LEN)
+        {
+          dpos = prologue->IMPF_config.read_from(dpnt);
+          dpnt += dpos;
+        }
       }
       else if (header.annotation->product_id_1.find("GOES")
                       != std::string::npos ||
-- 
2.43.0


From ceee5e46526176ce511132b5092a23ee7e669393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 032/174] fix: positions of key number and public key in
 encryption key messages

---
 msat/hrit/MSG_data_key.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 616f59f..8338646 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -61,8 +61,8 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   for (int i = 0; i < nkeys; i ++)
   {
     keys[i].User_Station_number = get_ui2(pnt);
-    keys[i].Key_Number = *(pnt+1);
-    memcpy(keys[i].Public_key, pnt+2, 192);
+    keys[i].Key_Number = *(pnt+2);
+    memcpy(keys[i].Public_key, pnt+3, 192);
     keys[i].Public_Key_CRC = get_ui2(pnt+195);
     pnt = pnt + MSG_KEY_MESSAGE_LEN;
   }
@@ -71,7 +71,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
 
 std::ostream& operator<< ( std::ostream& os, MSG_encryption_key &k )
 {
-  std::string keystr = k.Public_key;
+  std::string keystr(k.Public_key, strnlen(k.Public_key, 192));
   os << "User Station Number : " << (uint_2) k.User_Station_number
      << std::endl
      << "Key Number          : " << (uint_2) k.Key_Number << std::endl
-- 
2.43.0


From b76267cdd77d474ea5597fbdb75beeeb6d560a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 033/174] fix: text messages were printed past their end

---
 msat/hrit/MSG_data_text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index 8e4246d..144b720 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -92,7 +92,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_text &t )
      << "-           MSG ALPHANUMERIC TEXT FILE               -" << std::endl
      << "------------------------------------------------------" << std::endl;
   os << "****************" << std::endl;
-  os << t.tbuff << std::endl;
+  os.write((const char_1 *) t.tbuff, t.tsize) << std::endl;
   os << "****************" << std::endl;
   return os;
 }
-- 
2.43.0


From 67b053317bee1e23172ebb80fa0dc25b3c9dea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 034/174] fix: xRIT images whose files lack expected headers or
 are smaller crashed the reader

---
 msat/xrit/dataaccess.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 57889c4..1418d46 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -66,9 +66,14 @@ void DataAccess::read_file(const std::string& file, MSG_header& head, MSG_data&
 
 void DataAccess::scanSegment(const MSG_header& header)
 {
+    if (!header.segment_id || !header.image_structure || !header.image_navigation)
+        throw std::runtime_error("segment without image structure, navigation or segment identification header");
+
     // Decoding information
     int totalsegs = header.segment_id->planned_end_segment_sequence_number;
     seglines = header.image_structure->number_of_lines;
+    if (seglines == 0)
+        throw std::runtime_error("segments have no lines");
 #if 0
     cerr << "NCOL " << header.image_structure->number_of_columns << endl; 
     cerr << "NLIN " << header.image_structure->number_of_lines << endl; 
@@ -89,6 +94,8 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
     MSG_header PRO_head;
     //p.activity("Reading prologue " + opts.prologueFile());
     read_file(fa.prologueFile(), PRO_head, pro);
+    if (!pro.prologue)
+        throw std::runtime_error(fa.prologueFile() + ": not a prologue");
 
     // Read epilogue
     MSG_header EPI_head;
@@ -101,6 +108,8 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
     {
         //p.activity("Scanning segment " + *i);
         read_file(i, header);
+        if (!header.segment_id)
+            throw std::runtime_error(i + ": no segment identification header");
         if (header.segment_id->data_field_format == MSG_NO_FORMAT)
             throw std::runtime_error(i + ": product dumped in binary format");
 
@@ -118,6 +127,8 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
 
     if (hrv)
     {
+        if (!epi.epilogue)
+            throw std::runtime_error(fa.epilogueFile() + ": not an epilogue");
         MSG_ActualL15CoverageHRV& cov = epi.epilogue->product_stats.ActualL15CoverageHRV;
         LowerEastColumnActual = cov.LowerEastColumnActual;
         LowerNorthLineActual = cov.LowerNorthLineActual;
@@ -238,6 +249,9 @@ void DataAccess::line_read(size_t line, MSG_SAMPLE* buf) const
         return;
     }
 
+    if (!d->image || d->image->len < (segline + 1) * columns)
+        throw std::runtime_error(segnames[segnum] + ": the segment is smaller than the other ones of the image");
+
     if (swapX)
     {
         for (size_t i = 0; i < columns; ++i)
-- 
2.43.0


From 39c04cbbbdcd9f7324b9790e00f1db10679d3367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 035/174] fix: memory of segments that cannot be read was lost

---
 msat/xrit/dataaccess.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 1418d46..7dc7018 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -23,6 +23,7 @@
 #include <msat/xrit/dataaccess.h>
 #include <msat/xrit/fileaccess.h>
 #include <msat/hrit/MSG_HRIT.h>
+#include <memory>
 #include <stdexcept>
 
 using namespace std;
@@ -191,9 +192,10 @@ MSG_data* DataAccess::segment(size_t idx) const
         // ProgressTask p("Reading segment " + segnames[idx]);
         MSG_header header;
         scache new_scache;
-        new_scache.segment = new MSG_data;
+        std::unique_ptr<MSG_data> data(new MSG_data);
         new_scache.segno = idx;
-        read_file(segnames[idx].c_str(), header, *new_scache.segment);
+        read_file(segnames[idx].c_str(), header, *data);
+        new_scache.segment = data.release();
 
         // Put it in the front
         segcache.push_front(new_scache);
-- 
2.43.0


From 9fb58d61a5faaf0d992726ff40696fdb4b22872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 036/174] fix: errors in xRIT files went through GDAL as
 exceptions or made it read and write outside its buffers

---
 gdal/xrit/rasterband.cpp | 39 ++++++++++++++++++++++++++++++++-------
 gdal/xrit/rasterband.h   |  3 +++
 gdal/xrit/xrit.cpp       | 22 +++++++++++++++++-----
 3 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/gdal/xrit/rasterband.cpp b/gdal/xrit/rasterband.cpp
index c1a2cb0..85dd5f2 100644
--- a/gdal/xrit/rasterband.cpp
+++ b/gdal/xrit/rasterband.cpp
@@ -3,12 +3,15 @@
 #include <msat/gdal/const.h>
 #include <msat/facts.h>
 #include <stdint.h>
+#include <stdexcept>
+#include <string>
+#include <vector>
 
 namespace msat {
 namespace xrit {
 
 XRITRasterBand::XRITRasterBand(XRITDataset* ds, int idx)
-    : xds(ds), calibration(0)
+    : xds(ds), calibration(0), ncalibration(0)
 {
     poDS = ds;
     nBand = idx;
@@ -32,6 +35,8 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
 
     /// Channel
     channel_id = header.segment_id->spectral_channel_id;
+    if (channel_id < 1 || channel_id > 12)
+        throw std::runtime_error("invalid channel number " + std::to_string(channel_id));
     char buf[25];
     snprintf(buf, 25, "%d", channel_id);
     SetMetadataItem(MD_MSAT_CHANNEL_ID, buf, MD_DOMAIN_MSAT);
@@ -48,6 +53,9 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
     if (!linear)
     {
         int bpp = header.image_structure->number_of_bits_per_pixel;
+        if (bpp > 16)
+            throw std::runtime_error("samples of " + std::to_string(bpp) + " bits are not supported");
+        ncalibration = (size_t)1 << bpp;
         calibration = PRO_data.prologue->radiometric_proc.get_calibration(channel_id, bpp);
     }
 
@@ -77,28 +85,45 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
     }
 
     size_t linestart = xds->da.line_start(yblock);
+    if (linestart > (size_t)nBlockXSize || xds->da.columns > nBlockXSize - linestart)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "line %d is outside the image", yblock);
+        return CE_Failure;
+    }
+
+    // Exceptions cannot go through GDAL
+    try {
+        read_line(yblock, linestart, buf);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_FileIO, "cannot read line %d: %s", yblock, e.what());
+        return CE_Failure;
+    }
 
+    return CE_None;
+}
+
+void XRITRasterBand::read_line(size_t line, size_t linestart, void* buf)
+{
     if (linear)
     {
         bzero(buf, nBlockXSize * sizeof(uint16_t));
-        xds->da.line_read(yblock, (MSG_SAMPLE*)buf + linestart);
+        xds->da.line_read(line, (MSG_SAMPLE*)buf + linestart);
     } else {
         float* fbuf = (float*)buf;
-        MSG_SAMPLE rawbuf[xds->da.columns];
-        xds->da.line_read(yblock, rawbuf);
+        std::vector<MSG_SAMPLE> rawbuf(xds->da.columns);
+        xds->da.line_read(line, rawbuf.data());
         for (size_t i = 0; i < linestart; ++i)
             fbuf[i] = 0.0;
         for (size_t i = 0; i < xds->da.columns; ++i)
         {
-            float res = calibration[rawbuf[i]];
+            // Samples cannot have more bits than declared
+            float res = rawbuf[i] < ncalibration ? calibration[rawbuf[i]] : 0;
             if (res < 0 || isnan(res)) res = 0;
             fbuf[linestart + i] = res;
         }
         for (size_t i = linestart + xds->da.columns; i < (size_t)nBlockXSize; ++i)
             fbuf[i] = 0.0;
     }
-
-    return CE_None;
 }
 
 double XRITRasterBand::GetOffset(int* pbSuccess)
diff --git a/gdal/xrit/rasterband.h b/gdal/xrit/rasterband.h
index 4c1ad79..6f8f195 100644
--- a/gdal/xrit/rasterband.h
+++ b/gdal/xrit/rasterband.h
@@ -18,6 +18,8 @@ public:
     bool linear;
     int channel_id;
     float* calibration;
+    /// Number of elements of calibration
+    size_t ncalibration;
 
     XRITRasterBand(XRITDataset* ds, int idx);
     ~XRITRasterBand();
@@ -26,6 +28,7 @@ public:
 
     const char* GetUnitType() override;
 
+    void read_line(size_t line, size_t linestart, void* buf);
     CPLErr IReadBlock(int xblock, int yblock, void *buf) override;
 
     double GetOffset(int* pbSuccess=NULL) override;
diff --git a/gdal/xrit/xrit.cpp b/gdal/xrit/xrit.cpp
index 76620d8..ae4f7bc 100644
--- a/gdal/xrit/xrit.cpp
+++ b/gdal/xrit/xrit.cpp
@@ -7,6 +7,7 @@
 #include <string>
 #include <memory>
 #include <cctype>
+#include <stdexcept>
 
 using namespace std;
 
@@ -15,12 +16,8 @@ namespace xrit {
 
 GDALDataset* XRITOpen(GDALOpenInfo* info);
 
-GDALDataset* XRITOpen(GDALOpenInfo* info)
+static GDALDataset* open_dataset(GDALOpenInfo* info)
 {
-    // Se if it looks like a XRIT filename
-    if (!msat::xrit::isValid(info->pszFilename))
-        return NULL;
-
     // Check for a special product suffix referring to a computed version of
     // the channel
     bool do_reflectance = false;
@@ -77,6 +74,21 @@ GDALDataset* XRITOpen(GDALOpenInfo* info)
     }
 }
 
+GDALDataset* XRITOpen(GDALOpenInfo* info)
+{
+    // Se if it looks like a XRIT filename
+    if (!msat::xrit::isValid(info->pszFilename))
+        return NULL;
+
+    // Exceptions cannot go through GDAL
+    try {
+        return open_dataset(info);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_OpenFailed, "%s: %s", info->pszFilename, e.what());
+        return NULL;
+    }
+}
+
 }
 }
 
-- 
2.43.0


From 614be46f867f48f40b71cfb153e7a5b24bf0ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 037/174] fix: radiance_to_reflectance ended the program for
 every channel

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index bfa7895..10e8873 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -31,6 +31,7 @@
 #include <cstring>
 #include <iomanip>
 #include <cmath>
+#include <stdexcept>
 #include <msat/facts.h>
 #include <msat/hrit/MSG_data_RadiometricProc.h>
 
@@ -668,10 +669,10 @@ float radiance_to_reflectance(int chnum, float radiance,
                               int hour, int minute,
                               float lat, float lon)
 {
-  if (chnum != 1 || chnum != 2 || chnum != 3 || chnum != 12)
+  if (chnum != 1 && chnum != 2 && chnum != 3 && chnum != 12)
   {
     std::cerr << "Wrong channel number : " << chnum << std::endl;
-    throw;
+    throw std::runtime_error("wrong channel number for reflectance");
   }
 
   int jd = msat::facts::jday(year, month, day);
@@ -684,6 +685,6 @@ float radiance_to_reflectance(int chnum, float radiance,
   double cos_sza = msat::facts::cos_sol_za(year, month, day, hour, minute, lat, lon);
   // Use cos(80°) as lower bound, to avoid division by zero
   if (cos_sza < cos80)
-    return cos80;
+    cos_sza = cos80;
   return 100.0 * radiance / tr / cos_sza;
 }
-- 
2.43.0


From b674b79718b9de89b8ee4dbf069e78d6a53dd0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 038/174] fix: calibration of channels that do not exist was
 read outside the table

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 10e8873..a8c0bcb 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -578,8 +578,16 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_RadiometricProc &t )
   return os;
 }
 
+static void check_channel( int channel )
+{
+  if (channel >= 1 && channel <= 12) return;
+  std::cerr << "Wrong channel number : " << channel << std::endl;
+  throw std::runtime_error("wrong channel number");
+}
+
 float *MSG_data_RadiometricProc::get_calibration(int channel, int bpp)
 {
+  check_channel(channel);
   float *calib;
   int ncal = (int) pow(2.0, bpp);
 
@@ -630,6 +638,7 @@ float *MSG_data_RadiometricProc::get_calibration(int channel, int bpp)
 
 void MSG_data_RadiometricProc::get_slope_offset(int channel, double& slope, double& offset, bool& scalesToInt)
 {
+  check_channel(channel);
   if (channel > 3 && channel < 12)
   {
     const double cold_A[8]   = { 0.9959,  0.9963,  0.9991,  0.9996,
-- 
2.43.0


From 8916e7db5b12dbc323fd0e30758caf8cc417fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 039/174] fix: wait with a timeout said a child that had exited
 with 0 was running

---
 msat/utils/subprocess.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 6d7b058..c207a25 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -410,7 +410,7 @@ bool Child::wait(int msecs)
         throw std::runtime_error("wait called before Child process was started");
 
     if (m_terminated)
-        return returncode();
+        return true;
 
     // this is the old complex logic needed to support old kernels without
     // pidfd_open
-- 
2.43.0


From 6f0905d0bdb2f32b4a1de5571f204fbaa222684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 040/174] fix: a child killed by a signal had the return code
 of success

---
 msat/utils/subprocess.cc | 2 ++
 msat/utils/subprocess.h  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index c207a25..91576b2 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -47,6 +47,8 @@ Child::~Child()
 
 int Child::returncode() const
 {
+    if (WIFSIGNALED(m_returncode))
+        return -WTERMSIG(m_returncode);
     return WEXITSTATUS(m_returncode);
 }
 
diff --git a/msat/utils/subprocess.h b/msat/utils/subprocess.h
index cc81a15..f68715a 100644
--- a/msat/utils/subprocess.h
+++ b/msat/utils/subprocess.h
@@ -118,6 +118,9 @@ public:
     /**
      * Return the return code of the subprocess; this is undefined if it has
      * not terminated yet.
+     *
+     * If the subprocess was killed by a signal, it is the signal number,
+     * negated.
      */
     int returncode() const;
 
-- 
2.43.0


From 96e01d718536dc3a3595d464d1e04bee0474e2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 041/174] fix: signals for a child not started or finished went
 to other processes

---
 msat/utils/subprocess.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 91576b2..f0faf75 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -459,6 +459,15 @@ bool Child::wait(int msecs)
 
 void Child::send_signal(int sig)
 {
+    if (m_pid == 0)
+        throw std::runtime_error("send_signal called before Child process was started");
+
+    // The PID can be of another process by now
+    if (m_terminated)
+        throw std::system_error(
+                ESRCH, std::system_category(),
+                "cannot send signal " + std::to_string(sig) + " to child PID " + std::to_string(m_pid));
+
     if (::kill(m_pid, sig) == -1)
         throw std::system_error(
                 errno, std::system_category(),
-- 
2.43.0


From 666151d843f95ec7dd18c8eb6db0cd7e338ff7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 042/174] fix: pipes stayed open when a child process could not
 be started

---
 msat/utils/subprocess.cc | 32 ++++++++++++++++++++++++++++++--
 msat/utils/subprocess.h  |  3 +++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index f0faf75..70d17c4 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -98,6 +98,7 @@ void Child::set_stdin(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stdin after the child process has started");
+    m_stdin[0] = m_stdin[1] = -1;
     m_stdin_action = val;
 }
 
@@ -105,6 +106,7 @@ void Child::set_stdout(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stdin after the child process has started");
+    m_stdout[0] = m_stdout[1] = -1;
     m_stdout_action = val;
 }
 
@@ -112,6 +114,7 @@ void Child::set_stderr(Redirect val)
 {
     if (m_pid != 0)
         throw std::runtime_error("cannot redirect stderr after the child process has started");
+    m_stderr[0] = m_stderr[1] = -1;
     m_stderr_action = val;
 }
 
@@ -309,12 +312,35 @@ void Child::post_fork_child()
             throw std::system_error(errno, std::system_category(), "cannot call setsid()");
 }
 
+static void close_pipe(Redirect action, int* fds)
+{
+    if (action != Redirect::PIPE)
+        return;
+    for (int i = 0; i < 2; ++i)
+    {
+        if (fds[i] != -1) ::close(fds[i]);
+        fds[i] = -1;
+    }
+}
+
+void Child::close_pipes()
+{
+    close_pipe(m_stdin_action, m_stdin);
+    close_pipe(m_stdout_action, m_stdout);
+    close_pipe(m_stderr_action, m_stderr);
+}
+
 void Child::fork()
 {
     if (!pass_fds.empty())
         close_fds = true;
 
-    pre_fork();
+    try {
+        pre_fork();
+    } catch (...) {
+        close_pipes();
+        throw;
+    }
 
     pid_t pid;
     if ((pid = ::fork()) == 0)
@@ -330,7 +356,9 @@ void Child::fork()
         }
         _exit(main());
     } else if (pid < 0) {
-        throw std::system_error(errno, std::system_category(), "failed to fork()");
+        std::system_error error(errno, std::system_category(), "failed to fork()");
+        close_pipes();
+        throw error;
     } else {
         m_pid = pid;
         post_fork_parent();
diff --git a/msat/utils/subprocess.h b/msat/utils/subprocess.h
index f68715a..9b8b5fe 100644
--- a/msat/utils/subprocess.h
+++ b/msat/utils/subprocess.h
@@ -42,6 +42,9 @@ protected:
     Redirect m_stdout_action = Redirect::UNCHANGED;
     Redirect m_stderr_action = Redirect::UNCHANGED;
 
+    /// Close both ends of all pipes
+    void close_pipes();
+
     /// Function called before forking
     virtual void pre_fork();
 
-- 
2.43.0


From ce38d3120b304a4b5012d2f9f45b8acb9d4e0050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 043/174] fix: streams of a child redirected to the same or to
 standard file descriptors were closed or mixed up

---
 msat/utils/subprocess.cc | 93 ++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 51 deletions(-)

diff --git a/msat/utils/subprocess.cc b/msat/utils/subprocess.cc
index 70d17c4..18af2be 100644
--- a/msat/utils/subprocess.cc
+++ b/msat/utils/subprocess.cc
@@ -205,83 +205,74 @@ void Child::post_fork_parent()
     }
 }
 
-static void redirect(int newfd, int oldfd, const char* errmsg)
+/// Duplicate a file descriptor to one that is not stdin, stdout or stderr
+static int duplicate(int fd, const char* errmsg)
 {
-    if (dup2(newfd, oldfd) == -1)
-        throw std::system_error(errno, std::system_category(), errmsg);
-    if (close(newfd) == -1 )
+    int res = fcntl(fd, F_DUPFD, 3);
+    if (res == -1)
         throw std::system_error(errno, std::system_category(), errmsg);
+    return res;
 }
 
 void Child::post_fork_child()
 {
+    static const char* names[] = { "stdin", "stdout", "stderr" };
+    int* pipes[] = { m_stdin, m_stdout, m_stderr };
+    Redirect actions[] = { m_stdin_action, m_stdout_action, m_stderr_action };
+    int copies[] = { -1, -1, -1 };
+
+    // Work on copies, since what a stream is redirected to can be used for
+    // another stream too, or be one of the file descriptors to be replaced
+    for (int i = 0; i < 3; ++i)
     {
-        sys::File fd_devnull("/dev/null");
-
-        switch (m_stdin_action)
+        std::string errmsg = std::string("failed to redirect ") + names[i];
+        switch (actions[i])
         {
             case Redirect::FD:
-                redirect(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
-                break;
             case Redirect::PIPE:
-                if (close(m_stdin[1]) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed close write end of stdin pipe in child process");
-                redirect(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
+                copies[i] = duplicate(pipes[i][i == 0 ? 0 : 1], errmsg.c_str());
                 break;
-            case Redirect::DEVNULL:
-                if (fd_devnull == -1)
-                    fd_devnull.open(O_RDWR);
-                if (dup2(fd_devnull, STDIN_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stdin to /dev/null");
+            case Redirect::DEVNULL: {
+                sys::File fd_devnull("/dev/null", O_RDWR);
+                copies[i] = duplicate(fd_devnull, errmsg.c_str());
                 break;
+            }
             default:
                 break;
         }
+    }
 
-        switch (m_stdout_action)
+    // Close the file descriptors that were copied
+    for (int i = 0; i < 3; ++i)
+        switch (actions[i])
         {
-            case Redirect::FD:
-                redirect(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
+            case Redirect::FD: {
+                int fd = pipes[i][i == 0 ? 0 : 1];
+                if (fd > 2 && std::find(pass_fds.begin(), pass_fds.end(), fd) == pass_fds.end())
+                    ::close(fd);
                 break;
+            }
             case Redirect::PIPE:
-                if (close(m_stdout[0]) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed close read end of stdout pipe in child process");
-                redirect(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
-                break;
-            case Redirect::DEVNULL:
-                if (fd_devnull == -1)
-                    fd_devnull.open(O_RDWR);
-                if (dup2(fd_devnull, STDOUT_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stdout to /dev/null");
+                ::close(pipes[i][0]);
+                ::close(pipes[i][1]);
                 break;
             default:
                 break;
         }
 
-        switch (m_stderr_action)
-        {
-            case Redirect::FD:
-                redirect(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
-                break;
-            case Redirect::PIPE:
-                if (close(m_stderr[0]) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed close read end of stderr pipe in child process");
-                redirect(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
-                break;
-            case Redirect::DEVNULL:
-                if (fd_devnull == -1)
-                    fd_devnull.open(O_RDWR);
-                if (dup2(fd_devnull, STDERR_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stderr to /dev/null");
-                break;
-            case Redirect::STDOUT:
-                if (dup2(STDOUT_FILENO, STDERR_FILENO) == -1)
-                    throw std::system_error(errno, std::system_category(), "failed to redirect stderr to stdout");
-            default:
-                break;
-        }
+    for (int i = 0; i < 3; ++i)
+    {
+        if (copies[i] == -1)
+            continue;
+        if (dup2(copies[i], i) == -1)
+            throw std::system_error(errno, std::system_category(), std::string("failed to redirect ") + names[i]);
+        ::close(copies[i]);
     }
 
+    if (m_stderr_action == Redirect::STDOUT)
+        if (dup2(STDOUT_FILENO, STDERR_FILENO) == -1)
+            throw std::system_error(errno, std::system_category(), "failed to redirect stderr to stdout");
+
     // Close parent file descriptors if requested
     if (close_fds)
     {
-- 
2.43.0


From f33253f73ede947d3d7f9c5000965300bf8bcf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 044/174] fix: the last scan line was missing from the list of
 all scan lines of OpenMTP-IDS images

---
 msat/omtp-ids/OpenMTP-IDS.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ce35df8..ea5207d 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -175,7 +175,7 @@ OpenMTP_IDS::scanline() const
 		last += m_record[i].scanline().size();
 	}
 
-	return scanline(0, last - 1);
+	return scanline(0, last);
 }
 
 // a scanline
-- 
2.43.0


From 9bd0396f2e06dea359aec91dd1c65d986c95e662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 045/174] fix: OpenMTP-IDS images with a wrong number of
 records were accessed outside the list of records

---
 msat/omtp-ids/OpenMTP-IDS.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ea5207d..08c16f3 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -59,6 +59,11 @@ operator<<(std::ostream& os,
 	const unsigned no_records =
 		openmtp_ids.m_fileheader.no_records() - 1;
 
+	if (no_records != openmtp_ids.m_record.size()) {
+		os.setstate(std::ios::failbit);
+		return os;
+	}
+
 	for (unsigned i = 0; i < no_records; i++) {
 		os << openmtp_ids.m_record[i];
 	}
@@ -77,6 +82,11 @@ operator>>(std::istream& is,
 		throw "failure while reading file header\n";
 	}
 
+	// the file header is the first record
+	if (openmtp_ids.m_fileheader.no_records() < 1) {
+		throw "invalid number of records\n";
+	}
+
 	// the first record was just read..
 	const unsigned no_records =
 		openmtp_ids.m_fileheader.no_records() - 1;
-- 
2.43.0


From bf8e5e77a46381c594871b9528defe8f8d45341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 046/174] fix: text of OpenMTP-IDS errors was freed before it
 was used

---
 msat/omtp-ids/OpenMTP-IDS.cc         | 20 ++++++++++++--------
 tools/omtp-ids/OpenMTP-IDS_sector.cc |  2 +-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index 08c16f3..036f241 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -109,8 +109,9 @@ OpenMTP_IDS::read(const char* filename)
 {
 	std::ifstream is(filename);
 	if (!is) {
-		std::string err;
-		err += "could not open ";
+		// used by who catches it
+		static std::string err;
+		err = "could not open ";
 		err += filename;
 		err += " for reading";
 		throw err.c_str();
@@ -119,8 +120,9 @@ OpenMTP_IDS::read(const char* filename)
 	is >> *this;
 
 	if (!is.good()) {
-		std::string err;
-		err += "error while reading ";
+		// used by who catches it
+		static std::string err;
+		err = "error while reading ";
 		err += filename;
 		throw err.c_str();
 	}
@@ -135,8 +137,9 @@ OpenMTP_IDS::write(const char* filename)
 {
 	std::ofstream os(filename);
 	if (!os) {
-		std::string err;
-		err += "could not open ";
+		// used by who catches it
+		static std::string err;
+		err = "could not open ";
 		err += filename;
 		err += " for writing";
 		throw err.c_str();
@@ -145,8 +148,9 @@ OpenMTP_IDS::write(const char* filename)
 	os << *this;
 
 	if (!os.good()) {
-		std::string err;
-		err += "error while writing ";
+		// used by who catches it
+		static std::string err;
+		err = "error while writing ";
 		err += filename;
 		throw err.c_str();
 	}
diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index 8bfc48b..5a22828 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -171,7 +171,7 @@ main(int argc, char* argv[])
 	OpenMTP_IDS omtp_ids;
 	try {
 		omtp_ids = OpenMTP_IDS(argv[1]);
-	} catch (char* err) {
+	} catch (const char* err) {
 		std::cout << argv[0] << ": " << err << std::endl;
 		return EXIT_FAILURE;
 	}
-- 
2.43.0


From ae4069bdae73cd945d28a2175ccf355ddd2a7691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 047/174] fix: errors while writing the last part of
 OpenMTP-IDS files were ignored

---
 msat/omtp-ids/OpenMTP-IDS.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index 036f241..19378a5 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -146,6 +146,7 @@ OpenMTP_IDS::write(const char* filename)
 	}
 
 	os << *this;
+	os.close();
 
 	if (!os.good()) {
 		// used by who catches it
@@ -155,7 +156,6 @@ OpenMTP_IDS::write(const char* filename)
 		throw err.c_str();
 	}
 
-	os.close();
 	return true;
 }
 
-- 
2.43.0


From 068b23682052c607eef744b41bebb6435653faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 048/174] fix: short satellite names of OpenMTP-IDS images kept
 the end of the name before

---
 msat/omtp-ids/FileHeader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/omtp-ids/FileHeader.cc b/msat/omtp-ids/FileHeader.cc
index 85966d4..984d995 100644
--- a/msat/omtp-ids/FileHeader.cc
+++ b/msat/omtp-ids/FileHeader.cc
@@ -261,5 +261,6 @@ FileHeader::satellite(const char* satellite)
 		? len
 		: SATELLITE_LEN;
 
+	memset(m_satellite, 0, SATELLITE_LEN + 1);
 	memcpy(m_satellite, satellite, copy_len);
 }
-- 
2.43.0


From 1a49a7936394c6701a47b265ec878b978b60ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 049/174] fix: HRI errors are thrown as exceptions instead of
 ending the program

'throw;' with no exception being handled calls std::terminate.
---
 msat/hri/HRI.cpp                         | 17 +++++++++--------
 msat/hri/HRI_geolocation.h               |  3 ++-
 msat/hri/HRI_image.cpp                   | 23 ++++++++++++-----------
 msat/hri/HRI_subframe_identification.cpp |  5 +++--
 msat/hri/HRI_subframe_label.cpp          |  3 ++-
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c2eca77..f2e8c83 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -29,6 +29,7 @@
 #include <iostream>
 #include <fstream>
 #include <cstring>
+#include <stdexcept>
 #include <ctime>
 #include <msat/hri/HRI.h>
 
@@ -46,7 +47,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   if (hri.fail())
   {
     std::cerr << "Cannot open input hri file " << hri_filename << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Cannot open input hri file");
   }
 
   if (IS_TECNAVIA)
@@ -375,7 +376,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   {
     std::cerr << "Invalid format or non disseminated image : "
               << format << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Invalid format or non disseminated image");
   }
 
   geo.set_format(format);
@@ -467,7 +468,7 @@ unsigned char * Hri::get_dataline( ifstream &hri, int format )
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Invalid HRI format");
   }
   return linebuff;
 }
@@ -484,7 +485,7 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("HRI: Read failed");
     }
     memcpy(linebuff+1660, mod_framebuff, 840);
   }
@@ -496,14 +497,14 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("HRI: Read failed");
     }
     memcpy(linebuff+168, mod_framebuff, 1082);
   }
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Invalid HRI format");
   }
   return linebuff;
 }
@@ -528,7 +529,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << mod_framesize << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Sync error in input hri file");
   }
   return;
 }
@@ -551,7 +552,7 @@ void Hri::getbuff( ifstream &hri )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << framesize << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Sync error in input hri file");
   }
   return;
 }
diff --git a/msat/hri/HRI_geolocation.h b/msat/hri/HRI_geolocation.h
index 043e351..adb447f 100644
--- a/msat/hri/HRI_geolocation.h
+++ b/msat/hri/HRI_geolocation.h
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <string>
 #include <iostream>
+#include <stdexcept>
 
 typedef struct {
   long CFAC;
@@ -77,7 +78,7 @@ class HRI_geolocation {
       {
 	std::cerr << "Unknown or unsupported format in HRI_geolocation"
                   << std::endl;
-	throw;
+	throw std::runtime_error("HRI: Unknown or unsupported format in HRI_geolocation");
       }
     }
     geolocation &get_geolocation( ) { return g; }
diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index e92528a..a880b8e 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -31,6 +31,7 @@
 #include <cassert>
 #include <cstring>
 #include <cmath>
+#include <stdexcept>
 
 HRI_image::HRI_image( )
 {
@@ -124,7 +125,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
         default:
 	  std::cerr << "Undefined band for A Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("HRI: Undefined band for A Format image in HRI_Image");
 	  break;
       }
       break;
@@ -173,7 +174,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for B Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("HRI: Undefined band for B Format image in HRI_Image");
 	  break;
       }
       break;
@@ -222,13 +223,13 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for X Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("HRI: Undefined band for X Format image in HRI_Image");
 	  break;
       }
       break;
     default:
       std::cerr << "Undefined format in HRI_image" << std::endl;
-      throw;
+      throw std::runtime_error("HRI: Undefined format in HRI_image");
   }
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
@@ -244,14 +245,14 @@ void HRI_image::put_line( unsigned char *dataline, int linesize, int linenum )
   {
     std::cerr << "Invalid line size : " << linesize << std::endl;
     std::cerr << "Maximum line size for this image is " << npixels << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Invalid line size");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Out of range line number");
   }
   memcpy(data+linenum*npixels, dataline, linesize);
   return;
@@ -266,14 +267,14 @@ void HRI_image::put_halfline( unsigned char *dataline, int linesize,
     std::cerr << "Invalid half line size : " << linesize << std::endl;
     std::cerr << "Maximum half line size for this image is "
               << halflin << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Invalid half line size");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Out of range line number");
   }
   if (firsthalf)
     memcpy(data+linenum*npixels, dataline, linesize);
@@ -290,7 +291,7 @@ unsigned char * HRI_image::get_line( int linenum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Out of range line number");
   }
   memcpy(aline, data+linenum*npixels, npixels);
   return aline;
@@ -314,14 +315,14 @@ unsigned char HRI_image::get_pixel( int linenum, int pixelnum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Out of range line number");
   }
   if (pixelnum < 0 || pixelnum > lastpix)
   {
     std::cerr << "Out of range pixel number : " << pixelnum  << std::endl;
     std::cerr << "Maximum pixel number for this image is "
               << lastpix << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Out of range pixel number");
   }
   return *(data+linenum*npixels+pixelnum);
 }
diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index f8aa79d..85814ef 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -30,6 +30,7 @@
 #include <cstring>
 #include <ctime>
 #include <cstdio>
+#include <stdexcept>
 
 HRI_subframe_identification::HRI_subframe_identification( char *hsi )
 {
@@ -66,7 +67,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
       std::cerr << "Unknown satellite id : " << std::hex
            << satellite_indicator[0] << satellite_indicator[1]
            << std::dec << std::endl;
-      throw;
+      throw std::runtime_error("HRI: Unknown satellite id");
     }
   }
   else
@@ -74,7 +75,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
     std::cerr << "Unknown satellite id : " << std::hex
          << satellite_indicator[0] << satellite_indicator[1]
          << std::dec << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Unknown satellite id");
   }
 
   year = (int) conv.i2_from_buff((const unsigned char *) hsi+2);
diff --git a/msat/hri/HRI_subframe_label.cpp b/msat/hri/HRI_subframe_label.cpp
index 54b5015..fffa86f 100644
--- a/msat/hri/HRI_subframe_label.cpp
+++ b/msat/hri/HRI_subframe_label.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <msat/hri/HRI_subframe_label.h>
 #include <string>
+#include <stdexcept>
 
 HRI_subframe_label::HRI_subframe_label( char hsl[24] )
 {
@@ -204,7 +205,7 @@ std::string HRI_subframe_label::format_code( )
   else
   {
     std::cerr << "Unknown format code in HRI read" << std::endl;
-    throw;
+    throw std::runtime_error("HRI: Unknown format code in HRI read");
   }
 
   if (is_IR_present( )) tmp += "I";
-- 
2.43.0


From 4aaacd4f6e8137ad2e7fa62670853e32ad334f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 050/174] fix: a truncated HRI file is an error instead of an
 image of zeros

---
 msat/hri/HRI.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index f2e8c83..2c1ecd9 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -93,7 +93,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       if (hri.fail())
       {
         std::cerr << "Read failed." << std::endl;
-        return;
+        throw std::runtime_error("HRI: Read failed");
       }
       memcpy(keybuff, mod_framebuff, 1440-92);
     }
@@ -519,7 +519,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
   if (hri.fail())
   {
     std::cerr << "Read failed." << std::endl;
-    return;
+    throw std::runtime_error("HRI: Read failed");
   }
 
   memcpy(chk_sync, mod_framebuff+offset, 4);
@@ -544,7 +544,7 @@ void Hri::getbuff( ifstream &hri )
   if (hri.fail())
   {
     std::cerr << "Read failed." << std::endl;
-    return;
+    throw std::runtime_error("HRI: Read failed");
   }
   memcpy(chk_sync, framebuff, 4);
   if (chk_sync[0] != 0x0C05 && (chk_sync[1] & 255) != 0xDF)
-- 
2.43.0


From 4270eadc092cb974d410e6214ef1e6dbb1a1e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 051/174] fix: the second half of an HRI visible line starts at
 the middle of the line

---
 msat/hri/HRI_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index a880b8e..b031725 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -279,7 +279,7 @@ void HRI_image::put_halfline( unsigned char *dataline, int linesize,
   if (firsthalf)
     memcpy(data+linenum*npixels, dataline, linesize);
   else
-    memcpy(data+linenum*npixels+halflin-2, dataline, linesize);
+    memcpy(data+linenum*npixels+halflin, dataline, linesize);
   return;
 }
 
-- 
2.43.0


From 60af8ee931cc9969765fd7620cd037f5d97d3b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 052/174] fix: the key slots of TECNAVIA HRI files are read

---
 msat/hri/HRI.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 2c1ecd9..e91c5c0 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -95,7 +95,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
         std::cerr << "Read failed." << std::endl;
         throw std::runtime_error("HRI: Read failed");
       }
-      memcpy(keybuff, mod_framebuff, 1440-92);
+      memcpy(keybuff+92, mod_framebuff, 1440-92);
+      keys.readfrom(keybuff);
     }
     else
     {
-- 
2.43.0


From a5ceb26e8c7fa8b5c5df74cc67f19fad286634ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 053/174] fix: Hri::get_format does not return a pointer into a
 destroyed string

---
 msat/hri/HRI.cpp | 3 ++-
 msat/hri/HRI.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index e91c5c0..ddd2f89 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -386,7 +386,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
 
 char * Hri::get_format( )
 {
-  return (char *) label.format_code( ).c_str( );
+  format_name = label.format_code( );
+  return (char *) format_name.c_str( );
 }
 
 struct tm *Hri::get_datetime( )
diff --git a/msat/hri/HRI.h b/msat/hri/HRI.h
index 3de761a..a735ff3 100644
--- a/msat/hri/HRI.h
+++ b/msat/hri/HRI.h
@@ -101,6 +101,7 @@ class Hri {
     HRI_subframe_interpretation interp;
     HRI_subframe_keyslot keys;
     HRI_geolocation geo;
+    std::string format_name;
 };
 
 #endif
-- 
2.43.0


From af9c780c58de03c7f507e1cc063475a1acfea6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 054/174] fix: the water vapour band of HRI X format is
 calibrated with the coefficients of the file

They were left uninitialised.
---
 msat/hri/HRI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index ddd2f89..6e29188 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -121,7 +121,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   }
 
   std::string format = label.format_code( );
-  calibration_coefficients coeff;
+  calibration_coefficients coeff = { 0.0, 0.0 };
 
   cout << "Format is : " << format << std::endl;
 
@@ -348,6 +348,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       for (int i = 0; i < image[0].nlines; i ++)
         image[0].put_line(get_dataline(hri, id), image[0].npixels, i); 
     }
+    coeff.mpef_absolute = interp.cal.calwv;
+    coeff.space_count   = interp.cal.wvspc;
     image[0].set_calibration(&coeff);
   }
   else if (format == "XVH")
-- 
2.43.0


From 55140df3cff94789637971e20182221a77d68e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 055/174] fix: HRI_image does not leak its data when its format
 is set again, and starts uncalibrated

---
 msat/hri/HRI_image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index b031725..f0fe764 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -50,6 +50,9 @@ HRI_image::HRI_image( HRI_image_satellite s,
                       HRI_image_format f,
 		      HRI_image_band b )
 {
+  data = 0;
+  aline = 0;
+  calibrated = false;
   set_format_band(s, f, b);
 }
 
@@ -231,6 +234,9 @@ void HRI_image::set_format_band( HRI_image_satellite s,
       std::cerr << "Undefined format in HRI_image" << std::endl;
       throw std::runtime_error("HRI: Undefined format in HRI_image");
   }
+  if (data)  delete [ ] data;
+  if (aline) delete [ ] aline;
+  calibrated = false;
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
   assert(data);
-- 
2.43.0


From 49116c1fbff7bd3af3ac9d5792094f797e11db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 056/174] fix: IBM floating point numbers of HRI files are read
 on 64 bit machines

The decoder took unsigned long for 32 bits: it read past the end of its 4 byte
buffer, and the low word of the 8 byte numbers from the wrong place.
---
 msat/hri/HRI_machine.cpp | 174 ++++-----------------------------------
 1 file changed, 18 insertions(+), 156 deletions(-)

diff --git a/msat/hri/HRI_machine.cpp b/msat/hri/HRI_machine.cpp
index c021e33..ae11e6c 100644
--- a/msat/hri/HRI_machine.cpp
+++ b/msat/hri/HRI_machine.cpp
@@ -28,6 +28,8 @@
 //-----------------------------------------------------------------------------
 #include <msat/hri/HRI_machine.h>
 #include <cstdint>
+#include <cfloat>
+#include <cmath>
 
 HRI_machine::HRI_machine()
 {
@@ -141,171 +143,31 @@ float HRI_machine::r4f_from_char5( const char *buff )
   return tmp;
 }
 
-static inline void leftshift(unsigned long *pnt, int n)
-{
-   register unsigned long hiw, low;
-
-   hiw = pnt[0];
-   low = pnt[1];
-
-   while (n-- > 0)
-   {
-      hiw = (hiw << 1) | ((low >> 31) & 0x00000001);
-      low <<= 1;
-   }
-
-   pnt[0] = hiw;
-   pnt[1] = low;
-   return;
-}
-
-static inline void rightshift(unsigned long *pnt, int n)
-{
-   register unsigned long hiw, low;
-
-   hiw = pnt[0];
-   low = pnt[1];
-
-   while (n-- > 0)
-   {
-      low = (hiw << 31) | ((low >> 1) & 0x7FFFFFFF);
-      hiw >>= 1;
-   }
-
-   pnt[0] = hiw;
-   pnt[1] = low;
-   return;
-}
+// Numbers are in the IBM floating point format: a sign bit, a 7 bit exponent
+// of 16 in excess 64, and a fraction with the point on its left
 
 float HRI_machine::r4_from_buff( const unsigned char *buff )
 {
-    union {
-        uint32_t i;
-        float f;
-    } uval;
-    unsigned long *pnt, sign, fraction;
-    long exponent;
-    unsigned char swp[4];
-
-   if (isbig)
-     pnt = (unsigned long *) buff;
-   else
-   {
-     swp[3] = buff[0];
-     swp[2] = buff[1];
-     swp[1] = buff[2];
-     swp[0] = buff[3];
-     pnt = (unsigned long *) swp;
-   }
-
-   if ((pnt[0] & 0x7FFFFFFF) == 0)
-      return *((float *) pnt);
-
-   sign     =   pnt[0] & 0x80000000;
-   exponent = ((pnt[0] & 0x7F000000) >> 24) - 64;
-   fraction =   pnt[0] & 0x00FFFFFF;
-
-   if (exponent >= 0)
-      exponent <<= 2;
-   else
-      exponent = -((-exponent) << 2);
-
-   exponent = exponent - 1;
-   if (fraction)
-   {
-      while ((fraction & 0x00800000) == 0)
-      {
-         fraction <<= 1;
-         exponent = exponent - 1;
-      }
-   }
-
-   fraction &= 0x007FFFFF;
-   if ((exponent += 127) >= 255)
-      uval.i = sign | 0x7F7FFFFF;
-   else if (exponent <= 0)
-      uval.i = sign;
-   else
-      uval.i = sign | (exponent << 23) | fraction;
-
-   return uval.f;
+   uint32_t fraction = ((uint32_t) buff[1] << 16) |
+                       ((uint32_t) buff[2] <<  8) |
+                        (uint32_t) buff[3];
+   int exponent = ((buff[0] & 0x7F) - 64) * 4 - 24;
+   double val = ldexp((double) fraction, exponent);
+
+   if (val > FLT_MAX) val = FLT_MAX;
+   return (float) ((buff[0] & 0x80) ? -val : val);
 }
 
 double HRI_machine::r8_from_buff( const unsigned char *buff )
 {
-    int idxh, idxl;
-    unsigned long tmp, sign, fraction[2], *pnt;
-    union {
-        uint32_t i[2];
-        double d;
-    } uval;
-    long exponent;
-    unsigned char swp[8];
-
-   if (isbig)
-     pnt = (unsigned long *) buff;
-   else
-   {
-     swp[3] = buff[0];
-     swp[2] = buff[1];
-     swp[1] = buff[2];
-     swp[0] = buff[3];
-     swp[7] = buff[4];
-     swp[6] = buff[5];
-     swp[5] = buff[6];
-     swp[4] = buff[7];
-     pnt = (unsigned long *) swp;
-   }
-
-   if (isbig) { idxl = 0; idxh = 1; }
-   else       { idxl = 1; idxh = 0; }
-
-   tmp = pnt[0];
-   if ((tmp & 0x7FFFFFFF) == 0)
-   {
-     uval.i[idxl] = pnt[0];
-     uval.i[idxh] = pnt[1];
-     return uval.d;
-   }
-
-   sign        = pnt[0] & 0x80000000;
-   exponent    = ((pnt[0] & 0x7F000000) >> 24) - 64;
-   fraction[0] = pnt[0] & 0x00FFFFFF;
-   fraction[1] = pnt[1];
-
-   if (exponent >= 0)
-      exponent <<= 2;
-   else
-      exponent = -((-exponent) << 2);
-
-   if (fraction[0])
-   {
-      while ((fraction[0] & 0x01000000) == 0)
-      {
-         leftshift(fraction, 1);
-         exponent -= 1;
-      }
-   }
+   uint64_t fraction = 0;
+   int exponent = ((buff[0] & 0x7F) - 64) * 4 - 56;
 
-   rightshift(fraction, 4);
+   for (int i = 1; i < 8; i ++)
+      fraction = (fraction << 8) | buff[i];
+   double val = ldexp((double) fraction, exponent);
 
-   fraction[0] &= 0x000FFFFF;
-   if ((exponent += 1023) >= 2047)
-   {
-      uval.i[idxl] = sign | 0X7FEFFFFF;
-      uval.i[idxh] = 0xFFFFFFFF;
-   }
-   else if (exponent <= 0)
-   {
-      uval.i[idxl] = sign;
-      uval.i[idxh] = 0;
-   }
-   else
-   {
-      uval.i[idxl] = sign | (exponent << 20) | fraction[0];
-      uval.i[idxh] = fraction[1];
-   }
-   return uval.d;
+   return (buff[0] & 0x80) ? -val : val;
 }
 
 short int HRI_machine::i2_from_buff( const unsigned char *buff )
-- 
2.43.0


From 095e04735b64ac9ee8a1cf94eb83a6cee9d9a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 057/174] fix: the date of an HRI file does not depend on the
 local time zone

---
 msat/hri/HRI_subframe_identification.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index 85814ef..9b988b8 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -84,7 +84,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_year = year-1900;
   tmtime.tm_mday = 1;
   tmtime.tm_hour = 12;
-  jtime = mktime(&tmtime) + (julian_day - 1) * 24 * 60 * 60;
+  jtime = timegm(&tmtime) + (julian_day - 1) * 24 * 60 * 60;
   tm1time = gmtime(&jtime);
   month = tm1time->tm_mon + 1;
   day   = tm1time->tm_mday;
-- 
2.43.0


From 7ee1c6e2f851ac3bb06c590077bd47445353635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 058/174] fix: HRI snmxwp_ir is read from its own place

---
 msat/hri/HRI_subframe_interpretation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_interpretation.cpp b/msat/hri/HRI_subframe_interpretation.cpp
index 0cb44c9..68b6a82 100644
--- a/msat/hri/HRI_subframe_interpretation.cpp
+++ b/msat/hri/HRI_subframe_interpretation.cpp
@@ -163,7 +163,7 @@ void HRI_subframe_interpretation::readfrom( char *hsi )
   imag.snmxep_v1 = conv.i2_from_buff((const unsigned char *) hsi+458);
   imag.snmxep_v2 = conv.i2_from_buff((const unsigned char *) hsi+460);
   imag.snmxep_wv = conv.i2_from_buff((const unsigned char *) hsi+462);
-  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+466);
+  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+464);
   imag.snmxwp_v1 = conv.i2_from_buff((const unsigned char *) hsi+466);
   imag.snmxwp_v2 = conv.i2_from_buff((const unsigned char *) hsi+468);
   imag.snmxwp_wv = conv.i2_from_buff((const unsigned char *) hsi+470);
-- 
2.43.0


From 28d95deedd5f95c257410c83ec31f9ad77817bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 059/174] fix: the printed form of HRI headers shows each
 value, and stops at the end of the administrative message

---
 msat/hri/HRI_subframe_interpretation.h | 12 ++++++++----
 msat/hri/HRI_subframe_label.h          |  8 ++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/msat/hri/HRI_subframe_interpretation.h b/msat/hri/HRI_subframe_interpretation.h
index 7afb3d4..2218dbf 100644
--- a/msat/hri/HRI_subframe_interpretation.h
+++ b/msat/hri/HRI_subframe_interpretation.h
@@ -31,6 +31,8 @@
 
 #include <msat/hri/HRI_machine.h>
 #include <iostream>
+#include <string>
+#include <string.h>
 
 typedef struct {
   float bbc1ir;
@@ -309,7 +311,7 @@ class HRI_subframe_interpretation {
          << "Completion of rectification    "
 	 << i.imag.imstat_10 << std::endl
          << "Completion of amplitude proc.  "
-	 << i.imag.imstat_10 << std::endl
+	 << i.imag.imstat_11 << std::endl
          << "Southern line                : "
 	 << i.imag.limhor_1 << std::endl
          << "Southern line, first pixel   : "
@@ -433,7 +435,7 @@ class HRI_subframe_interpretation {
          << "Max space count east V1      : "
 	 << i.imag.snmxep_v1 << std::endl
          << "Max space count east V2      : "
-	 << i.imag.snmxwp_v2 << std::endl
+	 << i.imag.snmxep_v2 << std::endl
          << "Max space count west IR      : "
 	 << i.imag.snmxwp_ir << std::endl 
          << "Max space count west WV      : "
@@ -441,11 +443,13 @@ class HRI_subframe_interpretation {
          << "Max space count west V1      : "
 	 << i.imag.snmxwp_v1 << std::endl
          << "Max space count west V2      : "
-	 << i.imag.snmxep_v2 << std::endl
+	 << i.imag.snmxwp_v2 << std::endl
 	 << "-----------------------------" << std::endl
 	 << "- Administrative Messages   -" << std::endl
 	 << "-----------------------------" << std::endl
-	 << i.mesg.admin_message << std::endl
+	 << std::string(i.mesg.admin_message,
+	                strnlen(i.mesg.admin_message,
+	                        sizeof(i.mesg.admin_message))) << std::endl
 	 << "-----------------------------" << std::endl;
       return os;
     }
diff --git a/msat/hri/HRI_subframe_label.h b/msat/hri/HRI_subframe_label.h
index 6e5b16b..9dfc429 100644
--- a/msat/hri/HRI_subframe_label.h
+++ b/msat/hri/HRI_subframe_label.h
@@ -123,7 +123,7 @@ class HRI_subframe_label {
         if (l.is_VISs_encrypted( ))
 	{
 	  os << "VIS-s channel encrypted with key :"
-	     << l.key_number_VIS_s_indicator << std::endl;
+	     << (int) l.key_number_VIS_s_indicator << std::endl;
 	}
       }
       else os << "VIS-s channel not present" << std::endl;
@@ -140,7 +140,7 @@ class HRI_subframe_label {
         if (l.is_VISn_encrypted( ))
 	{
 	  os << "VIS-n channel encrypted with key :"
-	     << l.key_number_VIS_n_indicator << std::endl;
+	     << (int) l.key_number_VIS_n_indicator << std::endl;
 	}
       }
       else os << "VIS-n channel not present" << std::endl;
@@ -149,7 +149,7 @@ class HRI_subframe_label {
 	os << "IR channel present" << std::endl;
 	if (l.is_IR_encrypted())
 	  os << "IR channel encrypted with key :"
-	     << l.key_number_IR_indicator << std::endl;
+	     << (int) l.key_number_IR_indicator << std::endl;
       }
       else os << "IR channel not present" << std::endl;
       if (l.is_WV_present())
@@ -157,7 +157,7 @@ class HRI_subframe_label {
 	os << "WV channel present" << std::endl;
 	if (l.is_WV_encrypted())
 	  os << "WV channel encrypted with key :"
-	     << l.key_number_WV_indicator << std::endl;
+	     << (int) l.key_number_WV_indicator << std::endl;
       }
       else os << "WV channel not present" << std::endl;
       if (l.is_grid_present())
-- 
2.43.0


From 80ab7ebf64c3e8baa16f82269fe288fb9d98f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 060/174] fix: the date of an HRI file has the right day of the
 week and of the year

---
 msat/hri/HRI_subframe_identification.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index 9b988b8..414aa6d 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -99,6 +99,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_mday = day;
   tmtime.tm_hour = hour;
   tmtime.tm_min  = minute;
+  timegm(&tmtime);
 
   datetime = asctime(&tmtime);
 
-- 
2.43.0


From 732dd58f2acf78a49c6bc1e078fc2115784248c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 061/174] fix: errors in MSG native files are thrown as
 exceptions instead of ending the program

'throw;' with no exception being handled calls std::terminate.
---
 msat/msg-native/MSG_native_header.cpp  | 11 ++++++-----
 msat/msg-native/MSG_native_line.cpp    |  9 +++++----
 msat/msg-native/MSG_native_trailer.cpp |  9 +++++----
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index f3c0aee..b40c701 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 #include <msat/msg-native/MSG_native_header.h>
+#include <stdexcept>
 
 void U_MARF_Header::read_from(const unsigned char *buf)
 {
@@ -90,7 +91,7 @@ void MSG_native_header::read( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: U-MARF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: U-MARF Header");
   }
   mph_sph_header.read_from(ubuf);
 
@@ -98,21 +99,21 @@ void MSG_native_header::read( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
     std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -133,7 +134,7 @@ void MSG_native_header::read( std::ifstream &in )
   if (((unsigned int) (p-x)) != l15_len)
   {
     std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header");
   }
 
   return;
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 186e2e2..7a7fd99 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -24,6 +24,7 @@
 
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
+#include <stdexcept>
 
 MSG_native_linedata::MSG_native_linedata( )
 {
@@ -191,28 +192,28 @@ void MSG_native_line::read( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: Packet Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Header");
   }
   pkh.read_from(lbuf);
   data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
   if (data.datasize < 0)
   {
     std::cerr << "Read error from Native file: Packet Size." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Size");
   }
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: Line Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Header");
   }
   header.read_from(lhbuf);
   in.read((char *) data.data_10bit, data.datasize);
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: Line Data." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Data");
   }
   return;
 }
diff --git a/msat/msg-native/MSG_native_trailer.cpp b/msat/msg-native/MSG_native_trailer.cpp
index 2cf427f..dc18e3c 100644
--- a/msat/msg-native/MSG_native_trailer.cpp
+++ b/msat/msg-native/MSG_native_trailer.cpp
@@ -23,6 +23,7 @@
 //-----------------------------------------------------------------------------
 
 #include <msat/msg-native/MSG_native_trailer.h>
+#include <stdexcept>
 
 void MSG_native_trailer::read( std::ifstream &in )
 {
@@ -33,7 +34,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header");
   }
   impf_packet_header.read_from(lbuf);
 
@@ -41,7 +42,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   {
     std::cerr << "Trailer Size: "
               << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Trailer");
   }
 
   in.read((char *) l15buf, l15_len);
@@ -49,7 +50,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   {
     std::cerr << "Trailer: "
               << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Trailer");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -67,7 +68,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   {
     std::cerr << "Trailer checksum: "
               << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Trailer");
   }
 
   return;
-- 
2.43.0


From d703bde40fff30acd22c4f6a01dc5dacba845c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 062/174] fix: copies of MSG native lines have their own data

They shared it, so the last line of a file was used after being freed, and freed
twice.
---
 msat/msg-native/MSG_native_line.cpp | 26 ++++++++++++++++++++++++++
 msat/msg-native/MSG_native_line.h   |  3 +++
 2 files changed, 29 insertions(+)

diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 7a7fd99..7a4aa6e 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -25,6 +25,7 @@
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
 #include <stdexcept>
+#include <cstring>
 
 MSG_native_linedata::MSG_native_linedata( )
 {
@@ -32,6 +33,29 @@ MSG_native_linedata::MSG_native_linedata( )
   datasize = 0;
 }
 
+MSG_native_linedata::MSG_native_linedata( const MSG_native_linedata &l )
+{
+  data_10bit = 0;
+  datasize = 0;
+  *this = l;
+}
+
+MSG_native_linedata& MSG_native_linedata::operator= (
+                                               const MSG_native_linedata &l )
+{
+  if (this == &l) return *this;
+  unsigned char *d = 0;
+  if (l.data_10bit)
+  {
+    d = new unsigned char[l.datasize];
+    memcpy(d, l.data_10bit, l.datasize);
+  }
+  delete [ ] data_10bit;
+  data_10bit = d;
+  datasize = l.datasize;
+  return *this;
+}
+
 MSG_native_linedata::~MSG_native_linedata( )
 {
   if (data_10bit)
@@ -201,6 +225,8 @@ void MSG_native_line::read( std::ifstream &in )
     std::cerr << "Read error from Native file: Packet Size." << std::endl;
     throw std::runtime_error("Read error from Native file: Packet Size");
   }
+  delete [ ] data.data_10bit;
+  data.data_10bit = 0;
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
diff --git a/msat/msg-native/MSG_native_line.h b/msat/msg-native/MSG_native_line.h
index fc36f3c..80fd043 100644
--- a/msat/msg-native/MSG_native_line.h
+++ b/msat/msg-native/MSG_native_line.h
@@ -88,8 +88,11 @@ class MSG_native_lineheader {
 class MSG_native_linedata {
   public:
     MSG_native_linedata( );
+    MSG_native_linedata( const MSG_native_linedata &l );
     ~MSG_native_linedata( );
 
+    MSG_native_linedata& operator= ( const MSG_native_linedata &l );
+
     void to_sample(unsigned short **samples, long *nsample);
 
     size_t datasize;
-- 
2.43.0


From 6dd4f70410bcd44cb5be7ff8cc3ba5c2633909fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 063/174] fix: lines of MSG native files whose size is not a
 multiple of 4 samples were unpacked out of their buffers

---
 msat/msg-native/MSG_native_line.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 7a4aa6e..15ad35a 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -190,20 +190,14 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
 
   unsigned short *ps = *samples;
   unsigned char  *pc = data_10bit;
-  unsigned int ipos = 0;
-  while (ipos < datasize)
+  for (long i = 0; i < *nsample; i ++)
   {
-    ps[0] = (((unsigned short) pc[0]      ) << 2) |
-            (((unsigned short) pc[1]      ) >> 6);
-    ps[1] = (((unsigned short) pc[1] &  63) << 4) |
-            (((unsigned short) pc[2]      ) >> 4);
-    ps[2] = (((unsigned short) pc[2] &  15) << 6) |
-            (((unsigned short) pc[3]      ) >> 2);
-    ps[3] = (((unsigned short) pc[3] &   3) << 8) |
-            (((unsigned short) pc[4]      )     );
-    pc   += 5;
-    ipos += 5;
-    ps   += 4;
+    // Each sample starts 2 bits further in its first byte
+    int shift = 2 * (i % 4);
+    if (i > 0 && shift == 0) pc ++;
+    ps[i] = ((((unsigned short) pc[0]) << (2 + shift)) & 0x3ff) |
+             (((unsigned short) pc[1]) >> (6 - shift));
+    pc ++;
   }
   return;
 }
-- 
2.43.0


From 3f8b01149e4e6d35d13a630839a5306083979230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 064/174] fix: too short MSG native packets are an error
 instead of a line of negative size

---
 msat/msg-native/MSG_native_line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 15ad35a..14a3fca 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -213,14 +213,14 @@ void MSG_native_line::read( std::ifstream &in )
     throw std::runtime_error("Read error from Native file: Packet Header");
   }
   pkh.read_from(lbuf);
-  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
-  if (data.datasize < 0)
+  if (pkh.gp_packet_header.PacketLength < (unsigned long) 15 + header.lhlen)
   {
     std::cerr << "Read error from Native file: Packet Size." << std::endl;
     throw std::runtime_error("Read error from Native file: Packet Size");
   }
   delete [ ] data.data_10bit;
   data.data_10bit = 0;
+  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
-- 
2.43.0


From 0245383c5b4bb95ba8462e4950f9c1ab48a70899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 065/174] fix: records of the MSG native main header end with
 their space in the file

A record with no terminator included those that follow, and what is in memory
after the header.
---
 msat/msg-native/MSG_native_header.cpp | 113 ++++++++++++++------------
 1 file changed, 60 insertions(+), 53 deletions(-)

diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index b40c701..44cfc8e 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -23,62 +23,69 @@
 //-----------------------------------------------------------------------------
 #include <msat/msg-native/MSG_native_header.h>
 #include <stdexcept>
+#include <cstring>
+
+// A record of the header, up to its end or to its terminator
+static std::string record(const unsigned char *buf, size_t len)
+{
+  return std::string((const char *) buf, strnlen((const char *) buf, len));
+}
 
 void U_MARF_Header::read_from(const unsigned char *buf)
 {
-  mphinfo[0]   = (char *) buf;
-  mphinfo[1]   = (char *) buf+80;
-  mphinfo[2]   = (char *) buf+160;
-  mphinfo[3]   = (char *) buf+240;
-  mphinfo[4]   = (char *) buf+320;
-  mphinfo[5]   = (char *) buf+400;
-  mphinfo[6]   = (char *) buf+480;
-  mphinfo[6]  += (char *) buf+526;
-  mphinfo[7]   = (char *) buf+542;
-  mphinfo[7]  += (char *) buf+588;
-  mphinfo[8]   = (char *) buf+604;
-  mphinfo[8]  += (char *) buf+650;
-  mphinfo[9]   = (char *) buf+666;
-  mphinfo[9]  += (char *) buf+712;
-  mphinfo[10]  = (char *) buf+728;
-  mphinfo[10] += (char *) buf+774;
-  mphinfo[11]  = (char *) buf+2154;
-  mphinfo[12]  = (char *) buf+2234;
-  mphinfo[13]  = (char *) buf+2314;
-  mphinfo[14]  = (char *) buf+2394;
-  mphinfo[15]  = (char *) buf+2474;
-  mphinfo[16]  = (char *) buf+2554;
-  mphinfo[17]  = (char *) buf+2634;
-  mphinfo[18]  = (char *) buf+2714;
-  mphinfo[19]  = (char *) buf+2794;
-  mphinfo[20]  = (char *) buf+2874;
-  mphinfo[21]  = (char *) buf+2954;
-  mphinfo[22]  = (char *) buf+3034;
-  mphinfo[23]  = (char *) buf+3114;
-  mphinfo[24]  = (char *) buf+3194;
-  mphinfo[25]  = (char *) buf+3274;
-  mphinfo[26]  = (char *) buf+3354;
-  mphinfo[27]  = (char *) buf+3434;
-  mphinfo[28]  = (char *) buf+3514;
-  mphinfo[29]  = (char *) buf+3594;
-  mphinfo[30]  = (char *) buf+3674;
-  mphinfo[31]  = (char *) buf+3754;
-  mphinfo[32]  = (char *) buf+3834;
-  mphinfo[33]  = (char *) buf+3914;
-  mphinfo[34]  = (char *) buf+3994;
-  mphinfo[35]  = (char *) buf+4074;
-  mphinfo[36]  = (char *) buf+4154;
-  mphinfo[37]  = (char *) buf+4234;
-  mphinfo[38]  = (char *) buf+4314;
-  mphinfo[39]  = (char *) buf+4394;
-  mphinfo[40]  = (char *) buf+4474;
-  mphinfo[41]  = (char *) buf+4554;
-  mphinfo[42]  = (char *) buf+4634;
-  mphinfo[43]  = (char *) buf+4714;
-  mphinfo[44]  = (char *) buf+4794;
-  mphinfo[45]  = (char *) buf+4874;
-  mphinfo[46]  = (char *) buf+4954;
-  mphinfo[47]  = (char *) buf+5034;
+  mphinfo[0]   = record(buf+0, 80);
+  mphinfo[1]   = record(buf+80, 80);
+  mphinfo[2]   = record(buf+160, 80);
+  mphinfo[3]   = record(buf+240, 80);
+  mphinfo[4]   = record(buf+320, 80);
+  mphinfo[5]   = record(buf+400, 80);
+  mphinfo[6]   = record(buf+480, 46);
+  mphinfo[6]  += record(buf+526, 16);
+  mphinfo[7]   = record(buf+542, 46);
+  mphinfo[7]  += record(buf+588, 16);
+  mphinfo[8]   = record(buf+604, 46);
+  mphinfo[8]  += record(buf+650, 16);
+  mphinfo[9]   = record(buf+666, 46);
+  mphinfo[9]  += record(buf+712, 16);
+  mphinfo[10]  = record(buf+728, 46);
+  mphinfo[10] += record(buf+774, 16);
+  mphinfo[11]  = record(buf+2154, 80);
+  mphinfo[12]  = record(buf+2234, 80);
+  mphinfo[13]  = record(buf+2314, 80);
+  mphinfo[14]  = record(buf+2394, 80);
+  mphinfo[15]  = record(buf+2474, 80);
+  mphinfo[16]  = record(buf+2554, 80);
+  mphinfo[17]  = record(buf+2634, 80);
+  mphinfo[18]  = record(buf+2714, 80);
+  mphinfo[19]  = record(buf+2794, 80);
+  mphinfo[20]  = record(buf+2874, 80);
+  mphinfo[21]  = record(buf+2954, 80);
+  mphinfo[22]  = record(buf+3034, 80);
+  mphinfo[23]  = record(buf+3114, 80);
+  mphinfo[24]  = record(buf+3194, 80);
+  mphinfo[25]  = record(buf+3274, 80);
+  mphinfo[26]  = record(buf+3354, 80);
+  mphinfo[27]  = record(buf+3434, 80);
+  mphinfo[28]  = record(buf+3514, 80);
+  mphinfo[29]  = record(buf+3594, 80);
+  mphinfo[30]  = record(buf+3674, 80);
+  mphinfo[31]  = record(buf+3754, 80);
+  mphinfo[32]  = record(buf+3834, 80);
+  mphinfo[33]  = record(buf+3914, 80);
+  mphinfo[34]  = record(buf+3994, 80);
+  mphinfo[35]  = record(buf+4074, 80);
+  mphinfo[36]  = record(buf+4154, 80);
+  mphinfo[37]  = record(buf+4234, 80);
+  mphinfo[38]  = record(buf+4314, 80);
+  mphinfo[39]  = record(buf+4394, 80);
+  mphinfo[40]  = record(buf+4474, 80);
+  mphinfo[41]  = record(buf+4554, 80);
+  mphinfo[42]  = record(buf+4634, 80);
+  mphinfo[43]  = record(buf+4714, 80);
+  mphinfo[44]  = record(buf+4794, 80);
+  mphinfo[45]  = record(buf+4874, 80);
+  mphinfo[46]  = record(buf+4954, 80);
+  mphinfo[47]  = record(buf+5034, 80);
   return;
 }
 
-- 
2.43.0


From 921b4834ecdeb467ab233a7f05cf6b4325475140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 066/174] fix: another MSG native file can be opened after an
 error

---
 msat/msg-native/MSG_native.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index cbaf9ef..a9aaff2 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -67,7 +67,8 @@ void MSG_native::close( )
     endcolumn[i] = 0;
   }
   nchannels = 0; 
-  if (in) in.close( );
+  if (in.is_open( )) in.close( );
+  in.clear( );
   headerpos = datapos = trailerpos = 0;
   return;
 }
-- 
2.43.0


From 6b32047e7abf301d4d3dad40885a8555c3d8c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 067/174] fix: a main header of MSG native files without a
 needed value is an error

The values were left uninitialised, and a long list of bands overflowed its
buffer.
---
 msat/msg-native/MSG_native.cpp | 53 ++++++++++++++++++----------------
 msat/msg-native/MSG_native.h   |  1 +
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index a9aaff2..92591c1 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -21,6 +21,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <stdexcept>
 #include <iostream>
 #include <fstream>
 #include <cstring>
@@ -78,22 +79,32 @@ MSG_native::~MSG_native( )
   close( );
 }
 
+// The number in a record of the main header
+long MSG_native::record_value(int record, const char *format)
+{
+  long value;
+  if (sscanf(header.mph_sph_header.mphinfo[record].c_str( ),
+             format, &value) != 1)
+  {
+    std::cerr << "Read error from Native file: U-MARF Header." << std::endl;
+    throw std::runtime_error("Read error from Native file: U-MARF Header");
+  }
+  return value;
+}
+
 void MSG_native::read( )
 {
   header.read(in);
-  sscanf(header.mph_sph_header.mphinfo[8].c_str( ),
-          "%*s : %*d %ld\n", &headerpos);
-  sscanf(header.mph_sph_header.mphinfo[9].c_str( ),
-          "%*s : %*d %ld\n", &datapos);
-  sscanf(header.mph_sph_header.mphinfo[10].c_str( ),
-          "%*s : %*d %ld\n", &trailerpos);
+  headerpos  = record_value(8, "%*s : %*d %ld");
+  datapos    = record_value(9, "%*s : %*d %ld");
+  trailerpos = record_value(10, "%*s : %*d %ld");
   in.seekg(trailerpos, std::ios::beg);
   trailer.read(in);
   in.seekg(datapos, std::ios::beg);
 
-  char bandsel[16];
+  char bandsel[16] = "";
   sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
-         "%*s : %s", bandsel);
+         "%*s : %15s", bandsel);
   for (int i = 0; i < SEVIRI_CHANNELS; i ++)
   {
     if (bandsel[i] == 'X')
@@ -102,19 +113,13 @@ void MSG_native::read( )
       nchannels ++;
     }
   }
-  long nlines, ncols, startl, stopl, startc, stopc = 0;
-  sscanf(header.mph_sph_header.mphinfo[40].c_str( ),
-         "%*s : %ld", &startl);
-  sscanf(header.mph_sph_header.mphinfo[41].c_str( ),
-         "%*s : %ld", &stopl);
-  sscanf(header.mph_sph_header.mphinfo[44].c_str( ),
-         "%*s : %ld", &nlines);
-  sscanf(header.mph_sph_header.mphinfo[42].c_str( ),
-         "%*s : %ld", &startc);
-  sscanf(header.mph_sph_header.mphinfo[43].c_str( ),
-         "%*s : %ld", &stopc);
-  sscanf(header.mph_sph_header.mphinfo[45].c_str( ),
-         "%*s : %ld", &ncols);
+  long nlines, ncols, startl, stopl, startc, stopc;
+  startl = record_value(40, "%*s : %ld");
+  stopl  = record_value(41, "%*s : %ld");
+  nlines = record_value(44, "%*s : %ld");
+  startc = record_value(42, "%*s : %ld");
+  stopc  = record_value(43, "%*s : %ld");
+  ncols  = record_value(45, "%*s : %ld");
 
   MSG_native_line aline;
   for (int il = 0; il < nlines; il ++)
@@ -145,10 +150,8 @@ void MSG_native::read( )
   }
   if (selected_channel[HRV_CHANNEL])
   {
-    sscanf(header.mph_sph_header.mphinfo[46].c_str( ),
-           "%*s : %ld", &nlines);
-    sscanf(header.mph_sph_header.mphinfo[47].c_str( ),
-           "%*s : %ld", &ncols);
+    nlines = record_value(46, "%*s : %ld");
+    ncols  = record_value(47, "%*s : %ld");
     numberlines[HRV_CHANNEL] = nlines;
     startline[HRV_CHANNEL] = startl;
     endline[HRV_CHANNEL] = stopl;
diff --git a/msat/msg-native/MSG_native.h b/msat/msg-native/MSG_native.h
index e6ce056..398bd10 100644
--- a/msat/msg-native/MSG_native.h
+++ b/msat/msg-native/MSG_native.h
@@ -67,6 +67,7 @@ class MSG_native {
 
     friend std::ostream& operator<< ( std::ostream& os, MSG_native &m );
   private:
+    long record_value(int record, const char *format);
     std::ifstream in;
     long headerpos;
     long datapos;
-- 
2.43.0


From 4b45e670914f2b169d413377fcd97da47410a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 068/174] fix: the data of an MSG native channel has the size
 its header says

Lines longer than the columns of the header, or more of them, were written after
the end of the data, and what is missing was left uninitialised.
---
 msat/msg-native/MSG_native.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 92591c1..e756302 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 #include <stdexcept>
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include <cstring>
@@ -227,21 +228,22 @@ unsigned short *MSG_native::data(int channel)
   if (channel < 0 || channel >= SEVIRI_CHANNELS) return 0;
   if (!selected_channel[channel]) return 0;
 
-  long size = numberlines[channel]*numbercolumns[channel];
+  long nl = numberlines[channel];
   long px = numbercolumns[channel];
+  if (nl < 0 || px < 0) return 0;
 
-  unsigned short *s = new unsigned short[size];
-  unsigned short *sp;
-  long ns;
+  // Missing lines and samples are 0
+  unsigned short *s = new unsigned short[nl*px];
+  memset(s, 0, nl*px*sizeof(unsigned short));
 
   std::list <MSG_native_line>::iterator p = line[channel].begin( );
-  int count = 0;
-  while (p != line[channel].end( ))
+  for (long count = 0; count < nl && p != line[channel].end( ); count ++, p ++)
   {
-    sp = s+count*px;
+    unsigned short *sp = 0;
+    long ns;
     p->data.to_sample(&sp, &ns);
-    p ++;
-    count ++;
+    memcpy(s+count*px, sp, (ns < px ? ns : px)*sizeof(unsigned short));
+    delete [ ] sp;
   }
   return s;
 }
-- 
2.43.0


From 4ed9079c5c29e98449936fe7e1845d92c8c3b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 069/174] fix: MSG native files are printed on the stream they
 are given

---
 msat/msg-native/MSG_native.cpp              | 2 +-
 msat/msg-native/MSG_native_line.cpp         | 3 ++-
 msat/msg-native/MSG_native_packetheader.cpp | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index e756302..4e82343 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -173,7 +173,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_native &m )
     std::list <MSG_native_line>::iterator p = m.line[ic].begin( );
     while (p != m.line[ic].end( ))
     {
-      std::cout << *p;
+      os << *p;
       p ++;
     }
   }
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 14a3fca..61cf8ec 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -244,10 +244,11 @@ std::ostream& operator<< ( std::ostream& os, MSG_native_line &l )
   long ns;
   unsigned short *p = 0;
   l.data.to_sample(&p, &ns);
-  std::cout << "Got " << ns << " samples from channel "
+  os << "Got " << ns << " samples from channel "
             << (short) l.header.ChannelId
             << ", line count " << l.header.LineNumberInGrid << std::endl;
   for (int i = 0; i < ns; i ++)
     os << p[i] << std::endl;
+  delete [ ] p;
   return os;
 }
diff --git a/msat/msg-native/MSG_native_packetheader.cpp b/msat/msg-native/MSG_native_packetheader.cpp
index 52368db..4650a43 100644
--- a/msat/msg-native/MSG_native_packetheader.cpp
+++ b/msat/msg-native/MSG_native_packetheader.cpp
@@ -79,7 +79,7 @@ std::ostream& operator<< ( std::ostream& os, IMPF_Packet_Header &h )
      << "DestFacilityId              : " << (short) ph->DestFacilityId
      << std::endl
      << "DestEnvId                   : " << (short) ph->DestEnvId << std::endl
-     << "SequenceCount               : " << (short) ph->SequenceCount
+     << "SequenceCount               : " << ph->SequenceCount
      << std::endl
      << "PacketLength                : " << ph->PacketLength << std::endl
      << "------------------------------------------------------" << std::endl
-- 
2.43.0


From 8ac1475506bee8e3b1f6e10d7912e8de23e2d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 070/174] fix: PGM dumps of MSG native channels are PGM files

The size was wrong for lines with more samples than columns, samples had their
bytes swapped, and header records without a new line joined the image size to the
comments.
---
 msat/msg-native/MSG_native.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 4e82343..14ecb15 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -22,7 +22,6 @@
 //
 //-----------------------------------------------------------------------------
 #include <stdexcept>
-#include <cstring>
 #include <iostream>
 #include <fstream>
 #include <cstring>
@@ -190,25 +189,25 @@ bool MSG_native::pgmdump(int ic, char *filename)
 
   os << "P5" << std::endl;
   for (int i = 0; i < (int) header.mph_sph_header.mph_lines; i ++)
-    os << "# " << header.mph_sph_header.mphinfo[i];
+  {
+    const std::string &info = header.mph_sph_header.mphinfo[i];
+    os << "# " << info.substr(0, info.find('\n')) << std::endl;
+  }
   os << numbercolumns[ic] << " " << numberlines[ic] << std::endl;
-  os << "1024" << std::endl;
-
-  unsigned short *s = 0;
-  long ns;
+  os << "1023" << std::endl;
 
-  std::list <MSG_native_line>::iterator p = line[ic].begin( );
-  while (p != line[ic].end( ))
+  // The samples of a PGM file have the most significant byte first
+  unsigned short *s = data(ic);
+  long ns = (long) numberlines[ic] * numbercolumns[ic];
+  for (long i = 0; s && i < ns; i ++)
   {
-    p->data.to_sample(&s, &ns);
-    os.write((char *) s, ns*sizeof(short));
-    p ++;
+    os.put((char) (s[i] >> 8));
+    os.put((char) s[i]);
   }
-  os.close( );
-
   delete [ ] s;
+  os.close( );
 
-  return true;
+  return !os.fail( );
 }
 
 int MSG_native::lines(int channel)
-- 
2.43.0


From 78f774fca8c6f8c7b4acc6a8e0937f0e853618e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 071/174] fix: generalized times keep nothing of the time that
 was read before

---
 msat/hrit/MSG_time_cds.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index 3c9c537..01d2999 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -347,6 +347,8 @@ MSG_time_generalized::~MSG_time_generalized( ) { }
 size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 {
   char_1 text[16];
+  // Nothing remains of what was read before
+  memset(&generalized_time, 0, sizeof(struct tm));
   memcpy(text, buff, 15);
   text[15] = 0;
   sscanf(text, "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
-- 
2.43.0


From 2dc6d5c23f43c4ffe75d9f8496e972410f430e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 072/174] fix: calibrated views of images with large blocks
 overflowed the stack

---
 msat/gdal/dataset.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 5ca2320..40d5bc4 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -23,6 +23,7 @@
 #include <gdal/ogr_spatialref.h>
 #include <msat/facts.h>
 #include <stdint.h>
+#include <vector>
 
 using namespace std;
 
@@ -386,13 +387,14 @@ double CalibratedRasterBand::GetNoDataValue(int *pbSuccess)
 CPLErr CalibratedRasterBand::IReadBlock(int xblock, int yblock, void *buf)
 {
     // Read the raw data
-    uint16_t raw[nBlockXSize * nBlockYSize];
-    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw) == CE_Failure)
+    size_t count = (size_t)nBlockXSize * nBlockYSize;
+    std::vector<uint16_t> raw(count);
+    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw.data()) == CE_Failure)
         return CE_Failure;
 
     // Compute reflectances
     float* dest = (float*) buf;
-    for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
+    for (size_t i = 0; i < count; ++i)
     {
         // Calibrate from counts to radiance
         dest[i] = raw[i] * scale + ofs;
-- 
2.43.0


From c3f11c1c5133813a4fe680d4da59f4399c24e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 073/174] fix: minimum and maximum of calibrated views were
 swapped when the scale is negative

---
 msat/gdal/dataset.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 40d5bc4..4ade67a 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -356,13 +356,14 @@ CalibratedRasterBand::CalibratedRasterBand(GDALDataset& ds, GDALRasterBand& rb,
 
 double CalibratedRasterBand::GetMinimum(int *pbSuccess)
 {
-    double res = rb.GetMinimum(pbSuccess);
+    // A negative scale swaps minimum and maximum
+    double res = scale < 0 ? rb.GetMaximum(pbSuccess) : rb.GetMinimum(pbSuccess);
     return res * scale + ofs;
 }
 
 double CalibratedRasterBand::GetMaximum(int *pbSuccess)
 {
-    double res = rb.GetMaximum(pbSuccess);
+    double res = scale < 0 ? rb.GetMinimum(pbSuccess) : rb.GetMaximum(pbSuccess);
     return res * scale + ofs;
 }
 
-- 
2.43.0


From 5f941dcdb11ca693ea6460a0afafbbd5e91da03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 074/174] fix: missing pixels stay missing in calibrated views

The no data value was always 0, which the missing pixels do not have and other
pixels may have.
---
 msat/gdal/dataset.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 4ade67a..e52d105 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -381,8 +381,12 @@ double CalibratedRasterBand::GetScale(int *pbSuccess)
 
 double CalibratedRasterBand::GetNoDataValue(int *pbSuccess)
 {
-    if (pbSuccess) *pbSuccess = TRUE;
-    return 0.0;
+    int success = FALSE;
+    double res = rb.GetNoDataValue(&success);
+    if (pbSuccess) *pbSuccess = success;
+    if (!success) return res;
+    // The value that missing pixels have in the view
+    return (float)(res * scale + ofs);
 }
 
 CPLErr CalibratedRasterBand::IReadBlock(int xblock, int yblock, void *buf)
-- 
2.43.0


From 763d60ce225781916839be5bb3c0e1bd3d7efd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 075/174] fix: proxy datasets keep the projection of ground
 control points with GDAL 3

---
 msat/gdal/dataset.cpp | 4 ++++
 msat/gdal/dataset.h   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index e52d105..34ef21b 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -289,7 +289,11 @@ CPLErr ProxyDataset::GetGeoTransform(double* d) { return ds.GetGeoTransform(d);
 GDALDriver* ProxyDataset::GetDriver(void) { return ds.GetDriver(); }
 char** ProxyDataset::GetFileList(void) { return ds.GetFileList(); }
 int ProxyDataset::GetGCPCount() { return ds.GetGCPCount(); }
+#if GDAL_VERSION_MAJOR < 3
 const char* ProxyDataset::GetGCPProjection() { return ds.GetGCPProjection(); }
+#else
+const OGRSpatialReference* ProxyDataset::GetGCPSpatialRef() const { return ds.GetGCPSpatialRef(); }
+#endif
 const GDAL_GCP* ProxyDataset::GetGCPs() { return ds.GetGCPs(); }
 
 ProxyRasterBand::ProxyRasterBand(GDALDataset& ds, GDALRasterBand& rb, int idx)
diff --git a/msat/gdal/dataset.h b/msat/gdal/dataset.h
index 10eae01..925cb70 100644
--- a/msat/gdal/dataset.h
+++ b/msat/gdal/dataset.h
@@ -134,7 +134,11 @@ public:
     GDALDriver* GetDriver(void) override;
     char** GetFileList(void) override;
     int GetGCPCount() override;
+#if GDAL_VERSION_MAJOR < 3
     virtual const char* GetGCPProjection();
+#else
+    const OGRSpatialReference* GetGCPSpatialRef() const override;
+#endif
     const GDAL_GCP* GetGCPs() override;
 };
 
-- 
2.43.0


From 2e653b5683cb276dd31c75a8d6f2a06b4e315e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 076/174] fix: proxy datasets list the metadata domains of
 their source

---
 msat/gdal/dataset.cpp | 2 ++
 msat/gdal/dataset.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 34ef21b..8f5be87 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -270,6 +270,7 @@ ProxyDataset::ProxyDataset(GDALDataset& ds)
 }
 
 const char* ProxyDataset::GetDescription() const { return ds.GetDescription(); }
+char** ProxyDataset::GetMetadataDomainList() { return ds.GetMetadataDomainList(); }
 char** ProxyDataset::GetMetadata(const char *pszDomain) { return ds.GetMetadata(pszDomain); }
 const char* ProxyDataset::GetMetadataItem(const char *pszName, const char *pszDomain)
 {
@@ -307,6 +308,7 @@ ProxyRasterBand::ProxyRasterBand(GDALDataset& ds, GDALRasterBand& rb, int idx)
 }
 
 const char* ProxyRasterBand::GetDescription() const { return rb.GetDescription(); }
+char** ProxyRasterBand::GetMetadataDomainList() { return rb.GetMetadataDomainList(); }
 char** ProxyRasterBand::GetMetadata(const char *pszDomain) { return rb.GetMetadata(pszDomain); }
 const char* ProxyRasterBand::GetMetadataItem(const char *pszName, const char *pszDomain)
 {
diff --git a/msat/gdal/dataset.h b/msat/gdal/dataset.h
index 925cb70..dd69171 100644
--- a/msat/gdal/dataset.h
+++ b/msat/gdal/dataset.h
@@ -121,6 +121,7 @@ public:
 
     // GDALMajorObject
     const char* GetDescription() const override;
+    char** GetMetadataDomainList() override;
     char** GetMetadata(const char *pszDomain="") override;
     const char* GetMetadataItem(const char *pszName, const char *pszDomain="") override;
 
@@ -152,6 +153,7 @@ public:
 
     // GDALMajorObject
     const char* GetDescription() const override;
+    char** GetMetadataDomainList() override;
     char** GetMetadata(const char *pszDomain="") override;
     const char* GetMetadataItem(const char *pszName, const char *pszDomain="") override;
 
-- 
2.43.0


From 93340f786067f020c75c03a471991ca13a3e85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 077/174] fix: window, bands and scale computed for a dataset
 were used for the next ones too

---
 msat/gdal/gdaltranslate.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index d6a2d55..d85c3c8 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -37,7 +37,9 @@
 #include <gdal_priv.h>
 #include <ogr_spatialref.h>
 #include <vrtdataset.h>
+#include <algorithm>
 #include <ostream>
+#include <vector>
 
 using namespace std;
 
@@ -110,6 +112,15 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
     // int                 iSrcFileArg = -1, iDstFileArg = -1;
     // int                 bCopySubDatasets = FALSE;
 
+    // What is computed from the dataset is not kept for the next one
+    int anSrcWin[4];
+    std::copy(this->anSrcWin, this->anSrcWin + 4, anSrcWin);
+    int nBandCount = this->nBandCount;
+    int bDefBands = this->bDefBands;
+    std::vector<int> panBandList(this->panBandList, this->panBandList + nBandCount);
+    double dfScaleSrcMin = this->dfScaleSrcMin, dfScaleSrcMax = this->dfScaleSrcMax;
+    double dfScaleDstMax = this->dfScaleDstMax;
+
     /* Check strict compilation and runtime library version as we use C++ API */
     if (! GDAL_CHECK_VERSION("GDALTranslate"))
         return NULL;
@@ -204,9 +215,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             return NULL;
         }
 
-        panBandList = (int *) CPLMalloc(sizeof(int)*nBandCount);
         for( i = 0; i < nBandCount; i++ )
-            panBandList[i] = i+1;
+            panBandList.push_back(i+1);
     }
     else
     {
-- 
2.43.0


From e3b987b4600811bcb76c3208223cd14a68707423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 078/174] fix: metadata and control points to set were freed
 after the first translation

---
 msat/gdal/gdaltranslate.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index d85c3c8..845ef95 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -92,6 +92,12 @@ GDALTranslate::~GDALTranslate()
 {
     CPLFree( panBandList );
     CSLDestroy( papszCreateOptions );
+    CSLDestroy( papszMetadataOptions );
+    if (pasGCPs)
+    {
+        GDALDeinitGCPs( nGCPCount, pasGCPs );
+        CPLFree( pasGCPs );
+    }
 }
 
 /************************************************************************/
@@ -402,9 +408,6 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             pszGCPProjection = "";
 
         poVDS->SetGCPs( nGCPCount, pasGCPs, pszGCPProjection );
-
-        GDALDeinitGCPs( nGCPCount, pasGCPs );
-        CPLFree( pasGCPs );
     }
 
     else if( GDALGetGCPCount( hDataset ) > 0 )
@@ -589,8 +592,6 @@ static void AttachMetadata( GDALDatasetH hDS, char **papszMetadataOptions )
         GDALSetMetadataItem(hDS,pszKey,pszValue,NULL);
         CPLFree( pszKey );
     }
-
-    CSLDestroy( papszMetadataOptions );
 }
 
 void GDALTranslate::dump(std::ostream& out)
-- 
2.43.0


From 500ff722fb47f20bdaa1e71e53d16a83fcf5c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 079/174] fix: projected windows of images without geotransform
 used random values

---
 msat/gdal/gdaltranslate.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 845ef95..a7608be 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -253,7 +253,13 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
     {
         double	adfGeoTransform[6];
 
-        GDALGetGeoTransform( hDataset, adfGeoTransform );
+        if( GDALGetGeoTransform( hDataset, adfGeoTransform ) != CE_None )
+        {
+            CPLError(CE_Failure, CPLE_AppDefined,
+                     "The -projwin option was used, but there is no "
+                     "geotransform." );
+            return NULL;
+        }
 
         if( adfGeoTransform[2] != 0.0 || adfGeoTransform[4] != 0.0 )
         {
-- 
2.43.0


From 4a9d9e71edd7c66635ec77d11031a50da430f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 080/174] fix: windows that start outside of the image, or are
 very large, are refused

Projected windows that start less than a pixel before the image were moved into
it, and the sums of large offsets and sizes overflowed.
---
 msat/gdal/gdaltranslate.cpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index a7608be..920128e 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -38,6 +38,8 @@
 #include <ogr_spatialref.h>
 #include <vrtdataset.h>
 #include <algorithm>
+#include <climits>
+#include <cmath>
 #include <ostream>
 #include <vector>
 
@@ -269,13 +271,23 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             return NULL;
         }
 
-        anSrcWin[0] = (int) 
-            ((dfULX - adfGeoTransform[0]) / adfGeoTransform[1] + 0.001);
-        anSrcWin[1] = (int) 
-            ((dfULY - adfGeoTransform[3]) / adfGeoTransform[5] + 0.001);
-
-        anSrcWin[2] = (int) ((dfLRX - dfULX) / adfGeoTransform[1] + 0.5);
-        anSrcWin[3] = (int) ((dfLRY - dfULY) / adfGeoTransform[5] + 0.5);
+        const double window[4] = {
+            floor((dfULX - adfGeoTransform[0]) / adfGeoTransform[1] + 0.001),
+            floor((dfULY - adfGeoTransform[3]) / adfGeoTransform[5] + 0.001),
+            floor((dfLRX - dfULX) / adfGeoTransform[1] + 0.5),
+            floor((dfLRY - dfULY) / adfGeoTransform[5] + 0.5)
+        };
+        for( i = 0; i < 4; i++ )
+        {
+            if( !(fabs(window[i]) < INT_MAX) )
+            {
+                CPLError(CE_Failure, CPLE_AppDefined,
+                         "Computed -srcwin falls outside raster size of %dx%d.",
+                         nRasterXSize, nRasterYSize );
+                return NULL;
+            }
+            anSrcWin[i] = (int) window[i];
+        }
 
 #if 0
         if( !bQuiet )
@@ -288,8 +300,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 #endif
         
         if( anSrcWin[0] < 0 || anSrcWin[1] < 0 
-            || anSrcWin[0] + anSrcWin[2] > GDALGetRasterXSize(hDataset) 
-            || anSrcWin[1] + anSrcWin[3] > GDALGetRasterYSize(hDataset) )
+            || anSrcWin[2] > nRasterXSize || anSrcWin[0] > nRasterXSize - anSrcWin[2]
+            || anSrcWin[3] > nRasterYSize || anSrcWin[1] > nRasterYSize - anSrcWin[3] )
         {
             CPLError(CE_Failure, CPLE_AppDefined, 
                      "Computed -srcwin falls outside raster size of %dx%d.",
@@ -304,8 +316,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /* -------------------------------------------------------------------- */
     if( anSrcWin[0] < 0 || anSrcWin[1] < 0 
         || anSrcWin[2] <= 0 || anSrcWin[3] <= 0
-        || anSrcWin[0] + anSrcWin[2] > GDALGetRasterXSize(hDataset) 
-        || anSrcWin[1] + anSrcWin[3] > GDALGetRasterYSize(hDataset) )
+        || anSrcWin[2] > nRasterXSize || anSrcWin[0] > nRasterXSize - anSrcWin[2]
+        || anSrcWin[3] > nRasterYSize || anSrcWin[1] > nRasterYSize - anSrcWin[3] )
     {
         CPLError(CE_Failure, CPLE_AppDefined, 
                  "-srcwin %d %d %d %d falls outside raster size of %dx%d "
-- 
2.43.0


From 4bd888d461b9115d3bd48867c16e26a87ece404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 081/174] fix: output sizes of 0, negative or missing are
 refused

---
 msat/gdal/gdaltranslate.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 920128e..867ae52 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -48,6 +48,17 @@ using namespace std;
 CPL_CVSID("$Id: gdal_translate.cpp 15640 2008-10-29 20:19:56Z rouault $");
 
 static void AttachMetadata( GDALDatasetH, char ** );
+
+// Size requested as pixels or as percentage of the source; 0 if it is not valid
+static int outputSize( const char *pszSize, int nSrcSize )
+{
+    if( pszSize == NULL || *pszSize == 0 )
+        return 0;
+    double dfSize = atof( pszSize );
+    if( pszSize[strlen(pszSize)-1] == '%' )
+        dfSize = dfSize / 100 * nSrcSize;
+    return dfSize >= 1 && dfSize < INT_MAX ? (int) dfSize : 0;
+}
 // static int bSubCall = FALSE;
 
 GDALTranslate::GDALTranslate()
@@ -358,10 +369,14 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
     }
     else
     {
-        nOXSize = (int) ((pszOXSize[strlen(pszOXSize)-1]=='%' 
-                          ? atof(pszOXSize)/100*anSrcWin[2] : atoi(pszOXSize)));
-        nOYSize = (int) ((pszOYSize[strlen(pszOYSize)-1]=='%' 
-                          ? atof(pszOYSize)/100*anSrcWin[3] : atoi(pszOYSize)));
+        nOXSize = outputSize( pszOXSize, anSrcWin[2] );
+        nOYSize = outputSize( pszOYSize, anSrcWin[3] );
+        if( nOXSize <= 0 || nOYSize <= 0 )
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "Invalid output size %s %s.",
+                     pszOXSize, pszOYSize ? pszOYSize : "" );
+            return NULL;
+        }
     }
     
 /* ==================================================================== */
-- 
2.43.0


From d793021c75621d1602d00fda62b0c542d9651ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 082/174] fix: a list of bands in another order is not ignored

---
 msat/gdal/gdaltranslate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 867ae52..cbb4c24 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -252,6 +252,9 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 
         if( nBandCount != GDALGetRasterCount( hDataset ) )
             bDefBands = FALSE;
+        for( i = 0; i < nBandCount; i++ )
+            if( panBandList[i] != i+1 )
+                bDefBands = FALSE;
     }
 
 /* -------------------------------------------------------------------- */
-- 
2.43.0


From ca867f2784f3f4b15259ae0190fff805f88664d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 083/174] fix: bands that follow an expanded one were looked
 for outside the list of bands

---
 msat/gdal/gdaltranslate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index cbb4c24..2ea01a2 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -515,7 +515,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
         }
         else
             poSrcBand = ((GDALDataset *) 
-                        hDataset)->GetRasterBand(panBandList[i]);
+                        hDataset)->GetRasterBand(
+                            panBandList[nRGBExpand != 0 ? i - nRGBExpand + 1 : i]);
 
 /* -------------------------------------------------------------------- */
 /*      Select output data type to match source.                        */
-- 
2.43.0


From 5075862818a45e9184d43049014f102adda51429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 084/174] fix: bands whose range cannot be computed were scaled
 with random values

---
 msat/gdal/gdaltranslate.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 2ea01a2..8cac156 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -540,7 +540,11 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
         if( bScale && !bHaveScaleSrc )
         {
             double	adfCMinMax[2];
-            GDALComputeRasterMinMax( poSrcBand, TRUE, adfCMinMax );
+            if( GDALComputeRasterMinMax( poSrcBand, TRUE, adfCMinMax ) != CE_None )
+            {
+                GDALClose( (GDALDatasetH) poVDS );
+                return NULL;
+            }
             dfScaleSrcMin = adfCMinMax[0];
             dfScaleSrcMax = adfCMinMax[1];
         }
-- 
2.43.0


From aae2487b5f54760622add892794bb5f45407327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 085/174] fix: recode scales to the requested size, and fails
 when the crop area is not in the image

---
 msat/gdal/dataset.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 8f5be87..69fc133 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -125,7 +125,16 @@ GDALDataset* recode(
 	translate.anSrcWin[2] = cropArea.bottomRight.column - cropArea.topLeft.column;
 	translate.anSrcWin[3] = cropArea.bottomRight.line - cropArea.topLeft.line;
 
+	// Scale if a different size is requested
+	string osx = to_string(sx), osy = to_string(sy);
+	if (sx != translate.anSrcWin[2] || sy != translate.anSrcWin[3])
+	{
+		translate.pszOXSize = osx.c_str();
+		translate.pszOYSize = osy.c_str();
+	}
+
 	GDALDataset* vds = translate.translate(ds);
+	if (vds == NULL) return NULL;
 
 	char** options = 0;
 	if (!opt1.empty()) options = CSLAddString(options, opt1.c_str());
-- 
2.43.0


From c78893e6092afab01f4fb9d8003a22db530162b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 086/174] fix: msat fails with an error when the requested area
 or bands are not in the image

---
 tools/msat.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 9f3ab6d..804188b 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -665,6 +665,11 @@ int Msat::main()
 
             GDALDataset* vds = translate.translate(dataset.get());
             //translate.dump(cerr);
+            if (vds == NULL)
+            {
+                    cerr << CPLGetLastErrorMsg() << endl;
+                    return 1;
+            }
 
             if (!mdtemplate.empty())
             {
-- 
2.43.0


From d2a59789d499430bd9777cf460dc9d0be8fc2051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 087/174] fix: images after one that is scaled down have their
 own size, and thin images have at least a pixel

---
 tools/msat.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 804188b..d2ae972 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -351,16 +351,24 @@ struct Msat
                 tx = tx * maxy / ty;
                 ty = maxy;
         }
-        if (tx != sx && ty != sy)
+        // Thin images still have a pixel
+        if (tx == 0) tx = 1;
+        if (ty == 0) ty = 1;
+        if (tx != sx || ty != sy)
         {
             cerr << "Note: image scaled down to " << tx << "x" << ty << " to prevent excessive memory usage." << endl;
             cerr << "      you can set one of --area, --Area, --around, or --resize to prevent this." << endl;
-            char buf[16];
-            snprintf(buf, 16, "%zd", tx); scaleX = buf;
-            snprintf(buf, 16, "%zd", ty); scaleY = buf;
+            scaleX = to_string(tx);
+            scaleY = to_string(ty);
             translate.pszOXSize = scaleX.c_str();
             translate.pszOYSize = scaleY.c_str();
         }
+        else if (maxx != 0 || maxy != 0)
+        {
+            // Nothing remains of the scaling of another image
+            translate.pszOXSize = NULL;
+            translate.pszOYSize = NULL;
+        }
     }
 };
 
-- 
2.43.0


From c540e6566a1e785085c86591c089118c2fe3c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 088/174] fix: very large band indices of msat are refused

---
 tools/msat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index d2ae972..0b8cfe0 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <iomanip>
 
+#include <climits>
 #include <cstdlib>
 #include <getopt.h>
 
@@ -600,7 +601,7 @@ int Msat::main()
                     if (endptr - sptr == (signed)bi->size())
                     {
                         // If it is an integer, use it literally
-                        bands[band_count++] = idx;
+                        bands[band_count++] = idx <= INT_MAX ? idx : 0;
                     } else {
                         // If it is a string, remove leading bang (if any)
                         // and lookup in raster band descriptions
@@ -619,6 +620,7 @@ int Msat::main()
                     continue;
                 }
 
+                CPLFree(translate.panBandList);
                 translate.panBandList = bands;
                 translate.nBandCount = band_count;
                 translate.bDefBands = TRUE;
-- 
2.43.0


From 44742334cc884489d78fef0c9ac74505b33ece8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 089/174] fix: --copymd changed the metadata of the input
 files, and a file that cannot be opened was a crash

---
 tools/msat.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 0b8cfe0..ca1be78 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -684,6 +684,23 @@ int Msat::main()
             if (!mdtemplate.empty())
             {
                     unique_ptr<GDALDataset> mdds((GDALDataset*)GDALOpen(mdtemplate.c_str(), GA_ReadOnly));
+                    if (mdds.get() == NULL)
+                    {
+                            cerr << CPLGetLastErrorMsg() << endl;
+                            return 1;
+                    }
+
+                    // Leave the source alone: its changes can be saved with it
+                    if (vds == dataset.get())
+                    {
+                            vds = (GDALDataset*)GDALCreateCopy(GDALGetDriverByName("VRT"), "", dataset.get(),
+                                            FALSE, NULL, NULL, NULL);
+                            if (vds == NULL)
+                            {
+                                    cerr << CPLGetLastErrorMsg() << endl;
+                                    return 1;
+                            }
+                    }
 
                     // Copy metadata from mdds to vds
                     vds->SetDescription(mdds->GetDescription());
-- 
2.43.0


From b130663a9749201b2235732e3ede5f2849a74ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 090/174] fix: the source of calibrated images was destroyed
 before them

---
 tools/msat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index ca1be78..5e0a21a 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -572,6 +572,8 @@ int Msat::main()
 {
     for (vector<string>::const_iterator i = input_files.begin(); i != input_files.end(); ++i)
     {
+            // The source of the calibrated view has to outlive it
+            unique_ptr<GDALDataset> ds_orig;
             unique_ptr<GDALDataset> dataset((GDALDataset*)GDALOpen(i->c_str(), GA_ReadOnly));
             if (dataset.get() == NULL)
             {
@@ -579,7 +581,6 @@ int Msat::main()
                     return 1;
             }
 
-            unique_ptr<GDALDataset> ds_orig;
             if (force_calibration)
             {
                 ds_orig = move(dataset);
-- 
2.43.0


From 302239e823541fd45268b278c0ff61d581b1ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 091/174] fix: --around is in degrees for projected images too

It was used as coordinates of the projection, which are not degrees in
geostationary images.
---
 tools/msat.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 5e0a21a..6be1058 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -455,17 +455,17 @@ void Msat::parse_cmdline(int argc, char* argv[])
                             has_size = true;
                             break;
                     case 'C': { // --around
-                            double lat, lon, h, w;
-                            if (sscanf(optarg, "%lf,%lf,%lf,%lf", &lat,&lon,&h,&w) != 4)
+                            double clat, clon, h, w;
+                            if (sscanf(optarg, "%lf,%lf,%lf,%lf", &clat,&clon,&h,&w) != 4)
                             {
                                     cerr << "around value should be in the format lat,lon,lath,lonw" << endl;
                                     do_help(argv[0], cerr);
                                     exit(1);
                             }
-                            translate.dfLRY = lat - h/2;
-                            translate.dfULY = lat + h/2;
-                            translate.dfULX = lon - w/2;
-                            translate.dfLRX = lon + w/2;
+                            lat[0] = clat - h/2;
+                            lat[1] = clat + h/2;
+                            lon[0] = clon - w/2;
+                            lon[1] = clon + w/2;
                             has_size = true;
                             break;
                     }
-- 
2.43.0


From 02b0b18a042749d90bd20d31c41edf03e5e2edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 092/174] fix: --copymd overwrote the file that metadata is
 copied from

---
 tools/msat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 6be1058..1b0fa9c 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -704,7 +704,8 @@ int Msat::main()
                     }
 
                     // Copy metadata from mdds to vds
-                    vds->SetDescription(mdds->GetDescription());
+                    // (not its description, which is the name of the file
+                    // that virtual datasets are saved to)
                     vds->SetMetadata(mdds->GetMetadata());
 
                     // Copy raster band metadata from mdds to vds
-- 
2.43.0


From 61f4e7694de5f5ed60d4db28f0b492fec7167e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 093/174] fix: exporting an image that cannot be read was a
 crash

---
 tools/image.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/image.cpp b/tools/image.cpp
index 4a0e0b9..2dbb1f1 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -157,6 +157,8 @@ bool export_image(GDALRasterBand* band, const std::string& fileName, Stretch& s)
 
     unique_ptr<Magick::Image> image = imageToMagick(*band, s);
 
+    if (image.get() == 0) return false;
+
     // p.activity("Writing image to file");
     image->write(fileName);
     return true;
-- 
2.43.0


From 72f449221a5e970c5155483b05b173da02d26f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 094/174] fix: limits of --stretch outside of the values of the
 image type were wrapped

---
 tools/image.cpp | 16 ++++++++--------
 tools/image.h   |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/tools/image.cpp b/tools/image.cpp
index 2dbb1f1..9b383f2 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -9,7 +9,7 @@ using namespace std;
 namespace msat {
 
 template<typename T>
-void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T& vmax)
+void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, double& vmin, double& vmax)
 {
   if (!compute)
   {
@@ -40,7 +40,7 @@ void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T&
 }
 
 template<typename T>
-uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax)
+uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, double vmin, double vmax)
 {
   size_t sx = band.GetXSize();
   size_t sy = band.GetYSize();
@@ -85,8 +85,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            uint8_t vmin;
-            uint8_t vmax;
+            double vmin;
+            double vmax;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
@@ -106,8 +106,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            uint16_t vmin;
-            uint16_t vmax;
+            double vmin;
+            double vmax;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
@@ -127,8 +127,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             }
 
             // Compute min and max values
-            float vmin = 0;
-            float vmax = 0;
+            double vmin = 0;
+            double vmax = 0;
             s.compute_if_needed(band, res, vmin, vmax);
 
             // Rescale to 8 bits
diff --git a/tools/image.h b/tools/image.h
index b017af3..7e4b942 100644
--- a/tools/image.h
+++ b/tools/image.h
@@ -39,10 +39,10 @@ struct Stretch
     Stretch() : compute(true) {}
 
     template<typename T>
-    void compute_if_needed(GDALRasterBand& band, const T* vals, T& vmin, T& vmax);
+    void compute_if_needed(GDALRasterBand& band, const T* vals, double& vmin, double& vmax);
 
     template<typename T>
-    uint8_t* rescale(GDALRasterBand& band, const T* vals, T vmin, T vmax);
+    uint8_t* rescale(GDALRasterBand& band, const T* vals, double vmin, double vmax);
 };
 
 /// Export data from an ImageData to an image file
-- 
2.43.0


From 8ba84aa04e495661ca1e086375e6efcc106a8632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 095/174] fix: images with one value have a grey level instead
 of the value modulo 256

---
 tools/image.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/image.cpp b/tools/image.cpp
index 9b383f2..568dbd4 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -47,8 +47,16 @@ uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, double vmin, doub
   uint8_t* res8 = new uint8_t[sx * sy];
   if (vmax == vmin)
   {
+      uint8_t level = vmin < 0 ? 0 : vmin > 255 ? 255 : vmin;
       for (size_t i = 0; i < sx * sy; ++i)
-          res8[i] = vmin;
+      {
+        if (vals[i] < vmin)
+          res8[i] = 0;
+        else if (vals[i] > vmax)
+          res8[i] = 255;
+        else
+          res8[i] = level;
+      }
   }
   else
   {
-- 
2.43.0


From 0636ee4638c91170a514ed38a2a872c8b8ccd5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 096/174] fix: values of images without a no data value were
 taken for missing

---
 tools/image.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tools/image.cpp b/tools/image.cpp
index 568dbd4..cac6889 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -20,18 +20,23 @@ void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, double& vmi
 
   size_t sx = band.GetXSize();
   size_t sy = band.GetYSize();
-  T missing = (T)band.GetNoDataValue();
+  int has_missing = FALSE;
+  double missing = band.GetNoDataValue(&has_missing);
+  // The pixels of float bands have the no data value as a float
+  if (band.GetRasterDataType() == GDT_Float32) missing = (float)missing;
 
   // Compute min and max values
-  vmin = missing;
-  vmax = missing;
+  bool found = false;
+  vmin = 0;
+  vmax = 0;
   for (size_t i = 0; i < sx*sy; ++i)
   {
-    if (vals[i] == missing) continue;
-    if (vmin == missing)
+    if (has_missing && vals[i] == missing) continue;
+    if (!found)
     {
       // First time we find a good value, init min and max with it
       vmin = vmax = vals[i];
+      found = true;
       continue;
     }
     if (vals[i] < vmin) vmin = vals[i];
-- 
2.43.0


From fac29c771ae7b05f5dc65564e0726596bdce857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 097/174] fix: pixels that are not finite numbers are missing,
 and black

---
 tools/image.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/image.cpp b/tools/image.cpp
index cac6889..befa353 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -1,5 +1,6 @@
 #include "msat/gdal/clean_gdal_priv.h"
 #include "image.h"
+#include <cmath>
 #include <cstdint>
 #include "config.h"
 #include <Magick++.h>
@@ -31,7 +32,7 @@ void Stretch::compute_if_needed(GDALRasterBand& band, const T* vals, double& vmi
   vmax = 0;
   for (size_t i = 0; i < sx*sy; ++i)
   {
-    if (has_missing && vals[i] == missing) continue;
+    if ((has_missing && vals[i] == missing) || !std::isfinite((double)vals[i])) continue;
     if (!found)
     {
       // First time we find a good value, init min and max with it
@@ -55,7 +56,7 @@ uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, double vmin, doub
       uint8_t level = vmin < 0 ? 0 : vmin > 255 ? 255 : vmin;
       for (size_t i = 0; i < sx * sy; ++i)
       {
-        if (vals[i] < vmin)
+        if (!(vals[i] >= vmin)) // or not a number
           res8[i] = 0;
         else if (vals[i] > vmax)
           res8[i] = 255;
@@ -67,7 +68,7 @@ uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, double vmin, doub
   {
       for (size_t i = 0; i < sx * sy; ++i)
       {
-        if (vals[i] < vmin)
+        if (!(vals[i] >= vmin)) // or not a number
           res8[i] = 0;
         else if (vals[i] > vmax)
           res8[i] = 255;
-- 
2.43.0


From bbf1043265cd49250bf1e4085cbd337d7d4211d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 098/174] fix: images of large integers were exported with few
 grey levels

---
 tools/image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/image.cpp b/tools/image.cpp
index befa353..1bc74ad 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -133,8 +133,8 @@ static std::unique_ptr<Magick::Image> imageToMagick(GDALRasterBand& band, Stretc
             break;
         }
         default: {
-            float* res = new float[tx * ty];
-            if (band.RasterIO(GF_Read, 0, 0, sx, sy, res, tx, ty, GDT_Float32, 0, 0) != CE_None)
+            double* res = new double[tx * ty];
+            if (band.RasterIO(GF_Read, 0, 0, sx, sy, res, tx, ty, GDT_Float64, 0, 0) != CE_None)
             {
                 delete[] res;
                 return std::unique_ptr<Magick::Image>();
-- 
2.43.0


From 452532ca0b5f876a349efaff4665ce254ecf121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 099/174] fix: the largest value of images of real numbers
 could be less than white

---
 tools/image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/image.cpp b/tools/image.cpp
index 1bc74ad..f24ab97 100644
--- a/tools/image.cpp
+++ b/tools/image.cpp
@@ -70,7 +70,7 @@ uint8_t* Stretch::rescale(GDALRasterBand& band, const T* vals, double vmin, doub
       {
         if (!(vals[i] >= vmin)) // or not a number
           res8[i] = 0;
-        else if (vals[i] > vmax)
+        else if (vals[i] >= vmax)
           res8[i] = 255;
         else
           res8[i] = (vals[i] - vmin) * 255 / (vmax - vmin);
-- 
2.43.0


From 8639f4548257fb3e4df5f0de22f1f043c29241e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 100/174] fix: geotransforms of very small pixels were taken
 for not invertible, and large singular ones for invertible

---
 msat/gdal/dataset.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 69fc133..18c7f05 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -163,7 +163,10 @@ CPLErr invertGeoTransform(double* normal, double* inverted)
 	// Compute determinate
 	double det = normal[1] * normal[5] - normal[2] * normal[4];
 
-	if (fabs(det) < 0.000000000000001)
+	// Compared with the size of the pixels, that can be in any unit
+	double size = fabs(normal[1] * normal[5]) + fabs(normal[2] * normal[4]);
+
+	if (!(fabs(det) > size * 0.000000000000001))
 	{
 		CPLError(CE_Failure, CPLE_AppDefined, "geotransform matix is not invertible");
 		return CE_Failure;
-- 
2.43.0


From 2f0276e0078d6ec98259509a5e2e27c829501615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 101/174] fix: a georeferencer used with another dataset
 leaked, and kept the projection of the previous one

---
 msat/gdal/dataset.cpp | 15 +++++++++++----
 msat/gdal/dataset.h   |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 18c7f05..38793ff 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -196,14 +196,21 @@ GeoReferencer::GeoReferencer()
 
 GeoReferencer::~GeoReferencer()
 {
-	if (proj) delete proj;
-	if (latlon) delete latlon;
-	if (toLatLon) delete toLatLon;
-	if (fromLatLon) delete fromLatLon;
+	clear();
+}
+
+void GeoReferencer::clear()
+{
+	delete proj; proj = 0;
+	delete latlon; latlon = 0;
+	delete toLatLon; toLatLon = 0;
+	delete fromLatLon; fromLatLon = 0;
 }
 
 CPLErr GeoReferencer::init(GDALDataset* ds)
 {
+	// Nothing is left of a previous dataset
+	clear();
 	this->ds = ds;
 
 	if (ds->GetGeoTransform(geoTransform) != CE_None)
diff --git a/msat/gdal/dataset.h b/msat/gdal/dataset.h
index dd69171..fd7bd9d 100644
--- a/msat/gdal/dataset.h
+++ b/msat/gdal/dataset.h
@@ -75,6 +75,8 @@ protected:
 	OGRCoordinateTransformation* toLatLon;
 	OGRCoordinateTransformation* fromLatLon;
 
+	void clear();
+
 public:
 	GeoReferencer();
 	~GeoReferencer();
-- 
2.43.0


From 985086bb6914ba8b2b0f27f9db5c2fc079f8afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 102/174] fix: georeferencing of datasets whose projection has
 no geographic coordinates was a crash

---
 msat/gdal/dataset.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 38793ff..6341485 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -232,10 +232,23 @@ CPLErr GeoReferencer::init(GDALDataset* ds)
     proj = osr->Clone();
     proj->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     latlon = proj->CloneGeogCS();
+    if (!latlon)
+    {
+        clear();
+        CPLError(CE_Failure, CPLE_AppDefined, "the projection of the input dataset has no geographic coordinates");
+        return CE_Failure;
+    }
     latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
     fromLatLon = OGRCreateCoordinateTransformation(latlon, proj);
 
+    if (!toLatLon || !fromLatLon)
+    {
+        clear();
+        CPLError(CE_Failure, CPLE_AppDefined, "points cannot be transformed to or from lat,lon");
+        return CE_Failure;
+    }
+
 	delete proj; proj = 0;
 	delete latlon; latlon = 0;
 	return CE_None;
@@ -257,7 +270,7 @@ void GeoReferencer::projectedToPixel(double px, double py, int& x, int& y) const
 
 CPLErr GeoReferencer::projectedToLatlon(double px, double py, double& lat, double& lon)
 {
-	if (!toLatLon->Transform(1, &px, &py))
+	if (!toLatLon || !toLatLon->Transform(1, &px, &py))
 	{
 		CPLError(CE_Failure, CPLE_AppDefined, "points failed to transform to lat,lon");
 		return CE_Failure;
@@ -270,7 +283,7 @@ CPLErr GeoReferencer::projectedToLatlon(double px, double py, double& lat, doubl
 
 CPLErr GeoReferencer::latlonToProjected(double lat, double lon, double& px, double& py)
 {
-	if (!fromLatLon->Transform(1, &lon, &lat))
+	if (!fromLatLon || !fromLatLon->Transform(1, &lon, &lat))
 	{
 		CPLError(CE_Failure, CPLE_AppDefined, "points failed to transform from lat,lon");
 		return CE_Failure;
-- 
2.43.0


From 22b653ba45d26abe8b80d22ae127b4f13f4e073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:46 +0000
Subject: [PATCH 103/174] fix: coordinates that are not numbers have no
 position

---
 msat/gdal/dataset.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 6341485..004afda 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -22,6 +22,7 @@
 #include <gdal/vrtdataset.h>
 #include <gdal/ogr_spatialref.h>
 #include <msat/facts.h>
+#include <cmath>
 #include <stdint.h>
 #include <vector>
 
@@ -270,7 +271,7 @@ void GeoReferencer::projectedToPixel(double px, double py, int& x, int& y) const
 
 CPLErr GeoReferencer::projectedToLatlon(double px, double py, double& lat, double& lon)
 {
-	if (!toLatLon || !toLatLon->Transform(1, &px, &py))
+	if (!toLatLon || !toLatLon->Transform(1, &px, &py) || !std::isfinite(px) || !std::isfinite(py))
 	{
 		CPLError(CE_Failure, CPLE_AppDefined, "points failed to transform to lat,lon");
 		return CE_Failure;
@@ -283,7 +284,7 @@ CPLErr GeoReferencer::projectedToLatlon(double px, double py, double& lat, doubl
 
 CPLErr GeoReferencer::latlonToProjected(double lat, double lon, double& px, double& py)
 {
-	if (!fromLatLon || !fromLatLon->Transform(1, &lon, &lat))
+	if (!fromLatLon || !fromLatLon->Transform(1, &lon, &lat) || !std::isfinite(lon) || !std::isfinite(lat))
 	{
 		CPLError(CE_Failure, CPLE_AppDefined, "points failed to transform from lat,lon");
 		return CE_Failure;
-- 
2.43.0


From 0ea88725c6463f18ece3b4656c5831e58fd16212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:46 +0000
Subject: [PATCH 104/174] fix: points very far from the image wrapped to pixels
 of it

---
 msat/gdal/dataset.cpp | 15 ++++++++++++---
 msat/gdal/dataset.h   |  5 ++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 004afda..84083cc 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -22,6 +22,7 @@
 #include <gdal/vrtdataset.h>
 #include <gdal/ogr_spatialref.h>
 #include <msat/facts.h>
+#include <climits>
 #include <cmath>
 #include <stdint.h>
 #include <vector>
@@ -263,10 +264,18 @@ void GeoReferencer::pixelToProjected(int x, int y, double& px, double& py) const
 		+ geoTransform[5] * y;
 }
 
-void GeoReferencer::projectedToPixel(double px, double py, int& x, int& y) const
+CPLErr GeoReferencer::projectedToPixel(double px, double py, int& x, int& y) const
 {
-	x = lrint(invGeoTransform[0] + px * invGeoTransform[1] + py * invGeoTransform[2]);
-	y = lrint(invGeoTransform[3] + px * invGeoTransform[4] + py * invGeoTransform[5]);
+	double fx = rint(invGeoTransform[0] + px * invGeoTransform[1] + py * invGeoTransform[2]);
+	double fy = rint(invGeoTransform[3] + px * invGeoTransform[4] + py * invGeoTransform[5]);
+	if (!(fabs(fx) <= INT_MAX && fabs(fy) <= INT_MAX))
+	{
+		CPLError(CE_Failure, CPLE_AppDefined, "coordinates are too far from the image");
+		return CE_Failure;
+	}
+	x = (int)fx;
+	y = (int)fy;
+	return CE_None;
 }
 
 CPLErr GeoReferencer::projectedToLatlon(double px, double py, double& lat, double& lon)
diff --git a/msat/gdal/dataset.h b/msat/gdal/dataset.h
index fd7bd9d..007232e 100644
--- a/msat/gdal/dataset.h
+++ b/msat/gdal/dataset.h
@@ -84,7 +84,7 @@ public:
 	CPLErr init(GDALDataset* ds);
 
 	void pixelToProjected(int x, int y, double& px, double& py) const;
-	void projectedToPixel(double px, double py, int& x, int& y) const;
+	CPLErr projectedToPixel(double px, double py, int& x, int& y) const;
 
 	CPLErr projectedToLatlon(double px, double py, double& lat, double& lon);
 	CPLErr latlonToProjected(double lat, double lon, double& px, double& py);
@@ -100,8 +100,7 @@ public:
 		double px, py;
 		CPLErr res = latlonToProjected(lat, lon, px, py);
 		if (res != CE_None) return res;
-		projectedToPixel(px, py, x, y);
-		return CE_None;
+		return projectedToPixel(px, py, x, y);
 	}
 };
 
-- 
2.43.0


From 2634ca012bbabac9a61bc740f62c72963e1999f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:44 +0000
Subject: [PATCH 105/174] fix: a second source without a projection was a crash

---
 gdal/reflectance/base.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gdal/reflectance/base.cpp b/gdal/reflectance/base.cpp
index 843745a..cbc4a49 100644
--- a/gdal/reflectance/base.cpp
+++ b/gdal/reflectance/base.cpp
@@ -14,13 +14,11 @@ ProxyDataset::~ProxyDataset() {
 
 void ProxyDataset::add_info(GDALDataset* ds, const std::string& dsname)
 {
+    const OGRSpatialReference* source_spatial_ref = ds->GetSpatialRef();
+    if (!source_spatial_ref)
+        throw std::runtime_error(dsname + ": trying to add source without a spatial definition");
     if (!osr)
-    {
-        const OGRSpatialReference* source_spatial_ref = ds->GetSpatialRef();
-        if (!source_spatial_ref)
-            throw std::runtime_error(dsname + ": trying to add source without a spatial definition");
         osr = source_spatial_ref->Clone();
-    }
 
     double gt[6];
     if (ds->GetGeoTransform(gt) == CE_Failure)
@@ -43,7 +41,7 @@ void ProxyDataset::add_info(GDALDataset* ds, const std::string& dsname)
         nRasterXSize = ds->GetRasterXSize();
         nRasterYSize = ds->GetRasterYSize();
     } else {
-        if (!osr->IsSame(ds->GetSpatialRef()))
+        if (!osr->IsSame(source_spatial_ref))
             throw std::runtime_error(dsname + ": inconsistent projection definitions in source datasets");
         if (memcmp(geotransform, gt, 6 * sizeof(double)) != 0)
             throw std::runtime_error(dsname + ": inconsistent affine geotransform coefficients in source datasets");
-- 
2.43.0


From e943e8eb797939faae86af0396b36bee3d1c5d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:44 +0000
Subject: [PATCH 106/174] fix: products of images whose projection has no
 geographic coordinates were a crash

---
 gdal/reflectance/pixeltolatlon.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gdal/reflectance/pixeltolatlon.cpp b/gdal/reflectance/pixeltolatlon.cpp
index 35fcdb2..153ad8e 100644
--- a/gdal/reflectance/pixeltolatlon.cpp
+++ b/gdal/reflectance/pixeltolatlon.cpp
@@ -17,8 +17,19 @@ PixelToLatlon::PixelToLatlon(GDALDataset* ds)
 
     proj = osr->Clone();
     latlon = proj->CloneGeogCS();
+    if (!latlon)
+    {
+        delete proj;
+        throw std::runtime_error("the projection of the input dataset has no geographic coordinates");
+    }
     latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
+    if (!toLatLon)
+    {
+        delete proj;
+        delete latlon;
+        throw std::runtime_error("points cannot be transformed to lat,lon");
+    }
 #if GDAL_VERSION_MAJOR >= 3
     toLatLon->SetEmitErrors(false);
 #endif
-- 
2.43.0


From 4fb1e03717284b278d23c4e1b9ae2e6556d4b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:51 +0000
Subject: [PATCH 107/174] fix: sources of reflectances that cannot be used were
 leaked

---
 gdal/reflectance/reflectance.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index a715aea..09ee22b 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -28,6 +28,10 @@ ReflectanceDataset::~ReflectanceDataset()
 
 void ReflectanceDataset::add_source(GDALDataset* ds, bool take_ownership)
 {
+    // Also when the source cannot be used
+    if (take_ownership)
+        owned_datasets.insert(ds);
+
     for (int i = 1; i <= ds->GetRasterCount(); ++i)
     {
         GDALRasterBand* rb = ds->GetRasterBand(i);
@@ -40,8 +44,6 @@ void ReflectanceDataset::add_source(GDALDataset* ds, bool take_ownership)
         add_info(ds, "ReflectanceDataset");
 
         sources[id - 1] = rb;
-        if (take_ownership)
-            owned_datasets.insert(ds);
     }
 }
 
-- 
2.43.0


From c6913bf9002f774a26d86bf06c7caf280b949bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:51 +0000
Subject: [PATCH 108/174] fix: images were leaked when products of them cannot
 be computed

---
 gdal/utils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gdal/utils.cpp b/gdal/utils.cpp
index 6e0f524..f0fc273 100644
--- a/gdal/utils.cpp
+++ b/gdal/utils.cpp
@@ -7,6 +7,8 @@
 #include "gdal/reflectance/cos_sol_za.h"
 #include "gdal/reflectance/jday.h"
 #include "utils.h"
+#include <memory>
+#include <stdexcept>
 
 using namespace std;
 
@@ -19,6 +21,8 @@ GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
     int idx = CSLFindName(info->papszOpenOptions, "MSAT_COMPUTE");
     if (idx == -1) return src;
     std::string val(CPLParseNameValue(info->papszOpenOptions[idx], nullptr));
+    // Deallocated if it is not part of the result, or with exceptions
+    unique_ptr<GDALDataset> owned(src);
 
     if (val == "reflectance")
     {
@@ -31,23 +35,19 @@ GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
             throw std::runtime_error("IR 0.39 reflectance cannot yet be computed via MSAT_COMPUTE open option");
 
         unique_ptr<msat::utils::ReflectanceDataset> rds(new msat::utils::ReflectanceDataset(channel_id));
-        rds->add_source(src, true);
+        rds->add_source(owned.release(), true);
         rds->init_rasterband();
         return rds.release();
     } else if (val == "sat_za") {
         unique_ptr<msat::utils::SatZADataset> rds(new msat::utils::SatZADataset(src));
-        delete src;
         return rds.release();
     } else if (val == "cos_sol_za") {
         unique_ptr<msat::utils::CosSolZADataset> rds(new msat::utils::CosSolZADataset(src));
-        delete src;
         return rds.release();
     } else if (val == "jday") {
         unique_ptr<msat::utils::JDayDataset> rds(new msat::utils::JDayDataset(src));
-        delete src;
         return rds.release();
     } else {
-        delete src;
         CPLError(CE_Failure, CPLE_AppDefined, "Unsupported value '%s' for MSAT_COMPUTE", val.c_str());
         return nullptr;
     }
-- 
2.43.0


From 81ad7aa26bc1193f0c5435cf86cfd1afc882bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:51 +0000
Subject: [PATCH 109/174] fix: reflectances of images that are not whole blocks
 could not be read

---
 gdal/reflectance/base.cpp        | 15 +++++++++++++++
 gdal/reflectance/base.h          |  7 +++++++
 gdal/reflectance/reflectance.cpp |  8 ++++----
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/gdal/reflectance/base.cpp b/gdal/reflectance/base.cpp
index cbc4a49..96e96dd 100644
--- a/gdal/reflectance/base.cpp
+++ b/gdal/reflectance/base.cpp
@@ -1,5 +1,6 @@
 #include "reflectance.h"
 #include <msat/gdal/const.h>
+#include <algorithm>
 #include <string>
 #include <stdexcept>
 
@@ -78,5 +79,19 @@ void ProxyRasterBand::add_info(GDALRasterBand* rb, const std::string& rbname)
         throw std::runtime_error(rbname + ": cannot set metadata from source raster band");
 }
 
+CPLErr ProxyRasterBand::read_source_block(GDALRasterBand* rb, int xblock, int yblock, double* buf)
+{
+    int x = xblock * nBlockXSize;
+    int y = yblock * nBlockYSize;
+    // The last blocks can be partially outside of the image
+    int sx = std::min(nBlockXSize, nRasterXSize - x);
+    int sy = std::min(nBlockYSize, nRasterYSize - y);
+    return rb->RasterIO(GF_Read, x, y, sx, sy, buf, sx, sy, GDT_Float64, 0, (GSpacing)nBlockXSize * sizeof(double)
+#if GDAL_VERSION_MAJOR >= 2
+            , nullptr
+#endif
+            );
+}
+
 }
 }
diff --git a/gdal/reflectance/base.h b/gdal/reflectance/base.h
index 02fa1a1..4a29bcf 100644
--- a/gdal/reflectance/base.h
+++ b/gdal/reflectance/base.h
@@ -40,6 +40,13 @@ class ProxyRasterBand : public GDALRasterBand
 public:
     /// Add information from the given raster band
     void add_info(GDALRasterBand* rb, const std::string& rbname);
+
+protected:
+    /**
+     * Read a block of a source band as doubles, where the part that is outside
+     * of the image is left as it is.
+     */
+    CPLErr read_source_block(GDALRasterBand* rb, int xblock, int yblock, double* buf);
 };
 
 }
diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index 09ee22b..b9d08e4 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -133,7 +133,7 @@ CPLErr SingleChannelReflectanceRasterBand::IReadBlock(int xblock, int yblock, vo
 {
     // Read the raw data
     std::vector<double> raw(nBlockXSize * nBlockYSize);
-    if (source_rb->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    if (read_source_block(source_rb, xblock, yblock, raw.data()) == CE_Failure)
         return CE_Failure;
 
     // Precompute pixel georeferentiation
@@ -212,17 +212,17 @@ CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
 {
     // Read the IR 3.9 data
     std::vector<double> raw039(nBlockXSize * nBlockYSize);
-    if (source_ir039->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw039.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    if (read_source_block(source_ir039, xblock, yblock, raw039.data()) == CE_Failure)
         return CE_Failure;
 
     // Read the IR_10.8 channel
     std::vector<double> raw108(nBlockXSize * nBlockYSize);
-    if (source_ir108->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw108.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    if (read_source_block(source_ir108, xblock, yblock, raw108.data()) == CE_Failure)
         return CE_Failure;
 
     // Read the IR_13.4 channel
     std::vector<double> raw134(nBlockXSize * nBlockYSize);
-    if (source_ir134->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw134.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
+    if (read_source_block(source_ir134, xblock, yblock, raw134.data()) == CE_Failure)
         return CE_Failure;
 
     // Precompute pixel georeferentiation
-- 
2.43.0


From 4a042b4a110ff97e217f74f3c020db9f652fd58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:51 +0000
Subject: [PATCH 110/174] fix: pixels that are missing in the sources have no
 reflectance

---
 gdal/reflectance/reflectance.cpp | 17 +++++++++++++++++
 gdal/reflectance/reflectance.h   |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index b9d08e4..d1776b5 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -73,6 +73,13 @@ ReflectanceRasterBand::~ReflectanceRasterBand()
     delete p2ll;
 }
 
+bool ReflectanceRasterBand::is_missing(GDALRasterBand* rb, double val)
+{
+    int has_nodata = FALSE;
+    double nodata = rb->GetNoDataValue(&has_nodata);
+    return has_nodata && val == nodata;
+}
+
 const char* ReflectanceRasterBand::GetUnitType()
 {
     return "%";
@@ -145,6 +152,11 @@ CPLErr SingleChannelReflectanceRasterBand::IReadBlock(int xblock, int yblock, vo
     float* dest = (float*)buf;
     for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
     {
+        if (is_missing(source_rb, raw[i]))
+        {
+            dest[i] = 0.0;
+            continue;
+        }
         // From counts to radiance
         double radiance = raw[i] * rad_slope + rad_offset;
         double cossza = facts::cos_sol_za(jday, daytime, lats[i], lons[i]);
@@ -259,6 +271,11 @@ CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
     float* dest = (float*) buf;
     for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
     {
+        if (is_missing(source_ir039, raw039[i]) || is_missing(source_ir108, raw108[i]) || is_missing(source_ir134, raw134[i]))
+        {
+            dest[i] = 0.0;
+            continue;
+        }
         // We can compute radiance from counts straight away
         //double R_tot = (raw039[i] * rad_slope) + rad_offset;
         // But we use the Brightness Temperature instead, so we can apply CO2
diff --git a/gdal/reflectance/reflectance.h b/gdal/reflectance/reflectance.h
index 6b3a2de..8fcf5c7 100644
--- a/gdal/reflectance/reflectance.h
+++ b/gdal/reflectance/reflectance.h
@@ -64,6 +64,9 @@ public:
     ReflectanceRasterBand(ReflectanceDataset* ds, int idx);
     ~ReflectanceRasterBand();
 
+    /// Check if val is the value of missing pixels of rb
+    static bool is_missing(GDALRasterBand* rb, double val);
+
     const char* GetUnitType() override;
     double GetOffset(int* pbSuccess=NULL) override;
     double GetScale(int* pbSuccess=NULL) override;
-- 
2.43.0


From 7b8cd139fabaf815bce8a08d4a30738d86e1983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:51 +0000
Subject: [PATCH 111/174] fix: satellite zenith angles are those of the
 satellite of the image, that can be at other longitudes than 0

---
 gdal/reflectance/pixeltolatlon.cpp | 3 +++
 gdal/reflectance/pixeltolatlon.h   | 3 +++
 gdal/reflectance/reflectance.cpp   | 2 +-
 gdal/reflectance/sat_za.cpp        | 2 +-
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gdal/reflectance/pixeltolatlon.cpp b/gdal/reflectance/pixeltolatlon.cpp
index 153ad8e..cd93cb1 100644
--- a/gdal/reflectance/pixeltolatlon.cpp
+++ b/gdal/reflectance/pixeltolatlon.cpp
@@ -30,6 +30,9 @@ PixelToLatlon::PixelToLatlon(GDALDataset* ds)
         delete latlon;
         throw std::runtime_error("points cannot be transformed to lat,lon");
     }
+    const char* projection = proj->GetAttrValue("PROJECTION");
+    if (projection && EQUAL(projection, SRS_PT_GEOSTATIONARY_SATELLITE))
+        sublon = proj->GetProjParm(SRS_PP_CENTRAL_MERIDIAN);
 #if GDAL_VERSION_MAJOR >= 3
     toLatLon->SetEmitErrors(false);
 #endif
diff --git a/gdal/reflectance/pixeltolatlon.h b/gdal/reflectance/pixeltolatlon.h
index 4a1c6fb..2ebff92 100644
--- a/gdal/reflectance/pixeltolatlon.h
+++ b/gdal/reflectance/pixeltolatlon.h
@@ -14,6 +14,9 @@ struct PixelToLatlon
     OGRSpatialReference* latlon = nullptr;
     OGRCoordinateTransformation* toLatLon = nullptr;
 
+    /// Longitude of the satellite (0 if the image is not what a satellite sees)
+    double sublon = 0;
+
     PixelToLatlon(GDALDataset* ds);
     ~PixelToLatlon();
 
diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index d1776b5..08ea355 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -299,7 +299,7 @@ CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
         double cosTETA = facts::cos_sol_za(jday, daytime, lats[i], lons[i]);
         // Use cos(80°) as lower bound, to avoid division by zero
         if (cosTETA < cos80) cosTETA = cos80;
-        double SAT = facts::sat_za(lats[i], lons[i]);
+        double SAT = facts::sat_za(lats[i], lons[i] - p2ll->sublon);
         // Original from MMKM2010:
         //double TOARAD = 4.92 / (esd*esd) * cosTETA * exp(-(1-R39_corr)) * exp(-(1-R39_corr) * cosTETA / cos(SAT));
         // Version from MSGProc:
diff --git a/gdal/reflectance/sat_za.cpp b/gdal/reflectance/sat_za.cpp
index da40a80..c136fb7 100644
--- a/gdal/reflectance/sat_za.cpp
+++ b/gdal/reflectance/sat_za.cpp
@@ -48,7 +48,7 @@ public:
         for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
         {
             // Just the solar zenith angle
-            dest[i] = facts::sat_za(lats[i], lons[i]);
+            dest[i] = facts::sat_za(lats[i], lons[i] - p2ll->sublon);
             // Normalise outliars
             switch (fpclassify(dest[i]))
             {
-- 
2.43.0


From 7d91a7469bf0e3930064fd0d707defa73a1fc0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 112/174] fix: GRIB data sets wrote a trace to /tmp, and were a
 crash where it cannot be written

---
 gdal/grib/utils.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gdal/grib/utils.h b/gdal/grib/utils.h
index c5605d4..c2a9c08 100644
--- a/gdal/grib/utils.h
+++ b/gdal/grib/utils.h
@@ -5,14 +5,11 @@
 #include "msat/gdal/clean_cpl_error.h"
 #include <string>
 #include <cerrno>
+#include <cstdio>
 
 // Define this if you want to create a foile /tmp/trace-gribapi with a trace of
 // all grib_api operations
-#define TRACE_GRIBAPI
-
-#ifdef TRACE_GRIBAPI
-#include <cstdio>
-#endif
+//#define TRACE_GRIBAPI
 
 #define RUN_OR_RETURN(expr) do { \
     CPLErr res = (expr); \
@@ -47,6 +44,7 @@ struct Grib
 #ifdef TRACE_GRIBAPI
     FILE* trace = nullptr;
     #define trace(...) do {\
+            if (!trace) break; \
             fprintf(trace, "GH %p: ", static_cast<const void*>(gh)); \
             fprintf(trace, __VA_ARGS__); \
             fprintf(trace, "\n"); \
@@ -83,7 +81,7 @@ struct Grib
 #endif
     }
     ~Grib() {
-        if (trace) trace("close");
+        trace("close");
         if (gh) grib_handle_delete(gh);
 #ifdef TRACE_GRIBAPI
         if (trace) fclose(trace);
-- 
2.43.0


From c03f0047640bc1d448b591d83b24c98277b3a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 113/174] fix: writing GRIB of data sets without bands or
 without projection was a crash

---
 gdal/grib/grib.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 47aece5..d17810d 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -838,6 +838,17 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
                               int bStrict, char** papszOptions,
                               GDALProgressFunc pfnProgress, void* pProgressData)
 {
+    if (src->GetRasterCount() < 1)
+    {
+        CPLError(CE_Failure, CPLE_NotSupported, "the source dataset has no raster bands");
+        return nullptr;
+    }
+    if (!src->GetSpatialRef())
+    {
+        CPLError(CE_Failure, CPLE_NotSupported, "the source dataset has no projection");
+        return nullptr;
+    }
+
     try {
         const char* templateName = CSLFetchNameValue(papszOptions, "TEMPLATE");
         if (templateName == NULL)
-- 
2.43.0


From 90ac710942abb970c4ab3df52b551eb988f80070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 114/174] fix: strict copies to GRIB lost all bands but the
 first

---
 gdal/grib/grib.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index d17810d..0dac615 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -849,6 +849,12 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
         return nullptr;
     }
 
+    if (src->GetRasterCount() > 1)
+    {
+        CPLError(bStrict ? CE_Failure : CE_Warning, CPLE_NotSupported, "only the first of the %d bands of the source dataset can be written", src->GetRasterCount());
+        if (bStrict) return nullptr;
+    }
+
     try {
         const char* templateName = CSLFetchNameValue(papszOptions, "TEMPLATE");
         if (templateName == NULL)
-- 
2.43.0


From ba34a0ae3cd08f6cc5c2494d9b36d98a1aea234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 115/174] fix: GRIB files that could not be written were
 reported as written

---
 gdal/grib/grib.cpp | 3 ++-
 gdal/grib/utils.h  | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 0dac615..218306e 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -878,7 +878,8 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
             return nullptr;
         }
 
-        grib.write(pszFilename);
+        if (grib.write(pszFilename) != CE_None)
+            return nullptr;
 
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
     } catch (griberror& e) {
diff --git a/gdal/grib/utils.h b/gdal/grib/utils.h
index c2a9c08..7110bf1 100644
--- a/gdal/grib/utils.h
+++ b/gdal/grib/utils.h
@@ -337,7 +337,11 @@ struct Grib
         }
         trace("written to file %s", filename.c_str());
 
-        fclose(out);
+        if (fclose(out) != 0)
+        {
+            CPLError(CE_Failure, CPLE_FileIO, "cannot write to file %s: %s", filename.c_str(), strerror(errno));
+            return CE_Failure;
+        }
         trace("flushed");
         return CE_None;
     }
-- 
2.43.0


From 5a3cda8ceb58dc07ee83c30eb11312411dba6d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 116/174] fix: exceptions about spacecraft, channels and
 products of GRIB went through GDAL

---
 gdal/grib/grib.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 218306e..4f7ff54 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -216,17 +216,23 @@ GDALDataset* GRIBOpen(GDALOpenInfo* info)
 
 	string filename(info->pszFilename);
 
-    Grib grib;
-    if (grib.new_from_file(NULL, info->pszFilename) != CE_None)
-        return NULL;
+    // Exceptions cannot go through GDAL
+    try {
+        Grib grib;
+        if (grib.new_from_file(NULL, info->pszFilename) != CE_None)
+            return NULL;
 
-    // Create the dataset
-    unique_ptr<GRIBDataset> ds(new GRIBDataset(move(grib)));
+        // Create the dataset
+        unique_ptr<GRIBDataset> ds(new GRIBDataset(move(grib)));
 
-    // Initialise the dataset
-    if (!ds->init()) return NULL;
+        // Initialise the dataset
+        if (!ds->init()) return NULL;
 
-    return msat::gdal::add_extras(ds.release(), info);
+        return msat::gdal::add_extras(ds.release(), info);
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_OpenFailed, "%s: %s", info->pszFilename, e.what());
+        return NULL;
+    }
 }
 
 #if 0
@@ -884,6 +890,9 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
     } catch (griberror& e) {
         return nullptr;
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s: %s", pszFilename, e.what());
+        return nullptr;
     }
 }
 
-- 
2.43.0


From da0fa69d6d661c8776f4f6500152c47e516fe414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 117/174] fix: false easting and northing were lost in GRIB

---
 gdal/grib/grib.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 4f7ff54..9496c9c 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -337,6 +337,12 @@ struct CreateGRIB
             return false;
         }
 
+        if (osr.GetProjParm(SRS_PP_FALSE_EASTING, 0.0) != 0.0 || osr.GetProjParm(SRS_PP_FALSE_NORTHING, 0.0) != 0.0)
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "false easting and northing are not supported");
+            return false;
+        }
+
         // Read values
         values.resize(src->GetRasterXSize() * src->GetRasterYSize());
         if (rb->RasterIO(GF_Read, 0, 0, src->GetRasterXSize(), src->GetRasterYSize(), values.data(), src->GetRasterXSize(), src->GetRasterYSize(), GDT_Float64, 0, 0) != CE_None)
-- 
2.43.0


From 0221ef6bf940cdfc2e825bbb3b0ff7bd3440feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 118/174] fix: pixel sizes of HRV images were not preserved by
 GRIB

The diameter of the Earth in pixels that HRV images are written with was read
back as another pixel size, that in turn could not be written again.
---
 msat/facts.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/facts.cpp b/msat/facts.cpp
index ed1dd22..7276c0f 100644
--- a/msat/facts.cpp
+++ b/msat/facts.cpp
@@ -166,6 +166,7 @@ double pixelHSizeFromSeviriDX(int dx)
                 // Handle well-known values
                 case 3608: return METEOSAT_PIXELSIZE_X;
                 case 3622: return METEOSAT_PIXELSIZE_X;
+                case 10867: return METEOSAT_PIXELSIZE_X_HRV;
                 default:
                         return pixelHSizeFromCFAC(CFACFromSeviriDX(dx));
         }
@@ -178,6 +179,7 @@ double pixelVSizeFromSeviriDY(int dy)
                 // Handle well-known values
                 case 3608: return METEOSAT_PIXELSIZE_Y;
                 case 3622: return METEOSAT_PIXELSIZE_Y;
+                case 10867: return METEOSAT_PIXELSIZE_Y_HRV;
                 default:
                         return pixelVSizeFromLFAC(LFACFromSeviriDY(dy));
         }
-- 
2.43.0


From 093fcd6fe95a72e639dadb83e958b3cf7f8d3bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 119/174] fix: exceptions about unreadable GRIB values went
 through GDAL

---
 gdal/grib/grib.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 9496c9c..80159f3 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -68,10 +68,16 @@ public:
 			return CE_Failure;
 		}
 
-		size_t length = nRasterXSize * nRasterYSize;
-		grib.get_double_array("values", (double*)buf, &length);
-		if (length != (size_t)(nRasterXSize * nRasterYSize)) {
-			CPLError(CE_Failure, CPLE_AppDefined, "Only %d values read instead of %d", (int)length, nRasterXSize * nRasterYSize);
+		const size_t expected = (size_t)nRasterXSize * nRasterYSize;
+		size_t length = expected;
+		// Exceptions cannot go through GDAL
+		try {
+			grib.get_double_array("values", (double*)buf, &length);
+		} catch (griberror& e) {
+			return CE_Failure;
+		}
+		if (length != expected) {
+			CPLError(CE_Failure, CPLE_AppDefined, "Only %zu values read instead of %zu", length, expected);
 			return CE_Failure;
 		}
 		return CE_None;
-- 
2.43.0


From 5f060e03d07bf789d1a43cecaf3caacc5833d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 120/174] fix: GRIB images of no or negative size were opened

---
 gdal/grib/grib.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 80159f3..5f89563 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -6,6 +6,7 @@
 #include <gdal/gdal_priv.h>
 #include <gdal/ogr_spatialref.h>
 #include "gdal/utils.h"
+#include <climits>
 #include <memory>
 
 #include "config.h"
@@ -96,8 +97,15 @@ public:
 	bool init()
 	{
 		try {
-			nRasterXSize = grib.get_long("numberOfPointsAlongXAxis");
-			nRasterYSize = grib.get_long("numberOfPointsAlongYAxis");
+			long columns = grib.get_long("numberOfPointsAlongXAxis");
+			long lines = grib.get_long("numberOfPointsAlongYAxis");
+			if (columns < 1 || columns > INT_MAX || lines < 1 || lines > INT_MAX)
+			{
+				CPLError(CE_Failure, CPLE_AppDefined, "unsupported image size %ldx%ld", columns, lines);
+				return false;
+			}
+			nRasterXSize = columns;
+			nRasterYSize = lines;
 			nBands = 1;
 
 			// Datetime
-- 
2.43.0


From ed7d299c6466f40ffca35b9148ef2fc10957e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 121/174] fix: missing pixels and values were mistaken for each
 other when writing GRIB

The missing value, once scaled, could be the same as a value of other pixels;
the values that mark missing pixels were looked for in bands that have none;
NaN was written as a value.
---
 gdal/grib/grib.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 5f89563..2e91fde 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -7,6 +7,7 @@
 #include <gdal/ogr_spatialref.h>
 #include "gdal/utils.h"
 #include <climits>
+#include <cmath>
 #include <memory>
 
 #include "config.h"
@@ -363,20 +364,34 @@ struct CreateGRIB
             return false;
 
         // Scale values and count missing values
-        double missing = rb->GetNoDataValue();
+        int has_missing = FALSE;
+        double missing = rb->GetNoDataValue(&has_missing);
         double offset = rb->GetOffset();
         double scale = rb->GetScale();
-        grib_missing = missing * scale + offset;
+        double lowest = HUGE_VAL;
         for (auto& v: values)
         {
-            if (v == missing)
+            if (std::isnan(v) || (has_missing && v == missing))
             {
                 ++count_missing;
-                v = grib_missing;
+                v = NAN;
+                continue;
+            }
+            v = v * scale + offset;
+            if (!std::isfinite(v))
+            {
+                CPLError(CE_Failure, CPLE_AppDefined, "GRIB cannot represent infinite values");
+                return false;
             }
-            else
-                v = v * scale + offset;
+            if (v < lowest) lowest = v;
         }
+
+        // Mark the missing values with something that is not the value of any
+        // other pixel
+        grib_missing = nextafter(lowest, -HUGE_VAL);
+        for (auto& v: values)
+            if (std::isnan(v))
+                v = grib_missing;
         return true;
     }
 
-- 
2.43.0


From df54de1f12c7ed44400dc305bda909ecc22d6111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 122/174] fix: pixels of GRIB images with the same value as
 missing pixels were read as missing

---
 gdal/grib/grib.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 2e91fde..2cb9d97 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -209,6 +209,14 @@ GRIBRasterBand::GRIBRasterBand(GRIBDataset* ds, int idx /*, GDALDataType dt */)
     // Invent a suitable missing value instead of 9999 or whatever grib_api
     // has as default
     missing = facts::defaultScaledMissing(channel_id);
+    if (grib.get_long("bitmapPresent"))
+    {
+        // Missing values are marked in the bitmap: do not mistake the others
+        // for them
+        double lowest = grib.get_double("referenceValue") * exp10(-grib.get_long("decimalScaleFactor"));
+        if (!(missing < lowest))
+            missing = lowest - max(1.0, fabs(lowest) * 0.001);
+    }
     grib.set_double("missingValue", missing);
 }
 
-- 
2.43.0


From da527384f537c9926ac4390f7437fe351aa6864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 123/174] fix: files whose close fails were closed twice

---
 msat/utils/sys.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index c1161a6..71f74dc 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -293,9 +293,11 @@ bool FileDescriptor::is_open() const { return fd != -1; }
 void FileDescriptor::close()
 {
     if (fd == -1) return;
-    if (::close(fd) == -1)
-        throw_error("cannot close");
+    // Even in case of errors, the file descriptor cannot be used any more
+    int to_close = fd;
     fd = -1;
+    if (::close(to_close) == -1)
+        throw_error("cannot close");
 }
 
 void FileDescriptor::fstat(struct stat& st)
-- 
2.43.0


From 170708de6bc6aa978c4865a4a580505cfcf9e811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 124/174] fix: temporary files were left when a file cannot be
 written atomically

---
 msat/utils/sys.cc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 71f74dc..adca6bb 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1117,18 +1117,23 @@ void write_file_atomically(const std::filesystem::path& file, const void* data,
 {
     File out = File::mkstemp(file);
 
-    // Read the umask
-    mode_t mask = umask(0777);
-    umask(mask);
-
-    // Set the file permissions, honoring umask
-    out.fchmod(mode & ~mask);
-
-    out.write_all_or_retry(data, size);
-    out.close();
-
-    if (::rename(out.path().c_str(), file.c_str()) < 0)
-        throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+    try {
+        // Read the umask
+        mode_t mask = umask(0777);
+        umask(mask);
+
+        // Set the file permissions, honoring umask
+        out.fchmod(mode & ~mask);
+
+        out.write_all_or_retry(data, size);
+        out.close();
+
+        if (::rename(out.path().c_str(), file.c_str()) < 0)
+            throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+    } catch (...) {
+        ::unlink(out.path().c_str());
+        throw;
+    }
 }
 
 #if 0
-- 
2.43.0


From 3cc59cb6d2fdf2b1fbec891de7ec8f69fe2fc59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 125/174] fix: nothing could be assigned to memory maps that
 were unmapped or moved

---
 msat/utils/sys.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index adca6bb..21f4722 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -259,9 +259,11 @@ MMap::~MMap()
 
 void MMap::munmap()
 {
+    if (addr == MAP_FAILED) return;
     if (::munmap(addr, length) == -1)
         throw std::system_error(errno, std::system_category(), "cannot unmap memory");
     addr = MAP_FAILED;
+    length = 0;
 }
 
 
-- 
2.43.0


From fca3bcf576e4ad7250f52efe78cd6109ffd9c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 126/174] fix: directories that cannot be read stayed open

---
 msat/utils/sys.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 21f4722..0ce23e1 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -595,7 +595,12 @@ DIR* Path::fdopendir()
 
     DIR* res = ::fdopendir(fd1);
     if (!res)
+    {
+        int saved_errno = errno;
+        ::close(fd1);
+        errno = saved_errno;
         throw_error("cannot fdopendir");
+    }
 
     return res;
 }
@@ -722,7 +727,13 @@ Path::iterator::iterator(Path& dir_)
     : path(&dir_)
 {
     dir = dir_.fdopendir();
-    operator++();
+    try {
+        operator++();
+    } catch (...) {
+        // The destructor is not run
+        closedir(dir);
+        throw;
+    }
 }
 
 Path::iterator::~iterator()
-- 
2.43.0


From 7d9c59d29dad25c4ee4a71ffb271b3d1ff737ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 127/174] fix: using a directory iterator that was moved was a
 crash

---
 msat/utils/sys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/sys.h b/msat/utils/sys.h
index 4289bc6..7748e9d 100644
--- a/msat/utils/sys.h
+++ b/msat/utils/sys.h
@@ -420,7 +420,7 @@ struct Path : public ManagedNamedFileDescriptor
         explicit iterator(Path& dir);
         iterator(iterator&) = delete;
         iterator(iterator&& o)
-            : dir(o.dir), cur_entry(o.cur_entry)
+            : path(o.path), dir(o.dir), cur_entry(o.cur_entry)
         {
             o.dir = nullptr;
             o.cur_entry = nullptr;
-- 
2.43.0


From 36c753bf25e9ae884a1da44c92ebbffcd8a2dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 128/174] fix: links were followed to tell the type of
 directory entries, and by rmtree, where directories do not have it

---
 msat/utils/sys.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 0ce23e1..1414911 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -781,7 +781,7 @@ bool Path::iterator::isdir() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISDIR(st.st_mode);
 }
 
@@ -795,7 +795,7 @@ bool Path::iterator::isblk() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISBLK(st.st_mode);
 }
 
@@ -809,7 +809,7 @@ bool Path::iterator::ischr() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISCHR(st.st_mode);
 }
 
@@ -823,7 +823,7 @@ bool Path::iterator::isfifo() const
 #endif
     // No d_type, we'll need to stat
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISFIFO(st.st_mode);
 }
 
@@ -836,7 +836,7 @@ bool Path::iterator::islnk() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISLNK(st.st_mode);
 }
 
@@ -849,7 +849,7 @@ bool Path::iterator::isreg() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISREG(st.st_mode);
 }
 
@@ -862,7 +862,7 @@ bool Path::iterator::issock() const
         return false;
 #endif
     struct stat st;
-    path->fstatat(cur_entry->d_name, st);
+    path->lstatat(cur_entry->d_name, st);
     return S_ISSOCK(st.st_mode);
 }
 
-- 
2.43.0


From f36fbfe63dda55431850cfae08e93a46c2b7fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 129/174] fix: rmtree removed files outside of the tree if a
 directory is replaced by a link meanwhile

---
 msat/utils/sys.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 1414911..30fdabf 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -872,19 +872,26 @@ Path Path::iterator::open_path(int flags) const
 }
 
 
-void Path::rmtree()
+static void rmtree_contents(Path& dir)
 {
-    for (auto i = begin(); i != end(); ++i)
+    for (auto i = dir.begin(); i != dir.end(); ++i)
     {
         if (strcmp(i->d_name, ".") == 0 || strcmp(i->d_name, "..") == 0) continue;
         if (i.isdir())
         {
-            Path sub(*this, i->d_name);
-            sub.rmtree();
+            // Do not follow a link that took the place of the directory
+            Path sub(dir, i->d_name, O_NOFOLLOW);
+            rmtree_contents(sub);
+            dir.rmdirat(i->d_name);
         }
         else
-            unlinkat(i->d_name);
+            dir.unlinkat(i->d_name);
     }
+}
+
+void Path::rmtree()
+{
+    rmtree_contents(*this);
     // TODO: is there a way to do this using fd instead?
     std::filesystem::remove(path_);
 }
-- 
2.43.0


From 5cc23c50867bfb15e662f9f61ac2296c7e939309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 130/174] fix: the program ended if files, times or limits
 cannot be removed or restored by destructors

---
 msat/utils/sys.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index 30fdabf..e79f794 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -506,7 +506,10 @@ PreserveFileTimes::PreserveFileTimes(FileDescriptor fd_)
 
 PreserveFileTimes::~PreserveFileTimes()
 {
-    fd.futimens(ts);
+    try {
+        fd.futimens(ts);
+    } catch (...) {
+    }
 }
 
 
@@ -1016,7 +1019,10 @@ Tempfile::Tempfile(const char* prefix) : sys::File(sys::File::mkstemp(prefix)) {
 Tempfile::~Tempfile()
 {
     if (m_unlink_on_exit)
-        std::filesystem::remove(path_);
+    {
+        std::error_code ec;
+        std::filesystem::remove(path_, ec);
+    }
 }
 
 void Tempfile::unlink_on_exit(bool val)
@@ -1370,7 +1376,10 @@ OverrideRlimit::OverrideRlimit(int resource_, rlim_t rlim)
 
 OverrideRlimit::~OverrideRlimit()
 {
-    setrlimit(resource, orig);
+    try {
+        setrlimit(resource, orig);
+    } catch (...) {
+    }
 }
 
 void OverrideRlimit::set(rlim_t rlim)
-- 
2.43.0


From 1ba2af79eda77953f4e1ca7adead9bf490759973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 131/174] fix: islnk looked at the target of links, and was
 never true

---
 msat/utils/sys.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index e79f794..d0b0798 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -132,7 +132,14 @@ bool isfifo(const std::string& pathname)
 
 bool islnk(const std::string& pathname)
 {
-    common_stat_body(S_ISLNK);
+    struct stat st;
+    if (::lstat(pathname.c_str(), &st) == -1) {
+        if (errno == ENOENT)
+            return false;
+        else
+            throw std::system_error(errno, std::system_category(), "cannot stat " + pathname);
+    }
+    return S_ISLNK(st.st_mode);
 }
 
 bool isreg(const std::string& pathname)
-- 
2.43.0


From 4a4ecc0921f55fce0d1c7b9af760b1e38ed505c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 132/174] fix: which found directories instead of programs

---
 msat/utils/sys.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index d0b0798..a8c7ada 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1266,7 +1266,7 @@ std::filesystem::path which(const std::string& name)
     for (const auto& i: splitter)
     {
         auto candidate = std::filesystem::path(i) / name;
-        if (sys::access(candidate, X_OK))
+        if (sys::access(candidate, X_OK) && not std::filesystem::is_directory(candidate))
             return std::filesystem::absolute(candidate);
     }
 
-- 
2.43.0


From d558483da6ba4eb90ef4dda50543a930a5f537d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 133/174] fix: files without a known size were read as empty,
 and files cut meanwhile were a crash

---
 msat/utils/sys.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/msat/utils/sys.cc b/msat/utils/sys.cc
index a8c7ada..8eeba15 100644
--- a/msat/utils/sys.cc
+++ b/msat/utils/sys.cc
@@ -1085,13 +1085,19 @@ std::string read_file(const std::filesystem::path& file)
     struct stat st;
     in.fstat(st);
 
-    if (st.st_size == 0)
-        return std::string();
-
-    // mmap the input file
-    MMap src = in.mmap(st.st_size, PROT_READ, MAP_SHARED);
-
-    return std::string(static_cast<const char*>(src), st.st_size);
+    // Read until the end: the size may be unknown, or change meanwhile
+    std::string res(st.st_size, 0);
+    size_t pos = 0;
+    while (true)
+    {
+        if (pos == res.size())
+            res.resize(pos + 4096);
+        size_t size = in.read(&res[pos], res.size() - pos);
+        if (size == 0) break;
+        pos += size;
+    }
+    res.resize(pos);
+    return res;
 }
 
 void write_file(const char* file, const std::string& data, mode_t mode)
-- 
2.43.0


From ab344a663faedd4836866a27df3f34e777c7dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 134/174] fix: unreadable OpenMTP files ended the program

---
 msat/openmtp/OpenMTP.cpp               | 11 ++++++-----
 msat/openmtp/OpenMTP_ascii_header.cpp  |  4 ++--
 msat/openmtp/OpenMTP_binary_header.cpp | 16 ++++++----------
 msat/openmtp/OpenMTP_image_line.cpp    |  4 ++--
 4 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index 15a70e9..eb0dd7c 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -28,6 +28,8 @@
 //-----------------------------------------------------------------------------
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 #include <time.h>
 #include <stdlib.h>
 #include "OpenMTP_ascii_header.h"
@@ -43,8 +45,7 @@ void OpenMTP::open( char *inname )
   std::ifstream infile(inname, (ios::binary | ios::in));
   if (infile.fail())
   {
-    cerr << "Cannot open input OpenMTP file " << inname << endl;
-    throw;
+    throw std::runtime_error(std::string("Cannot open input OpenMTP file ") + inname);
   }
   read(infile);
   return;
@@ -92,7 +93,7 @@ char * OpenMTP::get_satellite_name( )
 {
   if(!strcmp(binary_header.satellite_name( ), "M7")) return "METEOSAT 7";
   if(!strcmp(binary_header.satellite_name( ), "M6")) return "METEOSAT 6";
-  throw "Can only manage METEOSAT OpenMTP files\n"; 
+  throw std::runtime_error("Can only manage METEOSAT OpenMTP files");
 }
 
 char * OpenMTP::get_timestr( )
@@ -159,7 +160,7 @@ const char *OpenMTP::get_chname( )
   else if (binary_header.is_ir_data( )) return "IR";
   else if (binary_header.is_wv_data( )) return "WV";
   else
-    throw "Invalid Channel in OpenMTP format\n";
+    throw std::runtime_error("Invalid Channel in OpenMTP format");
 }
 
 const char *OpenMTP::get_chunit( )
@@ -168,7 +169,7 @@ const char *OpenMTP::get_chunit( )
   else if (binary_header.is_ir_data( )) return "K";
   else if (binary_header.is_wv_data( )) return "K";
   else
-    throw "Invalid Channel in OpenMTP format\n";
+    throw std::runtime_error("Invalid Channel in OpenMTP format");
 }
 
 const char *OpenMTP::get_field_name( )
diff --git a/msat/openmtp/OpenMTP_ascii_header.cpp b/msat/openmtp/OpenMTP_ascii_header.cpp
index 742491a..dd58864 100644
--- a/msat/openmtp/OpenMTP_ascii_header.cpp
+++ b/msat/openmtp/OpenMTP_ascii_header.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_ascii_header.h"
 
 OpenMTP_ascii_header::OpenMTP_ascii_header( ) { }
@@ -44,8 +45,7 @@ void OpenMTP_ascii_header::read( std::ifstream &file )
   file.read(header, ASCII_HEADER_LENGTH);
   if (file.fail( ))
   {
-    std::cerr << "Read error from OpenMTP file: ASCII Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from OpenMTP file: ASCII Header.");
   }
   header[ASCII_HEADER_LENGTH] = 0;
   return;
diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index e62456b..62e7eca 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -30,6 +30,7 @@
 #include <string.h>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_machine.h"
 #include "OpenMTP_binary_header.h"
 
@@ -49,8 +50,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
   file.read((char *) header, BINARY_HEADER_FIRST_SECTION_LENGTH);
   if (file.fail( ))
   {
-    std::cerr << "Read error : BINARY Header, first section." << std::endl;
-    throw;
+    throw std::runtime_error("Read error : BINARY Header, first section.");
   }
 
   pnt = header + BINARY_HEADER_FIRST_SECTION_LENGTH;
@@ -60,8 +60,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     file.seekg(BINARY_HEADER_SECOND_SECTION_LENGTH, ios::cur);
     if (file.fail( ))
     {
-      std::cerr << "Read error : BINARY Header, second section" << std::endl;
-      throw;
+      throw std::runtime_error("Read error : BINARY Header, second section");
     }
   }
   else
@@ -69,8 +68,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     file.read((char *) pnt, BINARY_HEADER_SECOND_SECTION_LENGTH);
     if (file.fail( ))
     {
-      std::cerr << "Read error : BINARY Header, second section" << std::endl;
-      throw;
+      throw std::runtime_error("Read error : BINARY Header, second section");
     }
   }
 
@@ -80,8 +78,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     file.read((char *) pnt, BINARY_HEADER_THIRD_SECTION_VIS_CMP_LENGTH);
     if (file.fail( ))
     {
-      std::cerr << "Read error : BINARY Header, third section" << std::endl;
-      throw;
+      throw std::runtime_error("Read error : BINARY Header, third section");
     }
   }
   else
@@ -89,8 +86,7 @@ void OpenMTP_binary_header::read( std::ifstream &file )
     file.read((char *) pnt, BINARY_HEADER_THIRD_SECTION_NORMAL_LEGTH);
     if (file.fail( ))
     {
-      std::cerr << "Read error : BINARY Header, third section" << std::endl;
-      throw;
+      throw std::runtime_error("Read error : BINARY Header, third section");
     }
   }
 
diff --git a/msat/openmtp/OpenMTP_image_line.cpp b/msat/openmtp/OpenMTP_image_line.cpp
index 9c88faa..fb80be8 100644
--- a/msat/openmtp/OpenMTP_image_line.cpp
+++ b/msat/openmtp/OpenMTP_image_line.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_image_line.h"
 
 OpenMTP_image_line::OpenMTP_image_line( ) { }
@@ -45,8 +46,7 @@ void OpenMTP_image_line::read( std::ifstream &file, int npixels)
   file.read((char *) line, npixels+32);
   if (file.fail( ))
   {
-    std::cerr << "Read error from OpenMTP file: Image Line." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from OpenMTP file: Image Line.");
   }
   return;
 }
-- 
2.43.0


From 760060bf165ffccc7ba9993dc6eeabb4b976f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 135/174] fix: OpenMTP images of invalid sizes were written
 outside their memory, also when another had been read before

---
 msat/openmtp/OpenMTP_image.cpp      | 17 ++++++++++++-----
 msat/openmtp/OpenMTP_image.h        |  2 ++
 msat/openmtp/OpenMTP_image_line.cpp |  2 ++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/msat/openmtp/OpenMTP_image.cpp b/msat/openmtp/OpenMTP_image.cpp
index a794924..15a9760 100644
--- a/msat/openmtp/OpenMTP_image.cpp
+++ b/msat/openmtp/OpenMTP_image.cpp
@@ -31,26 +31,33 @@
 #include <cmath>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include "OpenMTP_image.h"
 
-OpenMTP_image::OpenMTP_image( ) { image = 0; }
+OpenMTP_image::OpenMTP_image( ) { image = 0; npixels = nlines = 0; }
 OpenMTP_image::OpenMTP_image( std::ifstream &file, OpenMTP_binary_header &h )
 {
   image = 0;
   read(file, h);
 }
-OpenMTP_image::~OpenMTP_image( ) { if (image) delete image; }
+OpenMTP_image::~OpenMTP_image( ) { delete [ ] image; }
 
 void OpenMTP_image::read( std::ifstream &file, OpenMTP_binary_header &h )
 {
   float rad = 0.0;
   float cc, sc;
   
+  nlines = npixels = 0;
+  delete [ ] image;
+  image = 0;
+
+  if (h.nlines( ) < 0 || h.nlines( ) > MAX_LINES ||
+      h.npixels( ) < 0 || h.npixels( ) > MAX_PIXELS)
+    throw std::runtime_error("Invalid size of OpenMTP image.");
+
   nlines = h.nlines( );
   npixels = h.npixels( );
-
-  if (!image)
-    image = new unsigned char[nlines*npixels];
+  image = new unsigned char[nlines*npixels];
 
   for (int i = 0; i < nlines; i ++)
   {
diff --git a/msat/openmtp/OpenMTP_image.h b/msat/openmtp/OpenMTP_image.h
index 2962778..20289d1 100644
--- a/msat/openmtp/OpenMTP_image.h
+++ b/msat/openmtp/OpenMTP_image.h
@@ -62,6 +62,8 @@ class OpenMTP_image {
     unsigned char *image;
     float calibration[256];
   private:
+    const static int MAX_LINES = 5000;
+    const static int MAX_PIXELS = 5000;
     OpenMTP_image_line line;
     int npixels;
     int nlines;
diff --git a/msat/openmtp/OpenMTP_image_line.cpp b/msat/openmtp/OpenMTP_image_line.cpp
index fb80be8..afb4b24 100644
--- a/msat/openmtp/OpenMTP_image_line.cpp
+++ b/msat/openmtp/OpenMTP_image_line.cpp
@@ -42,6 +42,8 @@ OpenMTP_image_line::~OpenMTP_image_line( ) { }
 
 void OpenMTP_image_line::read( std::ifstream &file, int npixels)
 {
+  if (npixels < 0 || npixels > MAX_PIXELS)
+    throw std::runtime_error("Invalid number of pixels in OpenMTP image line.");
   npix = npixels;
   file.read((char *) line, npixels+32);
   if (file.fail( ))
-- 
2.43.0


From 0da452138f6f62d3ee9c856ada298ac3cc050ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 136/174] fix: every OpenMTP image was a subwindow

---
 msat/openmtp/OpenMTP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index eb0dd7c..fb24b26 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -134,7 +134,7 @@ bool OpenMTP::is_B_format( )
 
 bool OpenMTP::is_subwindow( )
 {
-  return (!is_A_format( ) || !is_B_format( ));
+  return (!is_A_format( ) && !is_B_format( ));
 }
 
 int OpenMTP::nlines( ) { return binary_header.nlines( ); }
-- 
2.43.0


From 086435e6f48eb8d646b8cf4fbc9553a2acfe20c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 137/174] fix: OpenMTP histograms had only the first 20 of
 their 256 values

---
 msat/openmtp/OpenMTP_binary_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 62e7eca..8e2102f 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -471,7 +471,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram( )
 {
   static int tmp[256];
 
-  for (int i = 0; i < 20; i ++)
+  for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+5319+4*i);
   return tmp;
 }
@@ -479,7 +479,7 @@ int *OpenMTP_binary_header::urect_raw_image_histogram_VISn( )
 {
   static int tmp[256];
 
-  for (int i = 0; i < 20; i ++)
+  for (int i = 0; i < 256; i ++)
     tmp[i] = m.int4(header+6343+4*i);
   return tmp;
 }
-- 
2.43.0


From fd77ded07e1259b0c88d3b8894087b7660c2d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 138/174] fix: times of the horizon scan lines of OpenMTP were
 read from the horizon limits

---
 msat/openmtp/OpenMTP_binary_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 8e2102f..0a81669 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -603,8 +603,8 @@ short *OpenMTP_binary_header::urec_horizon_limit_information( )
 double *OpenMTP_binary_header::urec_times_of_horizon_scan_lines( )
 {
   static double tmp[2];
-  tmp[0] = m.float8(header+7579);
-  tmp[1] = m.float8(header+7579+8);
+  tmp[0] = m.float8(header+7603);
+  tmp[1] = m.float8(header+7603+8);
   return tmp;
 }
 short OpenMTP_binary_header::urec_radiometer_step_south( )
-- 
2.43.0


From 67ecd6114f7e1ff997c006ece7d9064dcf773783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:30 +0000
Subject: [PATCH 139/174] fix: OpenMTP attitudes have three components: the
 fourth was of the field after

---
 msat/openmtp/OpenMTP_binary_header.cpp | 6 ++----
 msat/openmtp/OpenMTP_binary_header.h   | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 0a81669..831947c 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -507,20 +507,18 @@ double *OpenMTP_binary_header::urec_orbit_coord_in_geoframe_end( )
 }
 float *OpenMTP_binary_header::urec_cartesian_attitude_start( )
 {
-  static float tmp[4];
+  static float tmp[3];
   tmp[0] = m.float4(header+7479);
   tmp[1] = m.float4(header+7479+4);
   tmp[2] = m.float4(header+7479+8);
-  tmp[3] = m.float4(header+7479+12);
   return tmp;
 }
 float *OpenMTP_binary_header::urec_cartesian_attitude_end( )
 {
-  static float tmp[4];
+  static float tmp[3];
   tmp[0] = m.float4(header+7491);
   tmp[1] = m.float4(header+7491+4);
   tmp[2] = m.float4(header+7491+8);
-  tmp[3] = m.float4(header+7491+12);
   return tmp;
 }
 short *OpenMTP_binary_header::urec_horizon_information( )
diff --git a/msat/openmtp/OpenMTP_binary_header.h b/msat/openmtp/OpenMTP_binary_header.h
index 607d78f..8a1f2bb 100644
--- a/msat/openmtp/OpenMTP_binary_header.h
+++ b/msat/openmtp/OpenMTP_binary_header.h
@@ -269,10 +269,10 @@ class OpenMTP_binary_header {
         for (i = 0; i < 6; i ++)
           os << "Orbl " << i << "\t\t" << dtmp[i] << std::endl;
         ftmp = h.urec_cartesian_attitude_start( );
-        for (i = 0; i < 4; i ++)
+        for (i = 0; i < 3; i ++)
           os << "Attf " << i << "\t\t" << ftmp[i] << std::endl;
         ftmp = h.urec_cartesian_attitude_end( );
-        for (i = 0; i < 4; i ++)
+        for (i = 0; i < 3; i ++)
           os << "Attl " << i << "\t\t" << ftmp[i] << std::endl;
         stmp = h.urec_horizon_information( );
         for (j = 0; j < 4; j ++)
-- 
2.43.0


From 346c8d7b42dd22a445941cdf69eabc2369825224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:49 +0000
Subject: [PATCH 140/174] fix: an OpenMTP file that could not be read left the
 image of the one before with another size

---
 msat/openmtp/OpenMTP.cpp       |  2 ++
 msat/openmtp/OpenMTP_image.cpp | 11 ++++++++---
 msat/openmtp/OpenMTP_image.h   |  1 +
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/msat/openmtp/OpenMTP.cpp b/msat/openmtp/OpenMTP.cpp
index fb24b26..bfb74e7 100644
--- a/msat/openmtp/OpenMTP.cpp
+++ b/msat/openmtp/OpenMTP.cpp
@@ -53,6 +53,8 @@ void OpenMTP::open( char *inname )
 
 void OpenMTP::read( std::ifstream &file )
 {
+  // If this fails, the image before does not match the header
+  image.clear( );
   ascii_header.read(file);
   binary_header.read(file);
   image.read(file, binary_header);
diff --git a/msat/openmtp/OpenMTP_image.cpp b/msat/openmtp/OpenMTP_image.cpp
index 15a9760..c601fcd 100644
--- a/msat/openmtp/OpenMTP_image.cpp
+++ b/msat/openmtp/OpenMTP_image.cpp
@@ -42,14 +42,19 @@ OpenMTP_image::OpenMTP_image( std::ifstream &file, OpenMTP_binary_header &h )
 }
 OpenMTP_image::~OpenMTP_image( ) { delete [ ] image; }
 
+void OpenMTP_image::clear( )
+{
+  delete [ ] image;
+  image = 0;
+  nlines = npixels = 0;
+}
+
 void OpenMTP_image::read( std::ifstream &file, OpenMTP_binary_header &h )
 {
   float rad = 0.0;
   float cc, sc;
   
-  nlines = npixels = 0;
-  delete [ ] image;
-  image = 0;
+  clear( );
 
   if (h.nlines( ) < 0 || h.nlines( ) > MAX_LINES ||
       h.npixels( ) < 0 || h.npixels( ) > MAX_PIXELS)
diff --git a/msat/openmtp/OpenMTP_image.h b/msat/openmtp/OpenMTP_image.h
index 20289d1..39b0aa1 100644
--- a/msat/openmtp/OpenMTP_image.h
+++ b/msat/openmtp/OpenMTP_image.h
@@ -43,6 +43,7 @@ class OpenMTP_image {
     ~OpenMTP_image( );
 
     void read( std::ifstream &file, OpenMTP_binary_header &h );
+    void clear( );
 
     unsigned char *data( );
 
-- 
2.43.0


From ff86b3e113c3d872fa23020dbce47439a58bab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:49 +0000
Subject: [PATCH 141/174] fix: OpenMTP objects without a file had random sizes

---
 msat/openmtp/OpenMTP_ascii_header.cpp  | 2 +-
 msat/openmtp/OpenMTP_binary_header.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/openmtp/OpenMTP_ascii_header.cpp b/msat/openmtp/OpenMTP_ascii_header.cpp
index dd58864..fee0812 100644
--- a/msat/openmtp/OpenMTP_ascii_header.cpp
+++ b/msat/openmtp/OpenMTP_ascii_header.cpp
@@ -33,7 +33,7 @@
 #include <stdexcept>
 #include "OpenMTP_ascii_header.h"
 
-OpenMTP_ascii_header::OpenMTP_ascii_header( ) { }
+OpenMTP_ascii_header::OpenMTP_ascii_header( ) { header[0] = 0; }
 OpenMTP_ascii_header::OpenMTP_ascii_header( std::ifstream &file )
 {
   read(file);
diff --git a/msat/openmtp/OpenMTP_binary_header.cpp b/msat/openmtp/OpenMTP_binary_header.cpp
index 831947c..15895a6 100644
--- a/msat/openmtp/OpenMTP_binary_header.cpp
+++ b/msat/openmtp/OpenMTP_binary_header.cpp
@@ -34,7 +34,7 @@
 #include "OpenMTP_machine.h"
 #include "OpenMTP_binary_header.h"
 
-OpenMTP_binary_header::OpenMTP_binary_header( ) { }
+OpenMTP_binary_header::OpenMTP_binary_header( ) { memset(header, 0, BUFLEN); }
 OpenMTP_binary_header::OpenMTP_binary_header( std::ifstream &file )
 {
   read(file);
-- 
2.43.0


From 4c901ad0e338eae93ff12d0c6f65d22124dc5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:29 +0000
Subject: [PATCH 142/174] fix: opening another DB1 directory kept the channel
 of the one before

---
 msat/thornsds_db1/thornsds_db1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 5aaec70..981c0cc 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -61,6 +61,7 @@ void MSG_db1_data::close( )
 void MSG_db1_data::open( char *directory )
 {
   char iname[PATH_MAX];
+  this->close( );
   this->dirname = strdup(directory);
   snprintf(iname, PATH_MAX, "%s/%s", directory, "AoI");
   AoI = iniparser_new(iname);
-- 
2.43.0


From 84ae17b4093bf236a688346192e6ab266068d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:29 +0000
Subject: [PATCH 143/174] fix: asking for a DB1 channel changed the size of the
 data of the selected one

---
 msat/thornsds_db1/thornsds_db1.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 981c0cc..1c7aee4 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -82,8 +82,9 @@ bool MSG_db1_data::has_channel(char *chname)
     return false;
   }
   char chfname[PATH_MAX];
-  sprintf(chfname, "%s/%s.RAW", dirname, chname);
-  if (stat(chfname, &chfstat) == 0)
+  struct stat st;
+  snprintf(chfname, PATH_MAX, "%s/%s.RAW", dirname, chname);
+  if (stat(chfname, &st) == 0)
     return true;
   return false;
 }
@@ -110,6 +111,12 @@ void MSG_db1_data::set_channel(char *chname)
     std::cerr << "Cannot open file: " << iname << std::endl;
     return;
   }
+  if (fstat(fileno(fp), &chfstat) != 0)
+  {
+    std::cerr << "Cannot read file: " << iname << std::endl;
+    fclose(fp);
+    return;
+  }
   rawdata = (unsigned short *) (new unsigned char[chfstat.st_size]);
   if (fread(rawdata, chfstat.st_size, 1, fp) != 1)
   {
-- 
2.43.0


From e8678cdc065db2f64537ba4863bb3d779a7a8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:29 +0000
Subject: [PATCH 144/174] fix: a DB1 channel that could not be read left the
 data of the one before, with the calibration of none

---
 msat/thornsds_db1/thornsds_db1.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 1c7aee4..4a71e21 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -96,15 +96,23 @@ void MSG_db1_data::set_channel(char *chname)
     if (dirname)
       std::cerr << "Channel not present in " << dirname << std::endl;
   }
+  // Nothing is left of the channel before, also if this one cannot be read
+  if (Calibration) { iniparser_free(Calibration); Calibration = 0; }
+  delete [ ] rawdata; rawdata = 0;
+  delete [ ] cal_values; cal_values = 0;
+  chnum = 0;
+  ncalval = -1;
+  if (dirname == 0)
+    return;
   char iname[PATH_MAX];
-  sprintf(iname, "%s/%s.Calibration", dirname, chname);
+  snprintf(iname, PATH_MAX, "%s/%s.Calibration", dirname, chname);
   Calibration = iniparser_new(iname);
   if (Calibration == 0)
   {
     std::cerr << "No such file: " << iname << std::endl;
     std::cerr << "No Calibration performed for " << chname << std::endl;
   }
-  sprintf(iname, "%s/%s.RAW", dirname, chname);
+  snprintf(iname, PATH_MAX, "%s/%s.RAW", dirname, chname);
   FILE *fp = fopen(iname, "r");
   if (! fp)
   {
@@ -117,10 +125,13 @@ void MSG_db1_data::set_channel(char *chname)
     fclose(fp);
     return;
   }
-  rawdata = (unsigned short *) (new unsigned char[chfstat.st_size]);
+  // Also the last value of a file of odd size can be accessed
+  rawdata = new unsigned short[chfstat.st_size / sizeof(short) + 1]( );
   if (fread(rawdata, chfstat.st_size, 1, fp) != 1)
   {
     std::cerr << "Cannot read file: " << iname << std::endl;
+    delete [ ] rawdata; rawdata = 0;
+    fclose(fp);
     return;
   }
   fclose(fp);
-- 
2.43.0


From de7fff08cd6b8f39b62ba4d8077cbfdccfdbb35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:29 +0000
Subject: [PATCH 145/174] fix: invalid numbers of bits per pixel of DB1 data
 exhausted memory

---
 msat/thornsds_db1/thornsds_db1.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 4a71e21..ef4f477 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -136,7 +136,15 @@ void MSG_db1_data::set_channel(char *chname)
   }
   fclose(fp);
   this->chnum = get_channel_number(chname);
-  ncalval = (int) (pow(2.0, (double) get_INFO_image_bitsperpixel( )));
+  int bpp = get_INFO_image_bitsperpixel( );
+  if (bpp < 0 || bpp > 16)
+  {
+    std::cerr << "Invalid number of bits per pixel in " << dirname << std::endl;
+    delete [ ] rawdata; rawdata = 0;
+    chnum = 0;
+    return;
+  }
+  ncalval = (int) (pow(2.0, (double) bpp));
   cal_values = new float[ncalval];
 
   for (int i = 0; i < ncalval; i ++)
-- 
2.43.0


From a53f753285ad521ffeb144ef408e2ae7725c2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:29 +0000
Subject: [PATCH 146/174] fix: DB1 counts outside the calibration were looked
 up

---
 msat/thornsds_db1/thornsds_db1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index ef4f477..7243df8 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -432,7 +432,7 @@ float MSG_db1_data::get_channel_Calibration_B( )
 float MSG_db1_data::get_channel_Calibration_value_calibrated( int count )
 {
   if (! is_data_ok( )) return 0;
-  if (count < 0 && count >= ncalval) return 0.0;
+  if (count < 0 || count >= ncalval) return 0.0;
   snprintf(infochuse, INFOCHLEN, "%s:%s(%d)", get_channel_INFO_variable( ),
            get_channel_INFO_variable_code( ), count);
   return (float) iniparser_getdouble(Calibration, infochuse, 0.0);
-- 
2.43.0


From bbdc668577a249f00342b80f5ddc2a6caf83f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:13 +0000
Subject: [PATCH 147/174] fix: xritdump divided by zero on images of one value,
 and read past its characters

---
 tools/hrit/xritdump.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index d855111..bdc4f39 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -48,6 +48,15 @@ static void do_help(const char* argv0, ostream& out)
             << "  --help           Print this help message" << endl;
 }
 
+// Character for a sample, among samples from min to max
+static char shade(MSG_SAMPLE s, MSG_SAMPLE min, MSG_SAMPLE max)
+{
+        static const string aachars = " .,-:=$#";
+        if (s <= min || min >= max) return aachars[0];
+        if (s >= max) return aachars[aachars.size() - 1];
+        return aachars[(s-min) * aachars.size() / (max-min)];
+}
+
 static void do_dump(const char* name)
 {
         FileAccess fa(name);
@@ -83,7 +92,6 @@ static void do_dump(const char* name)
                      << "WestColumnActual: " << da.WestColumnActual << endl;
         }
 
-        string aachars = " .,-:=$#";
         MSG_SAMPLE compmin = 0xffff, compmax = 0;
         for (size_t i = 0; i < da.segnames.size(); ++i)
         {
@@ -114,7 +122,7 @@ static void do_dump(const char* name)
                                 size_t px = x * da.columns / charx;
                                 size_t py = y * da.seglines / chary;
                                 MSG_SAMPLE s = d->image->data[py * da.columns + px];
-                                char c = aachars[(s-min) * aachars.size() / (max-min)];
+                                char c = shade(s, min, max);
                                 cout << c;
                         }
                         cout << endl;
@@ -141,7 +149,7 @@ static void do_dump(const char* name)
                 {
                         size_t px = x * comp_sx / charx;
                         MSG_SAMPLE s = buf[px];
-                        char c = aachars[(s-compmin) * aachars.size() / (compmax-compmin)];
+                        char c = shade(s, compmin, compmax);
                         cout << c;
                 }
                 cout << endl;
-- 
2.43.0


From 880027131e7406f89090e937a37b7e5c530f427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 148/174] fix: xritdump read past segments that are not like
 the first one

---
 tools/hrit/xritdump.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index bdc4f39..b0fc81f 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -103,6 +103,8 @@ static void do_dump(const char* name)
                         cout << "missing." << endl;
                         continue;
                 } else {
+                        if (!d->image || d->image->len < da.npixperseg)
+                                throw std::runtime_error(da.segnames[i] + ": the segment is smaller than the other ones of the image");
                         for (size_t i = 0; i < da.npixperseg; ++i)
                         {
                                 if (d->image->data[i] < min) min = d->image->data[i];
@@ -142,9 +144,8 @@ static void do_dump(const char* name)
         for (size_t y = 0; y < chary; ++y)
         {
                 size_t py = y * comp_sy / chary;
-                MSG_SAMPLE buf[comp_sx];
-                bzero(buf, comp_sx * sizeof(MSG_SAMPLE));
-                da.line_read(py, buf);
+                vector<MSG_SAMPLE> buf(max(comp_sx, da.columns), 0);
+                da.line_read(py, buf.data());
                 for (size_t x = 0; x < charx; ++x)
                 {
                         size_t px = x * comp_sx / charx;
-- 
2.43.0


From 676d5728901ba338efc6750d952552e7dafcb063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 149/174] fix: XRIT2Image ended with an uncaught exception on
 files it cannot read

---
 tools/hrit/XRIT2Image.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 6aa8588..1f73ddd 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -47,7 +47,7 @@
 void usage(char *pname);
 std::string underscoreit(std::string base, int final_len);
 
-int main(int argc, char *argv[ ])
+static int convert(int argc, char *argv[ ])
 {
   char *directory = NULL;
   char *overlay_image = NULL;
@@ -257,6 +257,19 @@ int main(int argc, char *argv[ ])
   return 0;
 }
 
+int main(int argc, char *argv[ ])
+{
+  try
+  {
+    return convert(argc, argv);
+  }
+  catch (std::exception &e)
+  {
+    std::cerr << "Cannot convert: " << e.what( ) << std::endl;
+    return 1;
+  }
+}
+
 void usage(char *pname)
 {
   std::cout << pname << ": Convert HRIT/LRIT files to pgm format." << std::endl;
-- 
2.43.0


From 1946d09dbb3cbcbcb511045792e3f4d95697f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 150/174] fix: XRIT2Image used segments out of the image or of
 another size

---
 tools/hrit/XRIT2Image.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 1f73ddd..9eeb0c8 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -186,6 +186,15 @@ static int convert(int argc, char *argv[ ])
 
   globfree(&globbuf);
 
+  for (int i = 0; i < nsegments; i ++)
+  {
+    if (! header[i].segment_id || ! header[i].image_structure)
+    {
+      std::cerr << "Not an image segment." << std::endl;
+      return 1;
+    }
+  }
+
   if (header[0].segment_id->data_field_format == MSG_NO_FORMAT)
   {
     std::cout << "Product dumped in binary format." << std::endl;
@@ -199,7 +208,27 @@ static int convert(int argc, char *argv[ ])
     segsindexes[i] = -1;
 
   for (int i = 0; i < nsegments; i ++)
-    segsindexes[header[i].segment_id->sequence_number-1] = i;
+  {
+    int seqno = header[i].segment_id->sequence_number;
+    if (seqno < 1 || seqno > totalsegs)
+    {
+      std::cerr << "Segment " << seqno << " of " << totalsegs << "."
+                << std::endl;
+      return 1;
+    }
+    if (header[i].image_structure->number_of_columns !=
+          header[0].image_structure->number_of_columns ||
+        header[i].image_structure->number_of_lines !=
+          header[0].image_structure->number_of_lines ||
+        ! msgdat[i].image ||
+        msgdat[i].image->len < (size_t) header[i].image_structure->number_of_columns *
+                               header[i].image_structure->number_of_lines)
+    {
+      std::cerr << "Segment " << seqno << " has another size." << std::endl;
+      return 1;
+    }
+    segsindexes[seqno-1] = i;
+  }
 
   filename = resolution;
   filename = filename + "-" + productid1 + "-" + productid2 + "-" +
-- 
2.43.0


From dea855d69ef702f44afe6df45825068d0efabc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 151/174] fix: the native format tools ended with an uncaught
 exception on files they cannot read

---
 tools/msg-native/native2Image.cpp | 15 ++++++++++++++-
 tools/msg-native/nativedump.cpp   | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 0c0b799..9f66962 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -37,7 +37,7 @@
 
 #include <config.h>
 
-int main(int argc, char **argv)
+static int convert(int argc, char **argv)
 {
   MSG_native native;
   char *format;
@@ -92,3 +92,16 @@ int main(int argc, char **argv)
   native.close( );
   return 0;
 }
+
+int main(int argc, char **argv)
+{
+  try
+  {
+    return convert(argc, argv);
+  }
+  catch (std::exception &e)
+  {
+    std::cerr << argv[0] << ": " << e.what( ) << std::endl;
+    return 1;
+  }
+}
diff --git a/tools/msg-native/nativedump.cpp b/tools/msg-native/nativedump.cpp
index 6f5f621..9691fab 100644
--- a/tools/msg-native/nativedump.cpp
+++ b/tools/msg-native/nativedump.cpp
@@ -24,7 +24,7 @@
 #include <iostream>
 #include <msat/msg-native/MSG_native.h>
 
-int main(int argc, char **argv)
+static int dump(int argc, char **argv)
 {
   MSG_native native;
 
@@ -38,3 +38,16 @@ int main(int argc, char **argv)
   native.close( );
   return 0;
 }
+
+int main(int argc, char **argv)
+{
+  try
+  {
+    return dump(argc, argv);
+  }
+  catch (std::exception &e)
+  {
+    std::cerr << argv[0] << ": " << e.what( ) << std::endl;
+    return 1;
+  }
+}
-- 
2.43.0


From 5571f21e2232584d5e9f0b19f248f513e4257268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 152/174] fix: native2Image crashed on channels that are not in
 the file

---
 tools/msg-native/native2Image.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 9f66962..491251d 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -75,9 +75,16 @@ static int convert(int argc, char **argv)
 
   native.read( );
 
+  unsigned short *pixels = native.data(ichn);
+  if (! pixels || native.pixels(ichn) < 1 || native.lines(ichn) < 1)
+  {
+    std::cerr << "Exit: this channel is not present." << std::endl;
+    return -1;
+  }
+
   Magick::Image *image = new Magick::Image(native.pixels(ichn),
                          native.lines(ichn), "I", Magick::ShortPixel,
-                         native.data(ichn)); 
+                         pixels); 
   char outname[PATH_MAX];
   snprintf(outname, PATH_MAX, "%s.%s", "MSG1", format);
 
-- 
2.43.0


From 098c5f69f790f6624d77c539272da30b436ff9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 153/174] fix: native2Image ignored the scale, which was
 applied after writing the image

---
 tools/msg-native/native2Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 491251d..1c9a54d 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -90,11 +90,11 @@ static int convert(int argc, char **argv)
 
   image->normalize( );
   image->rotate(180.0);
-  image->write(outname);
 
   Magick::Geometry geom((int) ((float) native.pixels(ichn)*gfactor),
                         (int) ((float) native.lines(ichn) *gfactor));
   image->scale(geom);
+  image->write(outname);
 
   native.close( );
   return 0;
-- 
2.43.0


From 555bd905636ececbf941d84e9be3c0b6143fce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 154/174] fix: OpenMTP-IDS_to_pgm ended with an error when it
 wrote the images

---
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 65be161..85ba7b4 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -150,11 +150,11 @@ openmtp_ids_to_pgm(const OpenMTP_IDS& omtp_ids)
 
 	bool ret = false;
 
-	ret = write_channel_pgm(fh.vis_id(), omtp_ids);
-	ret = write_channel_pgm(fh.ir_id(),  omtp_ids);
-	ret = write_channel_pgm(fh.wv_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.vis_id(), omtp_ids);
+	ret |= write_channel_pgm(fh.ir_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.wv_id(),  omtp_ids);
 
-	return (! ret);
+	return ret;
 }
 
 // EXTERNAL REFERENCES
-- 
2.43.0


From 15cc697fe37592c5d6a962d55a3a80554f02d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:58 +0000
Subject: [PATCH 155/174] fix: OpenMTP-IDS_to_pgm did not see that an image
 could not be written

---
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 85ba7b4..dce081f 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -103,6 +103,9 @@ write_pgm(const char* filename,
 		}
 	}
 	os.close();
+	if (os.fail()) {
+		return false;
+	}
 	std::cout << "wrote " << filename << std::endl;
 	return true;
 }
-- 
2.43.0


From 5a6b69484c300e0e0b35d921ddfa82b8e6a434ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:19 +0000
Subject: [PATCH 156/174] fix: OpenMTP-IDS_sector read past images that are
 smaller than the sector

---
 tools/omtp-ids/OpenMTP-IDS_sector.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index 5a22828..e2bb124 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -105,6 +105,10 @@ repack(std::vector<ScanLine> scanline)
 static void
 sector_line(ScanLine& line)
 {
+	if (line.linepixel().size() < PIXEL_1) {
+		throw "the image is smaller than the sector";
+	}
+
 	std::vector<unsigned char>::iterator begin = line.linepixel().begin();
 	std::vector<unsigned char>::iterator end = begin;
 
@@ -125,6 +129,9 @@ static std::vector<Record>
 sector(const OpenMTP_IDS& omtp_ids)
 {
 	std::vector<ScanLine> lines = omtp_ids.scanline(LINE_0, LINE_1);
+	if (lines.size() < LINE_1 - LINE_0) {
+		throw "the image is smaller than the sector";
+	}
 
 	for_each(lines.begin(), lines.end(), sector_line);
 	return repack(lines);
@@ -168,15 +175,16 @@ main(int argc, char* argv[])
 	}
 
 	std::cout << "read..." << std::endl;
-	OpenMTP_IDS omtp_ids;
+	bool written;
 	try {
-		omtp_ids = OpenMTP_IDS(argv[1]);
+		OpenMTP_IDS omtp_ids(argv[1]);
+		written = openmtp_ids_sector(omtp_ids);
 	} catch (const char* err) {
 		std::cout << argv[0] << ": " << err << std::endl;
 		return EXIT_FAILURE;
 	}
 
-	if (!openmtp_ids_sector(omtp_ids)) {
+	if (!written) {
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From e0b8e69cb411a6f032ba18405f89b0e63701c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:19 +0000
Subject: [PATCH 157/174] fix: OpenMTP_info ended with an uncaught exception on
 files it cannot read

---
 tools/openmtp/OpenMTP_info.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/openmtp/OpenMTP_info.cc b/tools/openmtp/OpenMTP_info.cc
index da5dc6f..8d9b745 100644
--- a/tools/openmtp/OpenMTP_info.cc
+++ b/tools/openmtp/OpenMTP_info.cc
@@ -36,9 +36,17 @@
 static bool
 OpenMTP_info( char *inpath )
 {
-  OpenMTP omtp;
-  omtp.open(inpath);
-  std::cout << omtp;
+  try
+  {
+    OpenMTP omtp;
+    omtp.open(inpath);
+    std::cout << omtp;
+  }
+  catch (std::exception &e)
+  {
+    std::cerr << e.what( ) << std::endl;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 0723d820654755557307cee83c98642156c9f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:19 +0000
Subject: [PATCH 158/174] fix: db1_to_image ignored the name of the overlay

---
 tools/thornsds_db1/db1_to_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index 720a081..2aa556e 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -102,7 +102,7 @@ int main (int argc, char *argv[])
   if (image_overlay)
   {
     Magick::Image overlay;
-    overlay.read("SEVIRI_OVERLAY.pgm");
+    overlay.read(image_overlay);
     image->composite(overlay, 0, 0, Magick::PlusCompositeOp);
   }
 
-- 
2.43.0


From 243625fbf0c6f046c50b9887c9df3d52c75a4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:19 +0000
Subject: [PATCH 159/174] fix: db1_to_image ended with an uncaught exception on
 images it cannot write

---
 tools/thornsds_db1/db1_to_image.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index 2aa556e..e326848 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -34,7 +34,7 @@
 #include <iostream>
 #include <msat/thornsds_db1/thornsds_db1.h>
 
-int main (int argc, char *argv[])
+static int convert(int argc, char *argv[])
 {
   MSG_db1_data db1;
   char *format;
@@ -115,3 +115,16 @@ int main (int argc, char *argv[])
   db1.close( );
   return 0;
 }
+
+int main(int argc, char *argv[])
+{
+  try
+  {
+    return convert(argc, argv);
+  }
+  catch (std::exception &e)
+  {
+    std::cerr << argv[0] << ": " << e.what( ) << std::endl;
+    return 1;
+  }
+}
-- 
2.43.0


From 31a67360f834b9d7107bd32d4793dca7ed36312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:34 +0000
Subject: [PATCH 160/174] fix: db1_to_image read past data smaller than the
 image

---
 msat/thornsds_db1/thornsds_db1.cpp  | 7 +++++++
 msat/thornsds_db1/thornsds_db1.h    | 1 +
 tools/thornsds_db1/db1_to_image.cpp | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/msat/thornsds_db1/thornsds_db1.cpp b/msat/thornsds_db1/thornsds_db1.cpp
index 7243df8..d6d02ad 100644
--- a/msat/thornsds_db1/thornsds_db1.cpp
+++ b/msat/thornsds_db1/thornsds_db1.cpp
@@ -444,6 +444,13 @@ unsigned short *MSG_db1_data::get_RAW_data( )
   return rawdata;
 }
 
+// Number of values in the data of the channel
+long MSG_db1_data::get_RAW_size( )
+{
+  if (! is_data_ok( )) return 0;
+  return chfstat.st_size / sizeof(short);
+}
+
 float *MSG_db1_data::get_calibration( )
 {
   if (! is_data_ok( )) return 0;
diff --git a/msat/thornsds_db1/thornsds_db1.h b/msat/thornsds_db1/thornsds_db1.h
index a012f73..74e9443 100644
--- a/msat/thornsds_db1/thornsds_db1.h
+++ b/msat/thornsds_db1/thornsds_db1.h
@@ -100,6 +100,7 @@ class MSG_db1_data {
     int get_raw_data_size( );
     int get_raw_data_nvals( );
     unsigned short *get_RAW_data( );
+    long get_RAW_size( );
     int get_number_of_calibration( );
     float *get_calibration( );
 
diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index e326848..0760c5e 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -80,6 +80,14 @@ static int convert(int argc, char *argv[])
     return -1;
   }
 
+  long npixels = db1.get_INFO_image_pixels( );
+  long nlines = db1.get_INFO_image_lines( );
+  if (npixels < 1 || nlines < 1 || db1.get_RAW_size( ) / npixels < nlines)
+  {
+    std::cerr << "Exit: the data is smaller than the image." << std::endl;
+    return -1;
+  }
+
   char outname[PATH_MAX];
   snprintf(outname, PATH_MAX, "%s_%s_%s.%s", db1.get_INFO_satellite_name( ),
            db1.get_channel_INFO_name( ),
-- 
2.43.0


From 2b5b80c0e5756b4c5e6613e2576588decbfab8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:01 +0000
Subject: [PATCH 161/174] fix: xritdump mixed up segments that are larger than
 the last one

---
 tools/hrit/xritdump.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index b0fc81f..b4a6457 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -103,8 +103,8 @@ static void do_dump(const char* name)
                         cout << "missing." << endl;
                         continue;
                 } else {
-                        if (!d->image || d->image->len < da.npixperseg)
-                                throw std::runtime_error(da.segnames[i] + ": the segment is smaller than the other ones of the image");
+                        if (!d->image || d->image->len != da.npixperseg)
+                                throw std::runtime_error(da.segnames[i] + ": the segment does not have the size of the other ones of the image");
                         for (size_t i = 0; i < da.npixperseg; ++i)
                         {
                                 if (d->image->data[i] < min) min = d->image->data[i];
-- 
2.43.0


From ab9cc8f9264cf5a6fb81a56b01fd2670af68f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:01 +0000
Subject: [PATCH 162/174] fix: XRIT2Image aborted on impossible sizes, and said
 that images without a format were dumped

---
 tools/hrit/XRIT2Image.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 9eeb0c8..2bae7f7 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -44,6 +44,8 @@
 #define PATH_SEPARATOR "/"
 // For windows use #define PATH_SEPARATOR "\"
 
+#define MAX_IMAGE_SIZE 30000
+
 void usage(char *pname);
 std::string underscoreit(std::string base, int final_len);
 
@@ -197,6 +199,11 @@ static int convert(int argc, char *argv[ ])
 
   if (header[0].segment_id->data_field_format == MSG_NO_FORMAT)
   {
+    if (header[0].f_typecode == MSG_FILE_IMAGE_DATA)
+    {
+      std::cerr << "Images without a format cannot be converted." << std::endl;
+      return 1;
+    }
     std::cout << "Product dumped in binary format." << std::endl;
     return 0;
   }
@@ -242,6 +249,14 @@ static int convert(int argc, char *argv[ ])
   int nlin = header[0].image_structure->number_of_lines;
   size_t npixperseg = npix*nlin;
 
+  // ImageMagick does not go on with larger ones
+  if (npix > MAX_IMAGE_SIZE || (long) nlin*totalsegs > MAX_IMAGE_SIZE)
+  {
+    std::cerr << "The image is too large." << std::endl;
+    return 1;
+  }
+
+
   size_t total_size = totalsegs*npixperseg;
   MSG_SAMPLE *pixels = new MSG_SAMPLE[total_size];
   memset(pixels, 0, total_size*sizeof(MSG_SAMPLE));
-- 
2.43.0


From 83ec07b4f156c1bb5e70062297ec7710c21630df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:01 +0000
Subject: [PATCH 163/174] fix: native2Image and db1_to_image aborted on
 impossible sizes

---
 tools/msg-native/native2Image.cpp   | 9 +++++++--
 tools/thornsds_db1/db1_to_image.cpp | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 1c9a54d..158e6ef 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -37,6 +37,9 @@
 
 #include <config.h>
 
+// ImageMagick does not go on with larger ones
+#define MAX_IMAGE_SIZE 30000
+
 static int convert(int argc, char **argv)
 {
   MSG_native native;
@@ -76,9 +79,11 @@ static int convert(int argc, char **argv)
   native.read( );
 
   unsigned short *pixels = native.data(ichn);
-  if (! pixels || native.pixels(ichn) < 1 || native.lines(ichn) < 1)
+  if (! pixels || native.pixels(ichn) < 1 || native.lines(ichn) < 1 ||
+      native.pixels(ichn) > MAX_IMAGE_SIZE ||
+      native.lines(ichn) > MAX_IMAGE_SIZE)
   {
-    std::cerr << "Exit: this channel is not present." << std::endl;
+    std::cerr << "Exit: there is no image of this channel." << std::endl;
     return -1;
   }
 
diff --git a/tools/thornsds_db1/db1_to_image.cpp b/tools/thornsds_db1/db1_to_image.cpp
index 0760c5e..10706f6 100644
--- a/tools/thornsds_db1/db1_to_image.cpp
+++ b/tools/thornsds_db1/db1_to_image.cpp
@@ -34,6 +34,9 @@
 #include <iostream>
 #include <msat/thornsds_db1/thornsds_db1.h>
 
+// ImageMagick does not go on with larger ones
+#define MAX_IMAGE_SIZE 30000
+
 static int convert(int argc, char *argv[])
 {
   MSG_db1_data db1;
@@ -82,9 +85,10 @@ static int convert(int argc, char *argv[])
 
   long npixels = db1.get_INFO_image_pixels( );
   long nlines = db1.get_INFO_image_lines( );
-  if (npixels < 1 || nlines < 1 || db1.get_RAW_size( ) / npixels < nlines)
+  if (npixels < 1 || nlines < 1 ||
+      npixels > MAX_IMAGE_SIZE || nlines > MAX_IMAGE_SIZE || db1.get_RAW_size( ) / npixels < nlines)
   {
-    std::cerr << "Exit: the data is smaller than the image." << std::endl;
+    std::cerr << "Exit: the data does not have the size of the image." << std::endl;
     return -1;
   }
 
-- 
2.43.0


From 6163a285796ca4030af0c396b71f55ee6471742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 164/174] fix: XRIT2Image only knew by the image headers, that
 may not be there, that a product is not an image

---
 tools/hrit/XRIT2Image.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 2bae7f7..90d9353 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -188,6 +188,13 @@ static int convert(int argc, char *argv[ ])
 
   globfree(&globbuf);
 
+  if (header[0].f_typecode == MSG_FILE_GTS_MESSAGE ||
+      header[0].f_typecode == MSG_FILE_BINARY_MESSAGE)
+  {
+    std::cout << "Product dumped in binary format." << std::endl;
+    return 0;
+  }
+
   for (int i = 0; i < nsegments; i ++)
   {
     if (! header[i].segment_id || ! header[i].image_structure)
@@ -199,13 +206,8 @@ static int convert(int argc, char *argv[ ])
 
   if (header[0].segment_id->data_field_format == MSG_NO_FORMAT)
   {
-    if (header[0].f_typecode == MSG_FILE_IMAGE_DATA)
-    {
-      std::cerr << "Images without a format cannot be converted." << std::endl;
-      return 1;
-    }
-    std::cout << "Product dumped in binary format." << std::endl;
-    return 0;
+    std::cerr << "Images without a format cannot be converted." << std::endl;
+    return 1;
   }
 
   int totalsegs = header[0].segment_id->planned_end_segment_sequence_number;
-- 
2.43.0


From c95b4a069e3962dfa73c5c8e1692d27f28022b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:27 +0000
Subject: [PATCH 165/174] fix: the dump tools did not see that their output
 could not be written

---
 tools/hrit/xritdump.cpp             | 6 ++++++
 tools/msg-native/nativedump.cpp     | 6 ++++++
 tools/omtp-ids/OpenMTP-IDS_debug.cc | 5 +++++
 tools/openmtp/OpenMTP_info.cc       | 1 +
 4 files changed, 18 insertions(+)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index b4a6457..3aad188 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -218,6 +218,12 @@ int main( int argc, char* argv[] )
                 return 1;
         }
 
+        if (!cout.flush())
+        {
+                cerr << "Cannot write the output" << endl;
+                return 1;
+        }
+
         return 0;
 }
 
diff --git a/tools/msg-native/nativedump.cpp b/tools/msg-native/nativedump.cpp
index 9691fab..2f35a99 100644
--- a/tools/msg-native/nativedump.cpp
+++ b/tools/msg-native/nativedump.cpp
@@ -36,6 +36,12 @@ static int dump(int argc, char **argv)
   std::cout << native;
 
   native.close( );
+
+  if (! std::cout.flush( ))
+  {
+    std::cerr << "Cannot write the output" << std::endl;
+    return 1;
+  }
   return 0;
 }
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_debug.cc b/tools/omtp-ids/OpenMTP-IDS_debug.cc
index 5fe7a67..4e16b50 100644
--- a/tools/omtp-ids/OpenMTP-IDS_debug.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_debug.cc
@@ -64,5 +64,10 @@ main(int argc, char* argv[])
 		return EXIT_FAILURE;
 	}
 
+	if (!std::cout.flush()) {
+		std::cerr << argv[0] << ": cannot write the output" << std::endl;
+		return EXIT_FAILURE;
+	}
+
 	return EXIT_SUCCESS;
 }
diff --git a/tools/openmtp/OpenMTP_info.cc b/tools/openmtp/OpenMTP_info.cc
index 8d9b745..96de56b 100644
--- a/tools/openmtp/OpenMTP_info.cc
+++ b/tools/openmtp/OpenMTP_info.cc
@@ -41,6 +41,7 @@ OpenMTP_info( char *inpath )
     OpenMTP omtp;
     omtp.open(inpath);
     std::cout << omtp;
+    if (! std::cout.flush( )) return false;
   }
   catch (std::exception &e)
   {
-- 
2.43.0


From f2a9022199bb6993b9108acc44508d5cb26e7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 166/174] fix: data read again kept, and lost, what had been
 read before

---
 msat/hrit/MSG_data.cpp | 28 +++++++++++++++++++++-------
 msat/hrit/MSG_data.h   |  3 +++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 60a2e03..8733a33 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -57,6 +57,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_level_15_trailer &t )
 
 MSG_data::MSG_data( )
 {
+  typecode     = MSG_FILE_IMAGE_DATA;
   key_message  = 0;
   gts_message  = 0;
   text_message = 0;
@@ -74,13 +75,25 @@ MSG_data::MSG_data( std::ifstream &in, MSG_header &header)
 
 MSG_data::~MSG_data( )
 {
-  if (key_message) delete key_message;
-  if (gts_message) delete gts_message;
-  if (text_message) delete text_message;
-  if (prologue) delete prologue;
-  if (epilogue) delete epilogue;
-  if (image) delete image;
-  if (sdsprologue) delete sdsprologue;
+  clear( );
+}
+
+void MSG_data::clear( )
+{
+  delete key_message;
+  key_message = 0;
+  delete gts_message;
+  gts_message = 0;
+  delete text_message;
+  text_message = 0;
+  delete prologue;
+  prologue = 0;
+  delete epilogue;
+  epilogue = 0;
+  delete image;
+  image = 0;
+  delete sdsprologue;
+  sdsprologue = 0;
 }
 
 // Read the data field of the file, whose length is declared in the header
@@ -128,6 +141,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
   unsigned char_1 *dbuff = 0;
   unsigned char_1 *dpnt = 0;
 
+  clear( );
   typecode = header.f_typecode;
   switch (typecode)
   {
diff --git a/msat/hrit/MSG_data.h b/msat/hrit/MSG_data.h
index 40a0351..20f7b7a 100644
--- a/msat/hrit/MSG_data.h
+++ b/msat/hrit/MSG_data.h
@@ -116,6 +116,9 @@ class MSG_data {
     friend std::ostream& operator<< ( std::ostream& os, MSG_data &h );
 
   private:
+    // Forget what was read before
+    void clear( );
+
     t_enum_MSG_filetype typecode;
 };
 
-- 
2.43.0


From 666480674302275e71f13976456d943f20620920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 167/174] fix: messages read again were lost, and after an
 error had a size without content

---
 msat/hrit/MSG_data_SGS_header.cpp |  2 ++
 msat/hrit/MSG_data_gts.cpp        | 10 +++++++---
 msat/hrit/MSG_data_key.cpp        | 11 ++++++++---
 msat/hrit/MSG_data_text.cpp       |  9 ++++++---
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/msat/hrit/MSG_data_SGS_header.cpp b/msat/hrit/MSG_data_SGS_header.cpp
index f050889..7ff6b10 100644
--- a/msat/hrit/MSG_data_SGS_header.cpp
+++ b/msat/hrit/MSG_data_SGS_header.cpp
@@ -109,6 +109,8 @@ size_t MSG_SGSImageProductSpecificHeader::read_from(unsigned const char_1 *buff)
   ImageProductSpecificHeaderLenght = get_ui4(buff+position);
   position += 4;
   datlen = ImageProductSpecificHeaderLenght - 8;
+  delete [ ] ImageProductSpecificHeaderData;
+  ImageProductSpecificHeaderData = 0;
   ImageProductSpecificHeaderData = new uint_1[datlen];
   memcpy(ImageProductSpecificHeaderData, buff+position, datlen);
   position += datlen;
diff --git a/msat/hrit/MSG_data_gts.cpp b/msat/hrit/MSG_data_gts.cpp
index cd23257..c202a3a 100644
--- a/msat/hrit/MSG_data_gts.cpp
+++ b/msat/hrit/MSG_data_gts.cpp
@@ -50,14 +50,18 @@ MSG_data_gts::~MSG_data_gts( )
 
 size_t MSG_data_gts::read_from( unsigned const char_1 *buff, size_t datasize )
 {
-  msize = datasize;
-  if (msize == 0 || msize > (MSG_MAX_GTS_MESSAGE_SIZE*MSG_MAX_GTS_MESSAGES))
+  delete [ ] mbuff;
+  mbuff = 0;
+  msize = 0;
+  if (datasize == 0 ||
+      datasize > (MSG_MAX_GTS_MESSAGE_SIZE*MSG_MAX_GTS_MESSAGES))
   {
     std::cerr << "Invalid GTS message(s) size." << std::endl;
     throw std::runtime_error("cannot decode xRIT data");
   }
 
-  mbuff = new unsigned char_1[msize];
+  mbuff = new unsigned char_1[datasize];
+  msize = datasize;
   memcpy(mbuff, buff, msize);
   return msize;
 }
diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 8338646..6c6223c 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -33,6 +33,7 @@
 
 MSG_data_key::MSG_data_key( )
 {
+  nkeys = 0;
   keys = 0;
 }
 
@@ -49,14 +50,18 @@ MSG_data_key::~MSG_data_key( )
 
 size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
 {
-  nkeys = datasize / MSG_KEY_MESSAGE_LEN;
-  if (nkeys > MSG_MAX_NUMBER_KEY_MESSAGES || nkeys <= 0)
+  delete [ ] keys;
+  keys = 0;
+  nkeys = 0;
+  size_t number = datasize / MSG_KEY_MESSAGE_LEN;
+  if (number > MSG_MAX_NUMBER_KEY_MESSAGES || number == 0)
   {
     std::cerr << "Key message number or size invalid." << std::endl;
     throw std::runtime_error("cannot decode xRIT data");
   }
 
-  keys = new MSG_encryption_key[nkeys];
+  keys = new MSG_encryption_key[number];
+  nkeys = number;
   unsigned char_1 *pnt = (unsigned char_1 *) buff;
   for (int i = 0; i < nkeys; i ++)
   {
diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index 144b720..00e390e 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -50,14 +50,17 @@ MSG_data_text::~MSG_data_text( )
 
 size_t MSG_data_text::read_from( unsigned const char_1 *buff, size_t datasize )
 {
-  tsize = datasize;
-  if (tsize == 0)
+  delete [ ] tbuff;
+  tbuff = 0;
+  tsize = 0;
+  if (datasize == 0)
   {
     std::cerr << "Invalid TEXT message size." << std::endl;
     throw std::runtime_error("cannot decode xRIT data");
   }
 
-  tbuff = new unsigned char_1[tsize];
+  tbuff = new unsigned char_1[datasize];
+  tsize = datasize;
   memcpy(tbuff, buff, tsize);
   return tsize;
 }
-- 
2.43.0


From 85af4ab6bc9e0485318b5d6f93c7cd92a3eb6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 168/174] fix: versions of 16 characters in foreign prologues
 were printed past their end

---
 msat/hrit/MSG_data_SGS_header.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_data_SGS_header.cpp b/msat/hrit/MSG_data_SGS_header.cpp
index 7ff6b10..8523714 100644
--- a/msat/hrit/MSG_data_SGS_header.cpp
+++ b/msat/hrit/MSG_data_SGS_header.cpp
@@ -76,8 +76,12 @@ std::ostream& operator<< (std::ostream& os, MSG_SGSCommonHeader &h)
      << std::endl
      << "Proc. Instance Id   : " << (uint_2) h.SGSProcessingInstanceId
      << std::endl
-     << "Base Algorithm      : " << h.BaseAlgorithmVersion << std::endl
-     << "Product Algorithm   : " << h.ProductAlgorithmVersion << std::endl;
+     << "Base Algorithm      : "
+     << std::string(h.BaseAlgorithmVersion,
+                    strnlen(h.BaseAlgorithmVersion, 16)) << std::endl
+     << "Product Algorithm   : "
+     << std::string(h.ProductAlgorithmVersion,
+                    strnlen(h.ProductAlgorithmVersion, 16)) << std::endl;
   return os;
 }
 
-- 
2.43.0


From 36963b65ce5e4cc4b5296441bebaee8f4e1c3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 169/174] fix: copies of messages that could not be written
 were taken as written

---
 msat/hrit/MSG_data.cpp      | 2 ++
 msat/hrit/MSG_data_gts.cpp  | 9 +++++++++
 msat/hrit/MSG_data_text.cpp | 9 +++++++++
 3 files changed, 20 insertions(+)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 8733a33..9087a24 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -311,6 +311,8 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
           throw std::runtime_error("invalid xRIT data field");
         os.write((char *) dbuff, (size_t) dsize);
         os.close( );
+        if (os.fail( ))
+          throw std::runtime_error("cannot write " + outname);
       }
       break;
 
diff --git a/msat/hrit/MSG_data_gts.cpp b/msat/hrit/MSG_data_gts.cpp
index c202a3a..6b287e5 100644
--- a/msat/hrit/MSG_data_gts.cpp
+++ b/msat/hrit/MSG_data_gts.cpp
@@ -71,6 +71,9 @@ void MSG_data_gts::dump( )
   std::ofstream outs;
   outs.open("gts_dump.bin", std::ios_base::app);
   outs.write((char_1 *) mbuff, msize);
+  outs.close( );
+  if (outs.fail( ))
+    throw std::runtime_error("cannot write GTS message");
   return;
 }
 
@@ -79,6 +82,9 @@ void MSG_data_gts::dump(char *filename)
   std::ofstream outs;
   outs.open(filename, std::ios_base::app);
   outs.write((char_1 *) mbuff, msize);
+  outs.close( );
+  if (outs.fail( ))
+    throw std::runtime_error("cannot write GTS message");
   return;
 }
 
@@ -87,6 +93,9 @@ void MSG_data_gts::dump(std::string filename)
   std::ofstream outs;
   outs.open(filename.c_str( ));
   outs.write((char_1 *) mbuff, msize);
+  outs.close( );
+  if (outs.fail( ))
+    throw std::runtime_error("cannot write GTS message");
   return;
 }
 
diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index 00e390e..b4d1bc0 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -70,6 +70,9 @@ void MSG_data_text::dump( )
   std::ofstream outs;
   outs.open("text_dump.bin");
   outs.write((char_1 *) tbuff, tsize);
+  outs.close( );
+  if (outs.fail( ))
+    throw std::runtime_error("cannot write text");
   return;
 }
 
@@ -78,6 +81,9 @@ void MSG_data_text::dump(char *filename)
   std::ofstream outs;
   outs.open(filename);
   outs.write((char_1 *) tbuff, tsize);
+  outs.close( );
+  if (outs.fail( ))
+    throw std::runtime_error("cannot write text");
   return;
 }
 
@@ -86,6 +92,9 @@ void MSG_data_text::dump(std::string filename)
   std::ofstream outs;
   outs.open(filename.c_str( ));
   outs.write((char_1 *) tbuff, tsize);
+  outs.close( );
+  if (outs.fail( ))
+    throw std::runtime_error("cannot write text");
   return;
 }
 
-- 
2.43.0


From ad0de586d6b13c9ed9c0ca6c6972f0cdafe4e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 170/174] fix: messages were copied to any directory that the
 file named

---
 msat/hrit/MSG_data.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 9087a24..e176a87 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -133,6 +133,15 @@ static void check_header( bool present, const char *what )
   throw std::runtime_error("missing xRIT header");
 }
 
+// The name of the file where a message is copied, in the current directory
+static std::string dump_name( MSG_header &header )
+{
+  check_header(header.annotation != 0, "annotation");
+  if (header.annotation->annotation.find('/') != std::string::npos)
+    throw std::runtime_error("xRIT annotation is not a file name");
+  return header.annotation->annotation + ".bin";
+}
+
 void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 {
   size_t dsize;
@@ -178,13 +187,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       dbuff = buffer.data( );
       gts_message = new MSG_data_gts;
       dpos = gts_message->read_from(dbuff, dsize);
-      check_header(header.annotation != 0, "annotation");
-      {
-        std::string outname;
-        outname = header.annotation->annotation;
-        outname += ".bin";
-        gts_message->dump(outname);
-      }
+      gts_message->dump(dump_name(header));
 
       break;
 
@@ -300,12 +303,9 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
       dsize = read_data_field(in, header, buffer);
       dbuff = buffer.data( );
-      check_header(header.annotation != 0, "annotation");
       {
         std::ofstream os;
-        std::string outname;
-        outname = header.annotation->annotation;
-        outname += ".bin";
+        std::string outname = dump_name(header);
         os.open(outname.c_str( ));
         if (!os.good())
           throw std::runtime_error("invalid xRIT data field");
-- 
2.43.0


From 60d4968b77f1e32e3c23381faf0b2516b12d2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:29 +0000
Subject: [PATCH 171/174] fix: plain background colours changed the colour of
 the characters instead

---
 msat/utils/term.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/term.cc b/msat/utils/term.cc
index e10180b..08d8b76 100644
--- a/msat/utils/term.cc
+++ b/msat/utils/term.cc
@@ -82,7 +82,7 @@ struct SGR
         {
             append(99 + (col & color_mask));
         } else if (col & color_mask) {
-            append(89 + (col & color_mask));
+            append(39 + (col & color_mask));
         }
     }
 };
-- 
2.43.0


From 6e72963f2881cb5f4e75985d915a97f7f4c09b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:29 +0000
Subject: [PATCH 172/174] fix: a progress handler set within a task lost the
 indentation of the tasks after it

---
 msat/Progress.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/Progress.cpp b/msat/Progress.cpp
index 132d95d..88cd299 100644
--- a/msat/Progress.cpp
+++ b/msat/Progress.cpp
@@ -82,7 +82,8 @@ void StreamProgressHandler::pushTask(const std::string& desc)
 
 void StreamProgressHandler::popTask()
 {
-	--indent;
+	if (indent > 0)
+		--indent;
 }
 
 }
-- 
2.43.0


From a663750d772da2d2ba4f5745283d41294ca19566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:29 +0000
Subject: [PATCH 173/174] fix: setting no progress handler, or the same again,
 left a handler that cannot be used

---
 msat/Progress.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/Progress.cpp b/msat/Progress.cpp
index 88cd299..b62c018 100644
--- a/msat/Progress.cpp
+++ b/msat/Progress.cpp
@@ -20,8 +20,9 @@ Progress::~Progress()
 
 void Progress::setHandler(ProgressHandler* h)
 {
+	if (h == handler) return;
 	delete handler;
-	handler = h;
+	handler = h ? h : new ProgressHandler;
 }
 
 void Progress::activity(const std::string& str, int perc, int tot)
-- 
2.43.0


From 00eb19e0532a261d13b3b8b01a16c856a5096525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:49 +0000
Subject: [PATCH 174/174] fix: msat did not see that what it shows could not be
 written

---
 tools/msat.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 1b0fa9c..55abf80 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -809,7 +809,13 @@ int main( int argc, char* argv[] )
 
     try
     {
-        return app.main();
+        int res = app.main();
+        if (res == 0 && !cout.flush())
+        {
+            cerr << "cannot write the output" << endl;
+            return 1;
+        }
+        return res;
     }
     catch (std::exception& e)
     {
-- 
2.43.0


From 37850c10e4575ce8714d7c1e1f260abeca40d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:38 +0000
Subject: [PATCH 01/12] fix: GB18030:2005 encoder writes four bytes into two
 bytes of room

---
 lib/converters/gb18030_2005.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/gb18030_2005.h b/lib/converters/gb18030_2005.h
index 649b3ea..5901ac3 100644
--- a/lib/converters/gb18030_2005.h
+++ b/lib/converters/gb18030_2005.h
@@ -397,6 +397,8 @@ static int gb18030_2005_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t
                             r[1] = c & 0xff;
                             return 2;
                         }
+                        else if (n < 4)
+                            return RET_TOOSMALL;
                         else
                         {
                             r[0] = (c >> 24);
-- 
2.43.0


From 559c81e0b81770fd0aeb7aeeaf11933c61fe5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:38 +0000
Subject: [PATCH 02/12] fix: C99 and Java decoders take the letters G-Z for
 hexadecimal digits

---
 lib/converters/c99.h  | 8 ++++----
 lib/converters/java.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/converters/c99.h b/lib/converters/c99.h
index 673d143..4bda537 100644
--- a/lib/converters/c99.h
+++ b/lib/converters/c99.h
@@ -61,9 +61,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
@@ -85,9 +85,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
diff --git a/lib/converters/java.h b/lib/converters/java.h
index b93172b..9f8d78e 100644
--- a/lib/converters/java.h
+++ b/lib/converters/java.h
@@ -57,9 +57,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
@@ -88,9 +88,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
-- 
2.43.0


From 7e911f74a5174774b0650a8e4be62480e843b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:38 +0000
Subject: [PATCH 03/12] fix: HZ encoder does not escape the tilde

---
 lib/converters/hz.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index 583fdf7..5227c67 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -134,7 +134,8 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
             abort();
         if (buf[0] < 0x80)
         {
-            int count = (state ? 3 : 1);
+            /* RFC 1843: a '~' is written as '~~'. */
+            int count = (state ? 3 : 1) + (buf[0] == '~');
             if (n < count)
                 return RET_TOOSMALL;
             if (state)
@@ -145,6 +146,8 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
                 state = 0;
             }
             r[0] = buf[0];
+            if (buf[0] == '~')
+                r[1] = '~';
             conv->ostate = state;
             return count;
         }
-- 
2.43.0


From bf1bc69e261a742d774c4112bff2925a67515024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:38 +0000
Subject: [PATCH 04/12] fix: codepage lookup reads outside its table for
 unknown codepages

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index d2cd52e..e75db32 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -83,6 +83,10 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 
 _CPPP_API int reiconv_lookup_from_codepage(int codepage)
 {
+    if (codepage < 0 || (size_t)codepage >= sizeof(codepage_to_eindex) / sizeof(codepage_to_eindex[0]))
+    {
+        return -1;
+    }
     return codepage_to_eindex[codepage] - 1;
 }
 
-- 
2.43.0


From cfd53f58deb0f06526887dd45e526f5fa5fbc5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:38 +0000
Subject: [PATCH 05/12] fix: long encoding names overrun the stack buffers of
 the lookup and open functions

---
 lib/iconv.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index e75db32..40f860c 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -46,6 +46,9 @@
 
 #define TEMP_BUFFER_SIZE 4096
 
+/* Room for "//IGNORE" and the like after an encoding name. */
+#define MAX_SUFFIX_LENGTH 64
+
 _CPPP_API struct VersionInfo reiconv_version = {VERSION_MAJOR, VERSION_MINOR, VERSION_PATCH};
 
 _CPPP_API size_t reiconv_name_canonicalize(const char *name, char *outbuf)
@@ -72,9 +75,27 @@ _CPPP_API size_t reiconv_name_canonicalize(const char *name, char *outbuf)
     return bp - outbuf;
 }
 
+/* Whether the canonicalized `name` has at most `max_length` characters. */
+static int canonicalized_fits(const char *name, size_t max_length)
+{
+    size_t length = 0;
+    for (; *name; name++)
+    {
+        if (*name != '-' && *name != '_' && ++length > max_length)
+        {
+            return 0;
+        }
+    }
+    return 1;
+}
+
 _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 {
     char buf[MAX_WORD_LENGTH + 2];
+    if (!canonicalized_fits(encoding, MAX_WORD_LENGTH))
+    {
+        return -1;
+    }
     size_t buf_len = reiconv_name_canonicalize(encoding, buf);
 
     const struct alias *ap = aliases_lookup(buf, buf_len);
@@ -148,8 +169,15 @@ _CPPP_API reiconv_t reiconv_open_from_name(const char *fromcode, const char *toc
 
 _CPPP_API reiconv_t reiconv_open(const char *tocode, const char *fromcode)
 {
-    char fromcode_buf[MAX_WORD_LENGTH + 2];
-    char tocode_buf[MAX_WORD_LENGTH + 2];
+    char fromcode_buf[MAX_WORD_LENGTH + MAX_SUFFIX_LENGTH + 2];
+    char tocode_buf[MAX_WORD_LENGTH + MAX_SUFFIX_LENGTH + 2];
+
+    if (!canonicalized_fits(fromcode, MAX_WORD_LENGTH + MAX_SUFFIX_LENGTH) ||
+        !canonicalized_fits(tocode, MAX_WORD_LENGTH + MAX_SUFFIX_LENGTH))
+    {
+        errno = EINVAL;
+        return (reiconv_t)(-1);
+    }
 
     size_t fromcode_len = reiconv_name_canonicalize(fromcode, fromcode_buf);
     size_t tocode_len = reiconv_name_canonicalize(tocode, tocode_buf);
-- 
2.43.0


From 59a222e7a0152a1a6b2b1a640484fa2f230f0ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:38 +0000
Subject: [PATCH 06/12] fix: name lookup reads outside the hash table for
 non-ASCII names

---
 lib/iconv.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index 40f860c..bcd2ca1 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -98,6 +98,15 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
     }
     size_t buf_len = reiconv_name_canonicalize(encoding, buf);
 
+    // The tables of aliases_lookup only cover ASCII, and so do the names.
+    for (size_t i = 0; i < buf_len; i++)
+    {
+        if ((unsigned char)buf[i] >= 0x80)
+        {
+            return -1;
+        }
+    }
+
     const struct alias *ap = aliases_lookup(buf, buf_len);
     return ap ? ap->encoding_index : -1;
 }
-- 
2.43.0


From 88fc5fd432aa3b420322e8ffff0b3461c31d202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:26 +0000
Subject: [PATCH 07/12] fix: flushing a pending character into a full output
 buffer writes past it

---
 lib/loop_unicode.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 3753ec1..2cd83e4 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -34,6 +34,27 @@
 #include <stdlib.h>
 #include <string.h>
 
+/* More bytes than any xxx_wctomb function writes for one character. */
+#define UNICODE_LOOP_SCRATCH_SIZE 64
+
+/* Encode one character. The xxx_wctomb functions need room for at least one byte; without any room, only a character
+   for which nothing has to be written can be encoded. */
+static int unicode_loop_wctomb(conv_t cd, unsigned char *outptr, ucs4_t wc, size_t outleft)
+{
+    unsigned char scratch[UNICODE_LOOP_SCRATCH_SIZE];
+    state_t last_ostate = cd->ostate;
+    int outcount;
+    if (outleft > 0)
+        return cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+    outcount = cd->ofuncs.xxx_wctomb(cd, scratch, wc, sizeof(scratch));
+    if (outcount > 0)
+    {
+        cd->ostate = last_ostate;
+        return RET_TOOSMALL;
+    }
+    return outcount;
+}
+
 static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *inbytesleft, char **outbuf,
                                    size_t *outbytesleft)
 {
@@ -178,7 +199,7 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
             {
                 unsigned char *outptr = (unsigned char *)*outbuf;
                 size_t outleft = *outbytesleft;
-                int outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+                int outcount = unicode_loop_wctomb(cd, outptr, wc, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 /* Handle Unicode tag characters (range U+E0000..U+E007F). */
@@ -190,7 +211,7 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
                     outcount = 0;
                     goto outcount_ok;
                 }
-                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);
+                outcount = unicode_loop_wctomb(cd, outptr, 0xFFFD, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 cd->istate = last_istate;
-- 
2.43.0


From db7e4fe70ac55e76ffbfb2674ff76c884acdc33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:26 +0000
Subject: [PATCH 08/12] fix: a full output buffer is reported as too small for
 characters that produce no output

---
 lib/loop_unicode.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 2cd83e4..51c0b7a 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -126,14 +126,7 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
         else
         {
             /* Case 4: k bytes read, making up a wide character */
-            if (outleft == 0)
-            {
-                cd->istate = last_istate;
-                errno = E2BIG;
-                result = -1;
-                break;
-            }
-            outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+            outcount = unicode_loop_wctomb(cd, outptr, wc, outleft);
             if (outcount != RET_ILUNI)
                 goto outcount_ok;
             /* Handle Unicode tag characters (range U+E0000..U+E007F). */
@@ -145,7 +138,7 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
                 outcount = 0;
                 goto outcount_ok;
             }
-            outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);
+            outcount = unicode_loop_wctomb(cd, outptr, 0xFFFD, outleft);
             if (outcount != RET_ILUNI)
                 goto outcount_ok;
             cd->istate = last_istate;
-- 
2.43.0


From c0557f78a074745be3106151ff0699ebbc333789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:26 +0000
Subject: [PATCH 09/12] fix: measuring the result leaves its shift state and
 byte order in the descriptor

---
 lib/iconv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index bcd2ca1..c1bcf05 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -245,6 +245,8 @@ _CPPP_API int reiconv_handle_close(reiconv_t icd)
 
 _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inlength)
 {
+    // Measuring must not have an effect on how the same input is converted afterwards.
+    state_t last_ibyteorder = ((conv_t)cd)->ibyteorder;
     size_t count = 0;
     char tmpbuf[TEMP_BUFFER_SIZE];
     char *inptr = (char *)start;
@@ -260,6 +262,9 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
             {
                 errno = EILSEQ;
             }
+            // Return to the initial state.
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            ((conv_t)cd)->ibyteorder = last_ibyteorder;
             return (size_t)(-1);
         }
         count += outptr - tmpbuf;
@@ -271,9 +276,11 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     {
         // Return to the initial state.
         reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+        ((conv_t)cd)->ibyteorder = last_ibyteorder;
         return (size_t)(-1);
     }
     reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+    ((conv_t)cd)->ibyteorder = last_ibyteorder;
     return count + outptr - tmpbuf;
 }
 
-- 
2.43.0


From 08d56b41632f56689dcaa91c559f8c0c59c8c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:26 +0000
Subject: [PATCH 10/12] fix: a failed conversion leaves its shift state in the
 descriptor

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index c1bcf05..cce213c 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -302,12 +302,16 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
             }
             else
             {
+                // Return to the initial state.
+                reiconv_iconv(cd, NULL, NULL, NULL, NULL);
                 return -1;
             }
         }
     }
     if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
     {
+        // Return to the initial state.
+        reiconv_iconv(cd, NULL, NULL, NULL, NULL);
         return -1;
     }
     return 0;
-- 
2.43.0


From 52064489a48c9a63dd98d0e1343390a5898f9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:59 +0000
Subject: [PATCH 11/12] fix: the result buffer's allocation is used without
 checking that it succeeded

---
 lib/iconv.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index cce213c..a192e9b 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -337,8 +337,16 @@ _CPPP_API int reiconv_convert(reiconv_t cd, const char *input_data, size_t input
         return -1;
     }
 
-    *output_data_ptr =
-        (*output_data_ptr == NULL ? (char *)malloc(output_length) : (char *)realloc(*output_data_ptr, output_length));
+    // An empty result gets a buffer as well: what realloc does with a size of 0 varies.
+    size_t buffer_size = output_length > 0 ? output_length : 1;
+    char *buffer =
+        (*output_data_ptr == NULL ? (char *)malloc(buffer_size) : (char *)realloc(*output_data_ptr, buffer_size));
+    if (buffer == NULL)
+    {
+        errno = ENOMEM;
+        return -1;
+    }
+    *output_data_ptr = buffer;
 
     if (reiconv_convert_static_size(cd, input_data, input_length, *output_data_ptr, output_length) == -1)
     {
-- 
2.43.0


From 2e98177b6bf6d4aaccb9460ce33fd2ed73e66b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:59 +0000
Subject: [PATCH 12/12] fix: the C++ convert function leaks its descriptor and
 mistakes failure for a length

---
 lib/reiconv.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/reiconv.cpp b/lib/reiconv.cpp
index f1bc597..6111130 100644
--- a/lib/reiconv.cpp
+++ b/lib/reiconv.cpp
@@ -26,6 +26,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <limits.h>
+#include <memory>
 #include <stdexcept>
 #include <system_error>
 
@@ -59,16 +60,21 @@ _CPPP_API std::string reiconv::convert(reiconv::Encoding from, reiconv::Encoding
     {
         throw std::system_error(errno, std::system_category(), "reiconv_open_from_index");
     }
+    // Closes the descriptor on every way out.
+    const std::unique_ptr<void, int (*)(::reiconv_t)> closer(cd, ::reiconv_handle_close);
+
     std::size_t outlen = ::reiconv_result_size(cd, input.data(), input.size());
+    if (outlen == (std::size_t)(-1))
+    {
+        throw std::system_error(errno, std::system_category(), "reiconv_result_size");
+    }
 
     std::string res(outlen, '\0');
     char *result = const_cast<char *>(res.data());
     if (::reiconv_convert_static_size(cd, input.data(), input.size(), result, outlen) != 0)
     {
-        ::reiconv_handle_close(cd);
         throw std::system_error(errno, std::system_category(), "reiconv_convert");
     }
 
-    ::reiconv_handle_close(cd);
     return std::move(res);
 }
-- 
2.43.0


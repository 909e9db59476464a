From 272e931c950d81711d20d934861294170865c883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 01/52] fix: cache: enforce the size limit when an existing
 entry is overwritten

---
 coda/cache.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index e2dac3b..30f87e2 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -66,6 +66,8 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 				res.first->second.time = time(NULL);
 			}
 
+			drop_last_unused();
+
 			return;
 		}
 
@@ -96,6 +98,8 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 			res.first->second.time = time(NULL);
 		}
 
+		drop_last_unused();
+
 		return;
 	}
 
-- 
2.43.0


From 845a3eb5a7141534c8fd21c72bdf8f7a6fcce6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 02/52] fix: cache: account the size of the stored copy, not of
 the caller's value

---
 coda/cache.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index 30f87e2..eb594d1 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -58,7 +58,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		{
 			size_cur -= res.first->second.size;
 			res.first->second.elem = val;
-			res.first->second.size = estimate_capacity(val);
+			res.first->second.size = estimate_capacity(res.first->second.elem);
 			size_cur += res.first->second.size;
 
 			if (do_update_time)
@@ -90,7 +90,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 
 		size_cur -= res.first->second.size;
 		res.first->second.elem = val;
-		res.first->second.size = estimate_capacity(val);
+		res.first->second.size = estimate_capacity(res.first->second.elem);
 		size_cur += res.first->second.size;
 
 		if (do_update_time)
@@ -118,7 +118,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 	}
 
 	res.first->second.elem = val;
-	res.first->second.size = estimate_capacity(val);
+	res.first->second.size = estimate_capacity(res.first->second.elem);
 	size_cur += res.first->second.size;
 
 	drop_last_unused();
-- 
2.43.0


From 4ba5788bfb54cce9eab998ab224c1699a4b184d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 03/52] fix: stringstorage: count the prefix length byte when
 checking that a string fits

---
 coda/stringstorage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index c832f39..afec65e 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -142,7 +142,7 @@ void *string_storage_add(string_storage *ss, const char *s)
 {
 	size_t len = strlen(s) + 1;
 
-	if (len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
+	if (1 + len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
 
 	return internal_find_add(&ss->sb, &ss->root, 0, s, 1);
 }
-- 
2.43.0


From 18271dff1f85550c8746e1646cd9e137dbaf59c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 04/52] fix: stringstorage: compare only with neighbours that
 share the same prefix

---
 coda/stringstorage.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index afec65e..46e44d1 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -97,7 +97,10 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	}
 
 	/* 2. check how many bytes common with previous string */
-	if (begin != 0) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
+	if (begin != 0 && *(uint8_t*)(r->children[begin - 1].value) == prev_bytes)
+	{
+		common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
+	}
 
 	if (common_bytes > 8)
 	{
-- 
2.43.0


From ab0f79bcb5f00aa8474d5b76c64db344aede598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 05/52] fix: stringstorage: do not overflow the stored prefix
 length

---
 coda/stringstorage.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 46e44d1..713ff2a 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -73,7 +73,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 {
 	size_t begin = 0;
 	size_t end = r->child_count;
-	uint8_t common_bytes = 0;
+	size_t common_bytes = 0;
 	size_t len;
 	char *newvalue;
 
@@ -100,6 +100,9 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	if (begin != 0 && *(uint8_t*)(r->children[begin - 1].value) == prev_bytes)
 	{
 		common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
+
+		/* the prefix length is stored in one byte */
+		if (common_bytes > (size_t) (UINT8_MAX - prev_bytes)) common_bytes = UINT8_MAX - prev_bytes;
 	}
 
 	if (common_bytes > 8)
-- 
2.43.0


From f4f048792e1bb91e8fa04e51a1ec4c8c2507ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 06/52] fix: stringstorage: enumerate strings of any length
 untruncated

---
 coda/stringstorage.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 713ff2a..2189682 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -160,14 +160,13 @@ void *string_storage_find(string_storage *ss, const char *s)
 
 void string_storage_enumerate_recursive(const struct string_struct *ss, string_storage_enumerate_callback cb, void *user_data, const char *parent, size_t user_data_size)
 {
-	char buf[256];
+	char buf[UINT8_MAX + STORAGE_BLOCK_SIZE];
 	size_t i;
 	for (i = 0; i < ss->child_count; i++)
 	{
 		uint8_t prev = *(uint8_t*)ss->children[i].value;
-		memcpy(buf, parent, prev);
-		strncpy(buf + prev, ss->children[i].value + 1 + user_data_size, 255 - prev);
-		buf[255] = 0;
+		if (prev != 0) memcpy(buf, parent, prev);
+		strcpy(buf + prev, ss->children[i].value + 1 + user_data_size);
 		cb(user_data, buf, ss->children[i].value + 1);
 		string_storage_enumerate_recursive(&ss->children[i], cb, user_data, buf, user_data_size);
 	}
-- 
2.43.0


From 211ec49a06cac2c00af11f1077556219691f8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 07/52] fix: base58: report an invalid first character as an
 error

---
 coda/base58.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/base58.c b/coda/base58.c
index 56d863d..7fa205b 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -237,7 +237,7 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
     char *b256_curr = NULL;
     b256_begin = b256_curr = (char*)calloc (b256len, sizeof(char));
     if (!b256_begin)
-        return -_inlen + inlen;
+        return -_inlen + inlen - 1;
 
     while (inlen)
     {
@@ -253,14 +253,14 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
             carry /= 256;
         }
         if (carry)
-            return -_inlen + inlen;
+            return -_inlen + inlen - 1;
         inlen--;
     }
 
     if (inlen != 0)
     {
         free(b256_begin);
-        return -_inlen + inlen;
+        return -_inlen + inlen - 1;
     }
 
     while (b256len && !*b256_curr)
-- 
2.43.0


From d83cc4436a7e6cc2da4f3cec8066b7faf2ad2ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 08/52] fix: base58: return the true length of the allocated
 encoding

---
 coda/base58.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/base58.c b/coda/base58.c
index 7fa205b..5948771 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <limits.h>
 #include <stdio.h>
+#include <string.h>
 
 static inline unsigned char to_uchar (char ch)
 {
@@ -75,7 +76,7 @@ size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
         return outlen;
 
     coda_base58_encode (in, inlen, *out, outlen);
-    return outlen - 1;
+    return strlen (*out);
 }
 
 #define B58(_)                 \
-- 
2.43.0


From 66207879713ecfc0825678637f2276c0685e6a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 09/52] fix: url: escape bytes above 0x7f and the last bytes of
 the buffer correctly in coda_url_escape

---
 coda/url.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 1b5078b..f4ebb03 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -266,13 +266,16 @@ void coda_url_escape(const char *s, char *dest, size_t sz)
 {
 	memset(dest, 0, sz);
 	size_t ptr = 0;
+	if (sz <= 3) return;
 	sz -= 3;
 	while (*s && (ptr < sz))
 	{
 		//if (*s & 0x80 != 0)
-		if (table_urlenc[*s >> 5] & (1 << (*s & 0x1f)))
+		unsigned char c = *s;
+
+		if (table_urlenc[c >> 5] & (1 << (c & 0x1f)))
 		{
-			ptr += snprintf(dest + ptr, sz - ptr, "%%%02X", *s);
+			ptr += snprintf(dest + ptr, sizeof("%XX"), "%%%02X", c);
 		}
 		else if (*s == ' ')
 		{
-- 
2.43.0


From 727a2f36cdbaefba7b90f57862781390bd8df2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:38 +0000
Subject: [PATCH 10/52] fix: url: %u escapes have at most four digits, and
 U+007F is a character

---
 coda/url.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index f4ebb03..0016e31 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -314,16 +314,18 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 		}
 		else if ((*s == '%') && (s[1] == 'u') && isxdigit(s[2]))
 		{
-			char *ns;
-			uint32_t c = strtol(s + 2, &ns, 16);
-			s = ns;
+			char xnum[5];
+			size_t n = 0;
+			for (s += 2; n < 4 && isxdigit(*s); s++) xnum[n++] = *s;
+			xnum[n] = 0;
+			uint32_t c = strtol(xnum, 0, 16);
 			/* doing only russian letters */
 			if ((c < 0x0800) && (c > 0x7F))
 			{
 				dest[ptr++] = ((c >> 6) | 0xc0);
 				dest[ptr++] = ((c & 0x3f) | 0x80);
 			}
-			else if (c < 0x7F)
+			else if (c <= 0x7F)
 			{
 				dest[ptr++] = c;
 			}
-- 
2.43.0


From d035d5c09e5a616d4c757ad6f14d1299cc73fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:38 +0000
Subject: [PATCH 11/52] fix: url: coda_url_preunescape overran its buffer and
 lost \x escapes it must keep

---
 coda/url.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 0016e31..931c363 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -354,7 +354,7 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 void coda_url_preunescape(const char* s, char* dest, size_t sz)
 {
 	size_t ptr = 0;
-	while (*s && (ptr < sz + 5))
+	while (*s && (ptr + 5 < sz))
 	{
 		if ((*s == '%') && isxdigit(s[1]) && isxdigit(s[2]))
 		{
@@ -390,6 +390,7 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			else
 			{
 				if (ptr + 3 < sz) memcpy(dest + ptr, s, 4);
+				ptr += 4;
 			}
 			s += 4;
 		}
-- 
2.43.0


From 56cd5e3885453e92b0836175799bf70469715f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 12/52] fix: string: coda_revnspn and coda_revxspn counted one
 character too many

---
 coda/string.c       | 12 ++++++++----
 coda/url_parser.cpp |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index c8d8502..99bca83 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -208,14 +208,16 @@ size_t coda_revnspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (*p == *x) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
@@ -225,14 +227,16 @@ size_t coda_revxspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (tolower(*p) == tolower(*x)) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 7a0ab27..2113e1c 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -202,9 +202,9 @@ int coda_url::assign_anchor(char *beg, uint32_t flags)
 
 	if (end != (p = end - coda_revnspn(beg, ".", end - beg)))
 	{
-		memmove(p + 1, end, val_str + val_len - end);
-		val_len -= end - (p + 1);
-			end -= end - (p + 1);
+		memmove(p, end, val_str + val_len - end);
+		val_len -= end - p;
+			end -= end - p;
 	}
 
 	p = end;
-- 
2.43.0


From c033e9cf77b2c0ec796ce36141dcfaedb4c78bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 13/52] fix: string: do not read an empty text in coda_strnstr
 and coda_strxstr

---
 coda/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index 99bca83..6187ce6 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -91,7 +91,7 @@ char *coda_strnstr(const char *s, const char *n, size_t len)
 	const char *w;
 	const char *x;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len || !*s) return NULL;
 	if (!n || !*n) return (char *) s;
 
 	if (len < (nsz = strlen(n))) return NULL;
@@ -123,7 +123,7 @@ char *coda_strxstr(const char *s, const char *n, size_t len)
 	const char *en;
 	size_t nsz;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len || !*s) return NULL;
 	if (!n || !*n) return (char *) s;
 	if (len < (nsz = strlen(n))) return NULL;
 
-- 
2.43.0


From d41d4c4b12cef90d0166905c188abf35e08c1b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 14/52] fix: url_parser: do not look for a scheme beyond the
 end of the given url

---
 coda/url_parser.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 2113e1c..63d8fad 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -6,6 +6,12 @@
 #include "string.h"
 #include "url_parser.hpp"
 
+static bool has_prefix(const char *u, size_t sz, const char *prefix)
+{
+	size_t len = strlen(prefix);
+	return len <= sz && NULL != coda_strxstr(u, prefix, len);
+}
+
 coda_url::coda_url()
 {
 	val_str = dom_str = NULL;
@@ -109,7 +115,7 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 	val_str = (char *) malloc(2 + 2 * sz + parent.val_len + parent.dom_len); // if relative, parent may be bigger than u
 
-	if (coda_strxstr(u, "http://", 7) || coda_strxstr(u, "https://", 8))
+	if (has_prefix(u, sz, "http://") || has_prefix(u, sz, "https://"))
 	{
 		create_scheme(u, sz, flags);
 
@@ -133,13 +139,13 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 int coda_url::create_scheme(const char *u, size_t sz, uint32_t flags)
 {
-	if (coda_strxstr(u, "https://", 8))
+	if (has_prefix(u, sz, "https://"))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 8, flags);
 	}
 
-	if (coda_strxstr(u, "http://", 7))
+	if (has_prefix(u, sz, "http://"))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 7, flags);
@@ -341,8 +347,8 @@ int coda_url::assign_refers(char *beg, uint32_t flags)
 
 int coda_url::create_suburl(const char *u, size_t sz, uint32_t flags, const coda_url &parent)
 {
-	if (NULL != coda_strxstr(u, "mailto:", 7)) return -1;
-	if (NULL != coda_strxstr(u, "javascript:", 11)) return -1;
+	if (has_prefix(u, sz, "mailto:")) return -1;
+	if (has_prefix(u, sz, "javascript:")) return -1;
 	if ( '#' == *u) return -1;
 
 	size_t sz_dom = (parent.val_str[4] != 's' ? 7 : 8);
-- 
2.43.0


From eef864a4a512ca6530731ad27ed85b3059173690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 15/52] fix: url_parser: self-assignment used freed memory

---
 coda/url_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 63d8fad..5325623 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -42,6 +42,11 @@ coda_url::coda_url(const coda_url &u)
 
 coda_url &coda_url::operator= (const coda_url &u)
 {
+	if (this == &u)
+	{
+		return *this;
+	}
+
 	if (allocated())
 	{
 		free(val_str);
-- 
2.43.0


From e449709e27017237a0a8e17078caa9bc6bb09d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 16/52] fix: url_parser: find the host of a parent with an
 upper-case HTTPS scheme

---
 coda/url_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 5325623..6fc43ea 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -356,7 +356,7 @@ int coda_url::create_suburl(const char *u, size_t sz, uint32_t flags, const coda
 	if (has_prefix(u, sz, "javascript:")) return -1;
 	if ( '#' == *u) return -1;
 
-	size_t sz_dom = (parent.val_str[4] != 's' ? 7 : 8);
+	size_t sz_dom = (tolower(parent.val_str[4]) != 's' ? 7 : 8);
 	size_t sz_pub = sz_dom = coda_strnchr(parent.val_str + sz_dom,
 		'/', parent.val_len - sz_dom) - parent.val_str;
 
-- 
2.43.0


From f64d66adfd9059e934acfd7b6ac9b572947b4b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:34 +0000
Subject: [PATCH 17/52] fix: string: do not insert an uninitialised number for
 an item that holds none

---
 coda/string.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 890671c..54f9ee8 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -156,9 +156,8 @@ void coda_get_uint64set(const char* str, std::set<uint64_t>& result)
 	const char* i = str;
 	while (i)
 	{
-		uint64_t temp;
-		sscanf(i, "%" PRIu64, &temp);
-		result.insert(temp);
+		uint64_t temp = 0;
+		if (1 == sscanf(i, "%" PRIu64, &temp)) result.insert(temp);
 		i = strchr(i, ',');
 		if (i)
 		{
-- 
2.43.0


From 403eaef49091a35e321ebe258ee621d0ffc4be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 18/52] fix: string: find bytes above 0x7f ignoring case in
 coda_strxchr, coda_revxchr and coda_strxchp

---
 coda/string.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index 6187ce6..02acc6f 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -15,7 +15,7 @@ char *coda_strxchr(const char *s, char c, size_t len)
 	const char *e = s + len;
 	for (c = tolower(c); s < e; ++s)
 	{
-		if (c == tolower(*s)) return (char *) s;
+		if (c == (char) tolower(*s)) return (char *) s;
 	}
 	return NULL;
 }
@@ -35,7 +35,7 @@ char *coda_revxchr(const char *s, char c, size_t len)
 	const char *b = s - 1;
 	for (s = b + len, c = tolower(c); s > b; --s)
 	{
-		if (c == tolower(*s)) return (char *) s;
+		if (c == (char) tolower(*s)) return (char *) s;
 	}
 	return NULL;
 }
@@ -55,7 +55,7 @@ size_t coda_strxchp(const char *s, char c, size_t len)
 	size_t p = 0;
 	for (c = tolower(c); p < len; ++p)
 	{
-		if (c == tolower(s[p])) return p;
+		if (c == (char) tolower(s[p])) return p;
 	}
 	return len;
 }
-- 
2.43.0


From fe76ac27aa8847893fb1b0044f446517c9e4f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 19/52] fix: system: do not leak the opened descriptor when it
 cannot be moved in coda_fdopen

---
 coda/system.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index a60cf60..e98c95a 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -29,7 +29,19 @@ int coda_fdopen(int fd, const char* path, int flags)
 	td = open(path, flags, 0644);
 	if (0 > td) return -1;
 
-	return coda_fdmove(td, fd);
+	if (0 > fd || td == fd) return td;
+
+	if (0 > dup2(td, fd))
+	{
+		int err = errno;
+		close(td);
+		errno = err;
+		return -1;
+	}
+
+	if (0 > close(td)) return -1;
+
+	return fd;
 }
 
 int coda_mkpath(char* path)
-- 
2.43.0


From edc9a5050b206a28c522d281819093eee774c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 20/52] fix: system: do not read beyond an empty path in
 coda_mkpath

---
 coda/system.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/system.c b/coda/system.c
index e98c95a..11d0662 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -49,6 +49,8 @@ int coda_mkpath(char* path)
 	int rc;
 	char* p = path + 1;
 
+	if (!*path) return 0;
+
 	for (; *p; ++p)
 	{
 		if (*p != '/') continue;
-- 
2.43.0


From c938c743e767fefce7c392a5e0030edf6f5632c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 21/52] fix: system: a partially written pid file is a failure

---
 coda/system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index 11d0662..01a334f 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -108,8 +108,9 @@ int coda_mkpidf(const char* path)
 		return -1;
 	}
 
-	if (0 > write(fd, buf, nb))
+	if (nb != write(fd, buf, nb))
 	{
+		if (0 > ftruncate(fd, 0)) log_emerg("can't truncate pid-file %s", path);
 		flock(fd, LOCK_UN);
 		close(fd);
 		return -1;
-- 
2.43.0


From 292a89d7da79e7ea21f08e2b0c97deb0727c4a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 22/52] fix: logger: do not write to the path given to
 log_create

---
 coda/logger.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/coda/logger.c b/coda/logger.c
index a51975a..66bd3f2 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -2,6 +2,8 @@
 #include <errno.h>
 #include <fcntl.h>
 #include <stdarg.h>
+#include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 #include <pthread.h>
 #include "logger.h"
@@ -38,7 +40,13 @@ int log_levels(const char* level)
 
 int log_create(const char* path, int level)
 {
-	if (0 > coda_mkpath((char *) path)) return -1;
+	char* copy = strdup(path); /* coda_mkpath writes to its argument */
+	if (NULL == copy) return -1;
+
+	int rc = coda_mkpath(copy);
+	free(copy);
+
+	if (0 > rc) return -1;
 	if (0 > coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY)) return -1;
 
 	log_level = level;
-- 
2.43.0


From 82ebe77853d3de56e2ac7cbbdd77b46bf5c93cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 23/52] fix: random: close the device when it cannot be read

---
 coda/random.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coda/random.c b/coda/random.c
index d74da55..30f8b45 100644
--- a/coda/random.c
+++ b/coda/random.c
@@ -20,7 +20,11 @@ int coda_random_init()
 	uint32_t rnd_from_device;
 
 	int rc = read(fd, &rnd_from_device, sizeof(rnd_from_device));
-	if (0 > rc) return -1;
+	if (0 > rc)
+	{
+		close(fd);
+		return -1;
+	}
 
 	close(fd);
 
-- 
2.43.0


From 689bed20eba91616f768818b587fd229abd4c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 24/52] fix: socket: receive timeouts of a second and more

---
 coda/socket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/socket.h b/coda/socket.h
index eecfcaa..d7adba0 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -32,8 +32,8 @@ int coda_set_socket_timeout(int s, long timeout)
 {
 	struct timeval tv;
 
-	tv.tv_sec = 0;
-	tv.tv_usec = timeout;
+	tv.tv_sec = timeout / 1000000;
+	tv.tv_usec = timeout % 1000000;
 
 	return setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, (struct timeval *) &tv, sizeof(tv));
 }
-- 
2.43.0


From 5749c8cfca362828c824be40efcc46dc9574f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 25/52] fix: socket: reject empty and overflowing octets in
 coda_inet_addr

---
 coda/socket.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/coda/socket.h b/coda/socket.h
index d7adba0..7fbdede 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -68,11 +68,12 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 {
 	const char *p;
 	in_addr_t addr;
-	uintptr_t octet, n;
+	uintptr_t octet, n, digits;
 
 	addr = 0;
 	octet = 0;
 	n = 0;
+	digits = 0;
 
 	for (p = data; p < data + size; ++p)
 	{
@@ -81,13 +82,16 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 		if (c >= '0' && c <= '9')
 		{
 			octet = octet * 10 + (c - '0');
+			if (octet > 255) return INADDR_NONE;
+			digits++;
 			continue;
 		}
 
-		if (c == '.' && octet < 256)
+		if (c == '.' && digits > 0)
 		{
 			addr = (addr << 8) + octet;
 			octet = 0;
+			digits = 0;
 			n++;
 			continue;
 		}
@@ -100,7 +104,7 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 		return INADDR_NONE;
 	}
 
-	if (octet < 256)
+	if (digits > 0)
 	{
 		addr = (addr << 8) + octet;
 		return htonl(addr);
-- 
2.43.0


From b1b8f5d2c0e1f6e16894d45361259de5241feb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 26/52] fix: shm::hash_map::disconnect() really detaches the
 memory, also after a refused connect

---
 coda/shm_hash_map.tcc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 07d85d0..1986a22 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -442,18 +442,17 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
 void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::disconnect()
 {
-	if (!is_connected())
-	{
-		return;
-	}
+	uint8_t *ptr = shmem_p;
 
 	detach();
 
 	sem_id = -1;
 	shm_id = -1;
 
-	shmdt(shmem_p);
-	shmem_p = 0;
+	if (0 != ptr)
+	{
+		shmdt(ptr);
+	}
 }
 
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
-- 
2.43.0


From b1cbab57e1c146d3be118479984c7bad4b84b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 27/52] fix: shm::hash_map::connect() must not release a lock
 it failed to take, nor tear down an existing connection

---
 coda/shm_hash_map.tcc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 1986a22..8e0f779 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -414,26 +414,32 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_sem(const char *key
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
 void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fname) throw (std::exception)
 {
-	try
-	{
-		connect_sem(key_fname);
-		connect_shm(key_fname);
-	}
-	catch (const std::exception& e)
+	if (is_connected())
 	{
-		disconnect();
-		throw;
+		throw coda_error("shm::hash_map is already connected");
 	}
 
 	try
 	{
+		connect_sem(key_fname);
+		connect_shm(key_fname);
+
 		lock_write_rw();
-		attach(shmem_p);
+
+		try
+		{
+			attach(shmem_p);
+		}
+		catch (const std::exception& e)
+		{
+			unlock_write_rw();
+			throw;
+		}
+
 		unlock_write_rw();
 	}
 	catch (const std::exception& e)
 	{
-		unlock_write_rw();
 		disconnect();
 		throw;
 	}
-- 
2.43.0


From aecd36a9e2e5c2c9b8dda7b17cc8a83970317d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 28/52] fix: creating the semaphores of shm::hash_map must not
 reset a lock that is already taken

---
 coda/shm_hash_map.tcc | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 8e0f779..9359b86 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -398,16 +398,8 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_sem(const char *key
 			throw coda_error("error getting sem: %s", coda_strerror(errno));
 		}
 
-		// now set initial values for _GUARD semaphores
-		if (-1 == semctl(sem_id, mySEM_R, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
-
-		if (-1 == semctl(sem_id, mySEM_W, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
+		// new semaphores are 0 already, which means unlocked; setting them here could
+		// release a lock which another process has taken since the set was created
 	}
 }
 
-- 
2.43.0


From 1410b57c16ad0067b320333b6c07d1922e17511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 29/52] fix: a process killed while it frees nodes of
 shm::hash_map must not leave them in use twice

---
 coda/shm_hash_map.tcc | 5 +++--
 coda/shm_pool.tcc     | 2 +-
 coda/shm_stack.tcc    | 4 +++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 9359b86..3f8c9ba 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -202,13 +202,14 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::clear()
 {
 	lock_write_rw();
 
-	nodes_pool.clear();
-
+	// unlink all the nodes before they are free: a process may be killed in between
 	for (uint32_t i = 0; i < _HASH_SIZE; i++)
 	{
 		hash[i] = (uint32_t) -1;
 	}
 
+	nodes_pool.clear();
+
 	unlock_write_rw();
 }
 
diff --git a/coda/shm_pool.tcc b/coda/shm_pool.tcc
index e624030..ac6e132 100644
--- a/coda/shm_pool.tcc
+++ b/coda/shm_pool.tcc
@@ -96,7 +96,7 @@ size_t shm::pool<_Type, _OBJECTS_NUM>::allocated_objects()
 template <typename _Type, int _OBJECTS_NUM>
 void shm::pool<_Type, _OBJECTS_NUM>::clear()
 {
-	*current = 0;
 	free_nodes.clear();
+	*current = 0;
 }
 
diff --git a/coda/shm_stack.tcc b/coda/shm_stack.tcc
index 67b1b7c..b96bed9 100644
--- a/coda/shm_stack.tcc
+++ b/coda/shm_stack.tcc
@@ -79,7 +79,9 @@ inline bool shm::stack<_Type, _OBJECTS_NUM>::push(const _Type& el)
 	}
 	else
 	{
-		data[++(*current)] = el;
+		// the element first: a process killed in between must not publish a stale one
+		data[*current + 1] = el;
+		++(*current);
 
 		return true;
 	}
-- 
2.43.0


From 6719a8159dd5b94c7f5b12ded715ca4662713512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:20 +0000
Subject: [PATCH 30/52] fix: shm::hash_map::connect() must not take an existing
 segment for a new one and clear it

---
 coda/shm_hash_map.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 3f8c9ba..b64395c 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -349,7 +349,7 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_shm(const char *key
 	if (-1 == (shm_id = shmget(key, required_space(), 0666)))
 	{
 		// not created? creating...
-		if (-1 == (shm_id = shmget(key, required_space(), IPC_CREAT | 0666)))
+		if (-1 == (shm_id = shmget(key, required_space(), IPC_CREAT | IPC_EXCL | 0666)))
 		{
 			unlock_write_rw();
 			throw coda_error("error creating queue shm: %s", coda_strerror(errno));
-- 
2.43.0


From bd30bb97a8dbd5de87ab34615fb4124088e8700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 31/52] fix: processes that connect to a new shm_queue together
 must not initialise its lock twice

---
 coda/shm_queue.tcc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 9e2942f..098885a 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -201,19 +201,19 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 
 	if (-1 == (sem_id = semget(key, 2, 0)))
 	{
-		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
+		// only the one that creates the set may unlock it: a new set is locked, everyone else waits for that in lock_queue()
+		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | IPC_EXCL | 0666)))
 		{
-			throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
+			if (EEXIST != errno || -1 == (sem_id = semget(key, 2, 0)))
+			{
+				throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
+			}
 		}
-
-		if (-1 == semctl(sem_id, SEM_ID_0, SETVAL, (1)))
-		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
-		}
-
-		if (-1 == semctl(sem_id, SEM_ID_QUEUE_COUNT, SETVAL, (0)))
+		else if (-1 == semctl(sem_id, SEM_ID_QUEUE_COUNT, SETVAL, (0)) || -1 == semctl(sem_id, SEM_ID_0, SETVAL, (1)))
 		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
+			int rc = errno;
+			semctl(sem_id, 0, IPC_RMID);
+			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(rc));
 		}
 	}
 }
-- 
2.43.0


From 0ae4212bd57f60f302446d5e549ef816a183dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 32/52] fix: a refused shm_queue connect must not crash, keep
 the queue locked or spoil the object

---
 coda/shm_queue.tcc | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 098885a..1f50f54 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -163,10 +163,14 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	if ((BOX_SIZE != info->box_size) || (MAX_BOXES_IN_QUEUE != info->size))
 	{
+		uint32_t box_size = info->box_size;
+		uint32_t boxes_num = info->size;
+
 		shmdt(info);
 		info = 0;
 
-		throw coda_error("box_size(%d) in queue is not equal to %d", info->box_size, BOX_SIZE);
+		throw coda_error("shm_queue::queue<>: queue has %u boxes of %u bytes, expected %u boxes of %u bytes",
+			boxes_num, box_size, MAX_BOXES_IN_QUEUE, BOX_SIZE);
 	}
 
 	boxes = ptr;
@@ -221,13 +225,40 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 template <typename _T>
 void shm_queue::queue<_T>::connect(const char *key_fname, uint32_t bs, uint32_t mbiq)
 {
+	if (boxes)
+	{
+		throw coda_error("shm_queue::queue<>: queue already connected");
+	}
+
 	BOX_SIZE = bs;
 	MAX_BOXES_IN_QUEUE = mbiq;
 
-	connect_sem(key_fname);
-	lock_queue();
-	connect_shm(key_fname);
-	unlock_queue();
+	try
+	{
+		connect_sem(key_fname);
+		lock_queue();
+
+		try
+		{
+			connect_shm(key_fname);
+		}
+		catch (const std::exception &e)
+		{
+			unlock_queue();
+			throw;
+		}
+
+		unlock_queue();
+	}
+	catch (const std::exception &e)
+	{
+		sem_id = -1;
+		shm_id = -1;
+		BOX_SIZE = 0;
+		MAX_BOXES_IN_QUEUE = 0;
+
+		throw;
+	}
 }
 
 template <typename _T>
-- 
2.43.0


From 79c715876619e34218893a88cebb9cc29025cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 33/52] fix: shm_queue connect must initialise a segment whose
 creator failed, and only that

---
 coda/shm_queue.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 1f50f54..6ea03d3 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -135,7 +135,7 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
 	{
-		if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666))) // not created? creating...
+		if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | IPC_EXCL | 0666))) // not created? creating...
 		{
 			throw coda_error("shm_queue::queue<>: error creating queue shm: %s", coda_strerror(errno));
 		}
@@ -152,7 +152,7 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	info = (shm_queue::queue_info *) ptr;
 
-	if (created)
+	if (created || (0 == info->box_size && 0 == info->size)) // a new segment is zeroed: its creator may have failed to attach it
 	{
 		memset(ptr, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
-- 
2.43.0


From bdd12ed5152c45b9336122815a7daeefa6385925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 34/52] fix: a signal must not let shm_queue go on without its
 lock

---
 coda/shm_queue.tcc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 6ea03d3..d0677c3 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -420,7 +420,14 @@ void shm_queue::queue<_T>::lock_queue()
 	sem.sem_num = SEM_ID_0;
 	sem.sem_op = -1;
 	sem.sem_flg = SEM_UNDO;
-	semop(sem_id, &sem, 1);
+
+	while (-1 == semop(sem_id, &sem, 1))
+	{
+		if (EINTR != errno)
+		{
+			throw coda_error("shm_queue::queue<>: error locking queue: %s", coda_strerror(errno));
+		}
+	}
 }
 
 template <typename _T>
-- 
2.43.0


From 3a0d8c3bdc484e4ddc4df866d2920f89b1ec9d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 35/52] fix: a process killed in flush() or unflush() must not
 leave invalid indices or a cleared box in shm_queue

---
 coda/shm_queue.tcc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index d0677c3..b345079 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -316,10 +316,10 @@ bool shm_queue::queue<_T>::unflush(short sem_flg, long sem_usec)
 
 		uint8_t *ptr = boxes + info->start * info->box_size;
 		current_box.copy_from(ptr);
-		memset(ptr, 0, info->box_size);
 
-		info->start++;
-		info->start %= info->size;
+		// at every instant the indices are valid and no box in the queue is cleared: a process may be killed here
+		info->start = (info->start + 1) % info->size;
+		memset(ptr, 0, info->box_size);
 
 		unlock_queue();
 
@@ -351,8 +351,7 @@ void shm_queue::queue<_T>::flush()
 		{
 			uint8_t *ptr = boxes + info->end * info->box_size;
 			current_box.copy_to(ptr);
-			info->end++;
-			info->end %= info->size;
+			info->end = (info->end + 1) % info->size;
 
 			struct sembuf sem;
 			sem.sem_num = SEM_ID_QUEUE_COUNT;
-- 
2.43.0


From feeba6fa1fcc5765f3fe86f5a26073034b4c0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:06 +0000
Subject: [PATCH 36/52] fix: the signal handler changed errno of the
 interrupted code

---
 coda/daemon.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coda/daemon.c b/coda/daemon.c
index c2f5477..a683420 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -1,4 +1,5 @@
 #define _GNU_SOURCE
+#include <errno.h>
 #include <fcntl.h>
 #include <getopt.h>
 #include <stdlib.h>
@@ -200,11 +201,15 @@ volatile int coda_changebin = 0;
 static
 void coda_signal_handle(int sig)
 {
+    int errno_save = errno; /* the message below may change it */
+
     switch (sig)
     {
     CODA_SIG_LIST(CODA_SIG_CASE)
 	CODA_SIG_CASE_DEFAULT(sig)
     }
+
+    errno = errno_save;
 }
 
 int coda_signal_init()
-- 
2.43.0


From 8068b4a38d62fc03aceeab55514315f9cdb29a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:27 +0000
Subject: [PATCH 37/52] fix: a failed allocation in the string storage loses
 nothing

Adding a string when memory runs out dropped the child array or stored a NULL block, and crashed or leaked later.
---
 coda/stringstorage.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 2189682..f71ca32 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -49,7 +49,7 @@ void *allocate_reallocate_array(void *a, size_t cnt, size_t bsz)
 {
 	if (cnt == 0)
 	{
-		a = (void*)calloc(0x02, bsz);
+		a = (void*)realloc(a, 0x02 * bsz);
 	}
 	else if (cnt == 0x02)
 	{
@@ -75,6 +75,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	size_t end = r->child_count;
 	size_t common_bytes = 0;
 	size_t len;
+	struct string_struct *children;
 	char *newvalue;
 
 	while (begin < end)
@@ -113,26 +114,36 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	if (doadd == 0) return 0;
 
 	/* 3. insert string after begin */
-	r->children = allocate_reallocate_array(r->children, r->child_count, sizeof(struct string_struct));
-	if (r->children == 0) return 0;
-	if (begin != r->child_count)
-	{
-		memmove(&r->children[begin + 1], &r->children[begin],
-		  (r->child_count - begin) * sizeof(struct string_struct));
-	}
+	children = (struct string_struct*)allocate_reallocate_array(r->children, r->child_count, sizeof(struct string_struct));
+	if (children == 0) return 0;
+	r->children = children;
 
 	len = strlen(s) + 1;
 	if ((sb->current == 0) || (sb->used_bytes + 1 + len + sb->user_data_size > STORAGE_BLOCK_SIZE))
 	{
+		char **blocks;
 		char *newcurrent = (char*)calloc(1, STORAGE_BLOCK_SIZE);
-		sb->blocks = allocate_reallocate_array(sb->blocks, sb->block_count, sizeof(char*));
-		if (sb->blocks == 0) return 0;
+		if (newcurrent == 0) return 0;
+
+		blocks = (char**)allocate_reallocate_array(sb->blocks, sb->block_count, sizeof(char*));
+		if (blocks == 0)
+		{
+			free(newcurrent);
+			return 0;
+		}
 
+		sb->blocks = blocks;
 		sb->blocks[sb->block_count++] = newcurrent;
 		sb->current = newcurrent;
 		sb->used_bytes = 0;
 	}
 
+	if (begin != r->child_count)
+	{
+		memmove(&r->children[begin + 1], &r->children[begin],
+		  (r->child_count - begin) * sizeof(struct string_struct));
+	}
+
 	newvalue = sb->current + sb->used_bytes;
 	r->children[begin].value = newvalue;
 	r->children[begin].child_count = 0;
-- 
2.43.0


From e3548d5aa94b5cebd23958ddbc0fb5da826065ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:27 +0000
Subject: [PATCH 38/52] fix: a cache store that fails to copy the value has no
 effect

When copying the value threw, an empty value was visible under a new key, and the total size of the cache was wrong afterwards.
---
 coda/cache.tcc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index eb594d1..b24cae3 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -46,6 +46,16 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 
 	res = data.insert(typename data_t::value_type(key, elem_t()));
 
+	try
+	{
+		res.first->second.elem = val;
+	}
+	catch (...)
+	{
+		if (res.second) data.erase(res.first);
+		throw;
+	}
+
 	if (res.second == false)
 	{
 		/* pop */
@@ -57,7 +67,6 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		else
 		{
 			size_cur -= res.first->second.size;
-			res.first->second.elem = val;
 			res.first->second.size = estimate_capacity(res.first->second.elem);
 			size_cur += res.first->second.size;
 
@@ -89,7 +98,6 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		endp = &*res.first;
 
 		size_cur -= res.first->second.size;
-		res.first->second.elem = val;
 		res.first->second.size = estimate_capacity(res.first->second.elem);
 		size_cur += res.first->second.size;
 
@@ -117,7 +125,6 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		begp = endp;
 	}
 
-	res.first->second.elem = val;
 	res.first->second.size = estimate_capacity(res.first->second.elem);
 	size_cur += res.first->second.size;
 
-- 
2.43.0


From fa512c4203f7c703817b0c3b1e346ddff0875de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 39/52] fix: the queue's lock is released when copying an
 element throws

---
 coda/synque.hpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/coda/synque.hpp b/coda/synque.hpp
index e246177..df33a5f 100644
--- a/coda/synque.hpp
+++ b/coda/synque.hpp
@@ -14,6 +14,18 @@ class synque
 	pthread_mutex_t m;
 	std::deque<_T>  d;
 
+	struct lock /* also released when copying an element throws */
+	{
+		pthread_mutex_t& m;
+
+		explicit lock(pthread_mutex_t& mutex) : m(mutex) { pthread_mutex_lock(&m); }
+		~lock() { pthread_mutex_unlock(&m); }
+
+	private:
+		lock(const lock&);
+		lock& operator= (const lock&);
+	};
+
 public:
 	synque()
 	{
@@ -29,28 +41,25 @@ public:
 
 	void add(const _T& e)
 	{
-		pthread_mutex_lock(&m);
+		lock l(m);
 		d.push_front(e);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	void signal()
 	{
-		pthread_mutex_lock(&m);
+		lock l(m);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	int get(_T& e, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		lock l(m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 
@@ -58,7 +67,6 @@ public:
 
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -66,26 +74,22 @@ public:
 		e = d.back();
 		d.pop_back();
 
-		pthread_mutex_unlock(&m);
-
 		return 0;
 	}
 
 	int get(std::deque<_T>& out, ssize_t max_count, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		lock l(m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 			pthread_cond_wait(&c, &m);
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -100,16 +104,13 @@ public:
 			d.pop_back();
 		}
 
-		pthread_mutex_unlock(&m);
-
 		return 0;
 	}
 
 	size_t size()
 	{
-		pthread_mutex_lock(&m);
+		lock l(m);
 		size_t sz = d.size();
-		pthread_mutex_unlock(&m);
 		return sz;
 	}
 };
-- 
2.43.0


From 62b18e924f6de4c2677cbcc19f6aa11842172d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 40/52] fix: URL objects report a failed allocation

---
 coda/url_parser.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 6fc43ea..694e737 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <sys/types.h>
+#include <new>
 #include "string.h"
 #include "url_parser.hpp"
 
@@ -34,6 +35,13 @@ coda_url::coda_url(const coda_url &u)
 		dom_len = u.dom_len;
 
 		val_str = (char *) malloc(val_len + dom_len + 2);
+
+		if (NULL == val_str)
+		{
+			reset();
+			throw std::bad_alloc();
+		}
+
 		memcpy(val_str, u.val_str, val_len + dom_len + 2);
 
 		dom_str = val_str + val_len + 1;
@@ -66,6 +74,13 @@ coda_url &coda_url::operator= (const coda_url &u)
 		dom_len = u.dom_len;
 
 		val_str = (char *) malloc(val_len + dom_len + 2);
+
+		if (NULL == val_str)
+		{
+			reset();
+			throw std::bad_alloc();
+		}
+
 		memcpy(val_str, u.val_str, val_len + dom_len + 2);
 
 		dom_str = val_str + val_len + 1;
@@ -105,6 +120,12 @@ int coda_url::create_absolute(const char *u, size_t sz, uint32_t flags)
 
 	val_str = (char *) malloc(2 + 2 * sz + 9); // val + 0 + dom + 0 + "http[s]://" + "/"
 
+	if (NULL == val_str)
+	{
+		reset();
+		return -1;
+	}
+
 	create_scheme(u, sz, flags);
 
 	return 0;
@@ -120,6 +141,12 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 	val_str = (char *) malloc(2 + 2 * sz + parent.val_len + parent.dom_len); // if relative, parent may be bigger than u
 
+	if (NULL == val_str)
+	{
+		reset();
+		return -1;
+	}
+
 	if (has_prefix(u, sz, "http://") || has_prefix(u, sz, "https://"))
 	{
 		create_scheme(u, sz, flags);
-- 
2.43.0


From c0fd50db51aa53b16136842724f41567afce93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 41/52] fix: base58 encoding reports a failed allocation

---
 coda/base58.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/coda/base58.c b/coda/base58.c
index 5948771..bf57e08 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -12,6 +12,7 @@ static inline unsigned char to_uchar (char ch)
 void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
 {
     static const char b58str[58] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
+    char* begin = out;
 
     while (outlen && inlen && !*in)
     {
@@ -26,6 +27,11 @@ void coda_base58_encode (const char* in, size_t inlen, char* out, size_t outlen)
     char* b58_begin = NULL;
     char* b58_curr = NULL;
     b58_begin = b58_curr = (char*)calloc(b58len, sizeof(unsigned char));
+    if (!b58_begin)
+    {
+        if (out + outlen > begin) *begin = '\0'; // nothing rather than a part
+        return;
+    }
 
     while (inlen)
     {
@@ -76,6 +82,13 @@ size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
         return outlen;
 
     coda_base58_encode (in, inlen, *out, outlen);
+    if (inlen && !**out)
+    {
+        free (*out);
+        *out = NULL;
+        return outlen;
+    }
+
     return strlen (*out);
 }
 
-- 
2.43.0


From be4d0c7b9bd9aa49635a13dda3db88d1e6fef149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 42/52] fix: no leak when a text cannot be extended

---
 coda/string.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 54f9ee8..391a0eb 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -68,16 +68,14 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 	}
 	else
 	{
-		char* BUF = new char [num + 1];
+		std::vector<char> BUF(num + 1);
 
-		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
+		if ((int) num < (bytes = vsnprintf(&BUF[0], num + 1, fmt, ap)))
 		{
 			bytes = num;
 		}
 
-		out.append(BUF, bytes);
-
-		delete [] BUF;
+		out.append(&BUF[0], bytes);
 	}
 
 	va_end(ap);
@@ -107,16 +105,14 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 	}
 	else
 	{
-		char* BUF = new char [num + 1];
+		std::vector<char> BUF(num + 1);
 
-		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
+		if ((int) num < (bytes = vsnprintf(&BUF[0], num + 1, fmt, ap)))
 		{
 			bytes = num;
 		}
 
-		out.insert(pos, BUF, bytes);
-
-		delete [] BUF;
+		out.insert(pos, &BUF[0], bytes);
 	}
 
 	va_end(ap);
-- 
2.43.0


From 68a56a0c5d9e0ae83daee468b02ceba0480aa667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:28 +0000
Subject: [PATCH 43/52] fix: exceptions of handlers do not pass through expat

They leaked memory of the parser (about 9 KB each).  A parser that cannot be created is reported.
---
 coda/txml.cpp | 46 +++++++++++++++++++++++++++++++++++++++++++---
 coda/txml.hpp |  2 ++
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index 1434912..4facfc0 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -57,19 +58,55 @@ void coda::txml_determination_object::load_from_string(const char* str, size_t l
 	p.parse(str, len, true);
 }
 
+static void handler_failed(coda::txml_parser* p)
+{
+	p->error = std::current_exception();
+	XML_StopParser(p->p, XML_FALSE);
+}
+
 static void cb_characters(void* vThis, const char* szData, int iLength)
 {
-	((coda::txml_parser*) vThis)->characters(szData, iLength);
+	coda::txml_parser* p = (coda::txml_parser*) vThis;
+	if (p->error) return;
+
+	try
+	{
+		p->characters(szData, iLength);
+	}
+	catch (...)
+	{
+		handler_failed(p);
+	}
 }
 
 static void cb_begelement(void* vThis, const char* const szName, const char** pszAttributes)
 {
-	((coda::txml_parser*) vThis)->begelement(szName, pszAttributes);
+	coda::txml_parser* p = (coda::txml_parser*) vThis;
+	if (p->error) return;
+
+	try
+	{
+		p->begelement(szName, pszAttributes);
+	}
+	catch (...)
+	{
+		handler_failed(p);
+	}
 }
 
 static void cb_endelement(void* vThis, const char* const szName)
 {
-	((coda::txml_parser*) vThis)->endelement(szName);
+	coda::txml_parser* p = (coda::txml_parser*) vThis;
+	if (p->error) return;
+
+	try
+	{
+		p->endelement(szName);
+	}
+	catch (...)
+	{
+		handler_failed(p);
+	}
 }
 
 static int  cb_encunknown(void*, const XML_Char*, XML_Encoding*)
@@ -81,6 +118,8 @@ coda::txml_parser::txml_parser(coda::txml_determination_object* d)
 	: data(d)
 {
 	p = XML_ParserCreate("UTF-8");
+	if (NULL == p) throw std::bad_alloc();
+
 	XML_SetUserData(p, this);
 	XML_SetUnknownEncodingHandler(p, cb_encunknown, NULL);
 	XML_SetElementHandler(p, cb_begelement, cb_endelement);
@@ -98,6 +137,7 @@ void coda::txml_parser::parse(const char* szDataSource, unsigned int iDataLength
 
 	if (XML_STATUS_ERROR == XML_Parse(p, szDataSource, iDataLength, iFinal))
 	{
+		if (error) std::rethrow_exception(error);
 		raise(XML_ErrorString(XML_GetErrorCode(p)));
 	}
 }
diff --git a/coda/txml.hpp b/coda/txml.hpp
index c0d47a8..fea0c6e 100644
--- a/coda/txml.hpp
+++ b/coda/txml.hpp
@@ -3,6 +3,7 @@
 
 #include <stdint.h>
 #include <expat.h>
+#include <exception>
 #include <string>
 #include <vector>
 #include <list>
@@ -38,6 +39,7 @@ struct txml_parser
 	XML_Parser p;
 	txml_determination_object* data;
 
+	std::exception_ptr error; /* thrown by a handler, must not pass through expat */
 	std::string filename;
 	std::string current_value;
 	std::vector<level_desc> levels;
-- 
2.43.0


From 2b877d67a448d94dbfcf6725ae98fedac36a5a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:35 +0000
Subject: [PATCH 44/52] fix: unescaping into a buffer of 0 or 1 bytes does not
 overrun it

---
 coda/url.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 931c363..3509b2e 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -292,9 +292,10 @@ void coda_url_escape(const char *s, char *dest, size_t sz)
 
 void coda_url_unescape(const char *s, char *dest, size_t sz)
 {
+	if (!sz) return;
 	memset(dest, 0, sz);
 	size_t ptr = 0;
-	while (*s && (ptr < sz - 2))
+	while (*s && (ptr + 2 < sz))
 	{
 		if (*s == '+')
 		{
@@ -353,6 +354,7 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 
 void coda_url_preunescape(const char* s, char* dest, size_t sz)
 {
+	if (!sz) return;
 	size_t ptr = 0;
 	while (*s && (ptr + 5 < sz))
 	{
-- 
2.43.0


From f9178be8c30508ace5cd42e12e8f11f9457f89b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:49 +0000
Subject: [PATCH 45/52] fix: a box that cannot be counted does not stay in the
 queue

---
 coda/shm_queue.tcc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index b345079..34be74a 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -349,15 +349,20 @@ void shm_queue::queue<_T>::flush()
 		lock_queue();
 		if ((info->end + 1) % info->size != info->start)
 		{
-			uint8_t *ptr = boxes + info->end * info->box_size;
+			uint32_t end = info->end;
+			uint8_t *ptr = boxes + end * info->box_size;
 			current_box.copy_to(ptr);
-			info->end = (info->end + 1) % info->size;
+			info->end = (end + 1) % info->size;
 
 			struct sembuf sem;
 			sem.sem_num = SEM_ID_QUEUE_COUNT;
 			sem.sem_op = 1;
 			sem.sem_flg = 0;
-			semop(sem_id, &sem, 1);
+
+			if (-1 == semop(sem_id, &sem, 1))
+			{
+				info->end = end; // the count is at its limit: a box that no reader is told about must not stay in the queue
+			}
 		}
 		else
 		{
-- 
2.43.0


From 6f29a8b2d88fec20a457011df531c994ccc21fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:21 +0000
Subject: [PATCH 46/52] fix: cache entries with a huge lifetime do not vanish
 at once

---
 coda/cache.hpp | 7 +++++++
 coda/cache.tcc | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/coda/cache.hpp b/coda/cache.hpp
index 811034e..a8b54fa 100644
--- a/coda/cache.hpp
+++ b/coda/cache.hpp
@@ -47,6 +47,13 @@ class coda_cache
 
 	void drop_last_unused();
 
+	/* the sum time + time_max could overflow when the lifetime is huge */
+	bool is_outdated(size_t time) const
+	{
+		size_t now = ::time(NULL);
+		return time_max && now > time && now - time > time_max;
+	}
+
 public:
 	coda_cache(size_t i_size_max, size_t i_time_max)
 		: begp(NULL)
diff --git a/coda/cache.tcc b/coda/cache.tcc
index b24cae3..1552e62 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -7,7 +7,7 @@ const Val *coda_cache<Key, Val>::get(const Key &key)
 
 	if (it != data.end())
 	{
-		if (time_max && it->second.time + time_max < (size_t) time(NULL))
+		if (is_outdated(it->second.time))
 		{
 			erase(it);
 			return NULL;
@@ -28,7 +28,7 @@ void coda_cache<Key, Val>::get(const Key &key, Val &val)
 
 	if (it != data.end())
 	{
-		if (time_max && it->second.time + time_max < (size_t) time(NULL))
+		if (is_outdated(it->second.time))
 		{
 			erase(it);
 		}
-- 
2.43.0


From f8a0da6a22d3fcff02b8e0719e0af9ccb01a275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:21 +0000
Subject: [PATCH 47/52] fix: the URL parser does not search a negative number
 of characters

---
 coda/url_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 694e737..0d0fa51 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -247,8 +247,8 @@ int coda_url::assign_anchor(char *beg, uint32_t flags)
 
 	p = end;
 
-	if (NULL == (p = coda_revnchr(beg, '.', (p - 1) - beg))) p = beg - 1;
-	if (NULL == (p = coda_revnchr(beg, '.', (p - 1) - beg))) p = beg - 1;
+	if (p - 1 <= beg || NULL == (p = coda_revnchr(beg, '.', (p - 1) - beg))) p = beg - 1;
+	if (p - 1 <= beg || NULL == (p = coda_revnchr(beg, '.', (p - 1) - beg))) p = beg - 1;
 
 	dom_str = p + 1;
 	dom_len = end - (p + 1);
-- 
2.43.0


From 503d42f22e1d23f7018bc47362ab63b6f0e7c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:21 +0000
Subject: [PATCH 48/52] fix: appending text that cannot be converted reports it
 instead of throwing

---
 coda/string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/string.cpp b/coda/string.cpp
index 391a0eb..a2621ee 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -43,6 +43,8 @@ int coda_strappend(std::string& out, const char* fmt, ...)
 		va_end(ap);
 	}
 
+	if (0 > bytes) return bytes;
+
 	out.append(BUF, bytes);
 
 	return bytes;
-- 
2.43.0


From f8ebffa4bfe098cc4c2272127714bbcdb7674fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:21 +0000
Subject: [PATCH 49/52] fix: limited formatting accepts any limit and text that
 cannot be converted

---
 coda/string.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index a2621ee..1bd1c48 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -54,8 +54,13 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 {
 	va_list ap;
 	va_start(ap, fmt);
+	int bytes = vsnprintf(NULL, 0, fmt, ap);
+	va_end(ap);
+
+	if (0 > bytes) return bytes;
+	if (num > (size_t) bytes) num = bytes;
 
-	int bytes;
+	va_start(ap, fmt);
 
 	if (num < BUFSZ)
 	{
@@ -91,8 +96,13 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 
 	va_list ap;
 	va_start(ap, fmt);
+	int bytes = vsnprintf(NULL, 0, fmt, ap);
+	va_end(ap);
+
+	if (0 > bytes) return bytes;
+	if (num > (size_t) bytes) num = bytes;
 
-	int bytes;
+	va_start(ap, fmt);
 
 	if (num < BUFSZ)
 	{
-- 
2.43.0


From 69483af74f58c5cf5882f28ccd334a26f5cd0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:12 +0000
Subject: [PATCH 50/52] fix: a shared-memory queue of 4 GiB or more is given
 room for all its boxes

---
 coda/shm_queue.tcc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 34be74a..1c4ff9a 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -133,9 +133,9 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	int created = 0;
 
-	if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
+	if (-1 == (shm_id = shmget(key, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
 	{
-		if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | IPC_EXCL | 0666))) // not created? creating...
+		if (-1 == (shm_id = shmget(key, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | IPC_EXCL | 0666))) // not created? creating...
 		{
 			throw coda_error("shm_queue::queue<>: error creating queue shm: %s", coda_strerror(errno));
 		}
@@ -154,7 +154,7 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	if (created || (0 == info->box_size && 0 == info->size)) // a new segment is zeroed: its creator may have failed to attach it
 	{
-		memset(ptr, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
+		memset(ptr, 0, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
 		info->size = MAX_BOXES_IN_QUEUE;
 	}
@@ -182,7 +182,7 @@ void shm_queue::queue<_T>::reset_queue()
 {
 	if (info)
 	{
-		memset(info, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
+		memset(info, 0, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
 		info->size = MAX_BOXES_IN_QUEUE;
 	}
@@ -314,7 +314,7 @@ bool shm_queue::queue<_T>::unflush(short sem_flg, long sem_usec)
 
 		lock_queue();
 
-		uint8_t *ptr = boxes + info->start * info->box_size;
+		uint8_t *ptr = boxes + (size_t) info->start * info->box_size;
 		current_box.copy_from(ptr);
 
 		// at every instant the indices are valid and no box in the queue is cleared: a process may be killed here
@@ -350,7 +350,7 @@ void shm_queue::queue<_T>::flush()
 		if ((info->end + 1) % info->size != info->start)
 		{
 			uint32_t end = info->end;
-			uint8_t *ptr = boxes + end * info->box_size;
+			uint8_t *ptr = boxes + (size_t) end * info->box_size;
 			current_box.copy_to(ptr);
 			info->end = (end + 1) % info->size;
 
-- 
2.43.0


From 99149240278f468bc76989b91040d7c842e6e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:12 +0000
Subject: [PATCH 51/52] fix: connecting a queue detaches the shared memory when
 it runs out of memory

---
 coda/shm_queue.tcc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 1c4ff9a..da87405 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -173,8 +173,18 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 			boxes_num, box_size, MAX_BOXES_IN_QUEUE, BOX_SIZE);
 	}
 
+	try
+	{
+		current_box.allocate(BOX_SIZE);
+	}
+	catch (const std::exception &e)
+	{
+		shmdt(info);
+		info = 0;
+		throw;
+	}
+
 	boxes = ptr;
-	current_box.allocate(BOX_SIZE);
 }
 
 template <typename _T>
-- 
2.43.0


From cabd15bf897448c271be5dab118bcf0634f858f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:10 +0000
Subject: [PATCH 52/52] fix: a shared-memory map of more than 2 GiB is given
 the room it needs

---
 coda/shm_hash_map.tcc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index b64395c..ea44daf 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -3,9 +3,9 @@
 #define mySEM_R 0
 #define mySEM_W 1
 
-inline uint32_t floor1024(uint32_t param)
+inline size_t floor1024(size_t param)
 {
-	return (param + 1023) & ~(1023);
+	return (param + 1023) & ~(size_t)(1023);
 }
 
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
@@ -39,15 +39,15 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::attach(void * mem_begin) th
 	// some memory usage arrangement
 
 	uint8_t *nodes_header_p = mem_p + 3 * sizeof(uint32_t);
-	int map_header_size = floor1024(3 * sizeof(uint32_t) + nodes_pool.header_size());
+	size_t map_header_size = floor1024(3 * sizeof(uint32_t) + nodes_pool.header_size());
 
 	uint8_t *nodes_stack_p = mem_p + map_header_size;
-	int map_stacks_size = floor1024(nodes_pool.stack_size());
+	size_t map_stacks_size = floor1024(nodes_pool.stack_size());
 
 	uint8_t *nodes_pool_p = mem_p + map_header_size + map_stacks_size;
 	objects = (node *) nodes_pool_p;
 
-	int map_data_size = floor1024(nodes_pool.data_size());
+	size_t map_data_size = floor1024(nodes_pool.data_size());
 	uint8_t *hash_p = mem_p + map_header_size + map_stacks_size + map_data_size;
 
 	if (0 == *objects_num && 0 == *item_size && 0 == *hash_size)
@@ -92,9 +92,9 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::detach()
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
 size_t shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::required_space()const
 {
-	int map_header_size = floor1024(3 * sizeof(uint32_t) + nodes_pool.header_size());
-	int map_stacks_size = floor1024(nodes_pool.stack_size());
-	int map_data_size = floor1024(nodes_pool.data_size());
+	size_t map_header_size = floor1024(3 * sizeof(uint32_t) + nodes_pool.header_size());
+	size_t map_stacks_size = floor1024(nodes_pool.stack_size());
+	size_t map_data_size = floor1024(nodes_pool.data_size());
 
 	return map_header_size + map_stacks_size + map_data_size + sizeof(uint32_t) * _HASH_SIZE;
 }
-- 
2.43.0


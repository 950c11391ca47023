From 34456b4e9c839cfe0ff64e82d01790b9b84f8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 01/43] fix: vector growth from capacity 0, after a failed
 realloc and after append_ptr

A vector created with initial_element_count 0 never grew (0 * 2 == 0) and
the first append wrote past the allocation. max_size was doubled before
realloc succeeded, so an append after a failed one wrote past the old
block. vector_append_ptr grew without the spare byte that vector_append
clears behind the element.
---
 src/vector.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 6153dda..9d5538e 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -27,11 +27,12 @@ inline int vector_append(vector *vec, const void *item, const size_t item_size)
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, vec->max_size * vec->item_size + 1);
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max;
 	}
 
 	if (item_size != 0 && item != NULL) {
@@ -53,11 +54,12 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, (vec->max_size * vec->item_size));
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max;
 	}
 
 	memcpy(nth(vec->count), &pointer, sizeof(void *));
-- 
2.43.0


From a1ad11683337a167134c100ff022e7c149e01960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 02/43] fix: vector_get returned memory beyond the stored
 elements

i == max_size read past the allocation, and indices between count and
max_size handed out uninitialised slots.
---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index 9d5538e..5300193 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -70,7 +70,7 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 inline const void *vector_get(const vector *vec, const unsigned int i) {
 	if (vec == NULL)
 		return NULL;
-	if (i > vec->max_size)
+	if (i >= vec->count)
 		return NULL;
 	return nth(i);
 }
-- 
2.43.0


From 9b8bf140c2e0264c4b01f5ad582748392bfb277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 03/43] fix: vector_new dereferenced NULL when an allocation
 failed

---
 src/vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 5300193..ab9aef3 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -14,6 +14,11 @@ vector *vector_new(const size_t item_size, const size_t initial_element_count) {
 	};
 
 	vector *to_return = calloc(1, sizeof(vector));
+	if (!_vec.items || !to_return) {
+		free(_vec.items);
+		free(to_return);
+		return NULL;
+	}
 	memcpy(to_return, &_vec, sizeof(vector));
 
 	return to_return;
-- 
2.43.0


From 58d5bccf776c467329cc40e524e010eba3414221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 04/43] fix: FNV-1a looped forever on inputs of 256 bytes or
 more

The index was a uint8_t.
---
 src/simple_sparsehash.c | 6 ++----
 src/utils.c             | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 47bb96b..8dfb3ad 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -15,12 +15,10 @@ static uint64_t hash_fnv1a(const char *key, const size_t klen) {
 	static const uint64_t fnv_prime = 1099511628211ULL;
 	static const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = klen;
-
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
-	for(i = 0; i < iterations; i++) {
+	for(i = 0; i < klen; i++) {
 		hash = hash ^ key[i];
 		hash = hash * fnv_prime;
 	}
diff --git a/src/utils.c b/src/utils.c
index f1e50eb..26c9c97 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -101,12 +101,10 @@ int hash_string_fnv1a(const unsigned char *key, const size_t siz, char outbuf[st
 	const uint64_t fnv_prime = 1099511628211ULL;
 	const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = siz;
-
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
-	for(i = 0; i < iterations; i++) {
+	for(i = 0; i < siz; i++) {
 		hash = hash ^ key[i];
 		hash = hash * fnv_prime;
 	}
-- 
2.43.0


From acd394152d04aabd61875dc12dcd8cac8377e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 05/43] fix: sparse_array accepted index == maximum

That is one past the end, and past the last group when maximum is a
multiple of GROUP_SIZE.
---
 src/simple_sparsehash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 8dfb3ad..798d458 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -211,7 +211,7 @@ struct sparse_array *sparse_array_init(const size_t element_size, const uint32_t
 int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 						   const void *val, const size_t vlen) {
 	/* Don't let users set outside the bounds of the array. */
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return 0;
 	/* Since our hashtable is divided into many arrays, we need to pick the one
 	 * relevant to `i` in this case:
@@ -222,7 +222,7 @@ int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 }
 
 const void *sparse_array_get(struct sparse_array *arr, const uint32_t i, size_t *outsize) {
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return NULL;
 	struct sparse_array_group *operating_group = &arr->groups[i / GROUP_SIZE];
 	const int position = i % GROUP_SIZE;
-- 
2.43.0


From 9a127ad67142898a5f12528897f3ad3930094bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 06/43] fix: overwriting a key in sparse_dict_set freed an
 interior pointer

The key lives in the same allocation as the value, so freeing it
separately aborts (e.g. a form body of 'a=1&a=2').
---
 src/simple_sparsehash.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 798d458..5ee79ba 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -386,14 +386,12 @@ int sparse_dict_set(struct sparse_dict *dict,
 			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
-				char *existing_key = existing_bucket->key;
 				void *existing_val = existing_bucket->val;
 				if (_create_and_insert_new_bucket(dict->buckets, probed_val, key, klen, value, vlen, key_hash)) {
 					/* We return here because we don't want to execute the 'resize the table'
 					 * logic. We overwrote a bucket instead of adding a new one, so we know
 					 * we don't need to resize anything.
 					 */
-					free(existing_key);
 					free(existing_val);
 					return 1;
 				} else {
-- 
2.43.0


From 247bb18448e381c3c6bedd38fc9063cc582a4bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 07/43] fix: sparse_dict compared and copied keys as C strings

Keys are (pointer, length) pairs: strncmp stopped at a NUL byte and read
past the shorter key, and strncpy dropped everything after a NUL.
---
 src/simple_sparsehash.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 5ee79ba..68bd8c6 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -274,7 +274,7 @@ static int _create_and_insert_new_bucket(
 	memcpy(copied_value, value, vlen);
 
 	copied_key = copied_value + vlen;
-	strncpy(copied_key, key, klen);
+	memcpy(copied_key, key, klen);
 
 	struct sparse_bucket bct = {
 		.key = copied_key,
@@ -382,8 +382,8 @@ int sparse_dict_set(struct sparse_dict *dict,
 		} else {
 			/* We found a bucket. Check to see if it has the same key as we do. */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
 				void *existing_val = existing_bucket->val;
@@ -438,8 +438,8 @@ void *sparse_dict_get(struct sparse_dict *dict, const char *key,
 			 * The value we pulled from the underlying array could be anything.
 			 */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				if (outsize)
 					memcpy(outsize, &existing_bucket->vlen, sizeof(existing_bucket->vlen));
 
-- 
2.43.0


From b6610fd26be66bd2eb8632ddf6ce289269fd06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 08/43] fix: quadratic probing missed free slots in sparse_dict

n*n does not reach every slot of a power-of-two table, so a set could
fail (and a rehash give up) although the table had room.
---
 src/simple_sparsehash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 68bd8c6..2869a72 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -6,7 +6,8 @@
 
 #define FULL_ELEM_SIZE (arr->elem_size + sizeof(size_t))
 #define MAX_ARR_SIZE ((arr->maximum - 1)/GROUP_SIZE + 1)
-#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * num_probes) & (maximum - 1)
+/* Triangular steps visit every slot of a power-of-two sized table exactly once. */
+#define QUADRATIC_PROBE(maximum) (key_hash + (uint64_t)num_probes * (num_probes + 1) / 2) & (maximum - 1)
 
 /* One of the simplest hashing functions, FNV-1a. See the wikipedia article for more info:
  * http://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
-- 
2.43.0


From 4372443768723e2f30fd5875ca9789a9fca36fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 09/43] fix: strnstr missed a match at the very end of the
 haystack

It also truncated the length to int.
---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 26c9c97..006adb6 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -62,7 +62,7 @@ int endswith(const char *string, const char *suffix) {
 
 /* Pulled from here: http://stackoverflow.com/a/25705264 */
 char *strnstr(const char *haystack, const char *needle, size_t len) {
-	int i;
+	size_t i;
 	size_t needle_len;
 
 	/* segfault here if needle is not NULL terminated */
@@ -72,7 +72,7 @@ char *strnstr(const char *haystack, const char *needle, size_t len) {
 	/* Limit the search if haystack is shorter than 'len' */
 	len = strnlen(haystack, len);
 
-	for (i=0; i<(int)(len-needle_len); i++)
+	for (i=0; i + needle_len <= len; i++)
 	{
 		if ((haystack[0] == needle[0]) && (0 == strncmp(haystack, needle, needle_len)))
 			return (char *)haystack;
-- 
2.43.0


From 7bcc88a4a4a94090eb01ff356fc43f742772659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 10/43] fix: m38_get_cookie_value returned the wrong cookie and
 read out of bounds

It matched the name anywhere (session matched mysession=...), included
the trailing ';' in the value, and for the last cookie computed an end
past the string.
---
 src/utils.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 006adb6..332dd6e 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -119,29 +119,29 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 	if (!cookie_string)
 			return NULL;
 
-	const char *cookie_loc = strnstr(cookie_string, needle, cookie_string_siz);
-	if (!cookie_loc)
-			return NULL;
-
-	const char *cookie_string_start = cookie_loc;
-	const char *cookie_string_end = strnstr(cookie_loc, ";", cookie_string_siz - (cookie_loc - cookie_string));
-	if (!cookie_string_end) {
-			/* This is okay, it might be at the end of the cookie. */
-			cookie_string_end = strnstr(cookie_loc, " ", cookie_string_siz - (cookie_loc - cookie_string));
-			if (!cookie_string_end)
-					cookie_string_end = cookie_loc + cookie_string_siz;
-	}
+	const size_t needle_siz = strlen(needle);
+	const char *cookie_string_limit = cookie_string + strnlen(cookie_string, cookie_string_siz);
+	const char *cookie_loc = cookie_string;
+
+	/* Walk the "name=value" pairs. The name has to be exactly the needle. */
+	while (cookie_loc < cookie_string_limit) {
+		if (*cookie_loc == ' ' || *cookie_loc == ';') {
+			cookie_loc++;
+			continue;
+		}
 
-	const size_t cookie_string_size = cookie_string_end - cookie_string_start;
-	const char *cookie_string_value = strnstr(cookie_loc, "=", cookie_string_size);
-	if (!cookie_string_value)
-			return NULL;
+		const char *cookie_string_end = cookie_loc;
+		while (cookie_string_end < cookie_string_limit && *cookie_string_end != ';' && *cookie_string_end != ' ')
+			cookie_string_end++;
 
-	/* -1 here is for the '=': */
-	const size_t cookie_string_value_size = cookie_string_end - cookie_string_value;
-	char *data = calloc(sizeof(char), cookie_string_value_size + 2); /* Plus two here: One for =, one for NULL */
-	data[cookie_string_value_size] = '\0';
-	strncpy(data, cookie_string_value + 1, cookie_string_value_size);
+		const size_t cookie_string_size = cookie_string_end - cookie_loc;
+		if (cookie_string_size > needle_siz && strncmp(cookie_loc, needle, needle_siz) == 0 &&
+				cookie_loc[needle_siz] == '=') {
+			/* -1 here is for the '=': */
+			return strndup(cookie_loc + needle_siz + 1, cookie_string_size - needle_siz - 1);
+		}
+		cookie_loc = cookie_string_end;
+	}
 
-	return data;
+	return NULL;
 }
-- 
2.43.0


From db452472dfdea19a72dd119c22425648c7584aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 11/43] fix: header lookup matched names anywhere and crashed
 on empty values

'Range' was found inside Accept-Ranges and inside other headers' values,
and a header line ending right after the colon gave a negative size.
---
 src/parse.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 8bf79b8..33e9c58 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -101,12 +101,21 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 char *m38_get_header_value_raw(const char *request, const size_t request_siz, const char header[static 1]) {
 	/* TODO: Make sure this function handles bad input. */
 	char *data = NULL;
+	const size_t header_siz = strlen(header);
+	const char *request_end = request + strnlen(request, request_siz);
 	const char *header_loc = strnstr(request, header, request_siz);
+	/* The name has to start a line and be followed by a ':', otherwise we are looking
+	 * at the tail of some other name, or at a value. */
+	while (header_loc && ((header_loc != request && header_loc[-1] != '\n') ||
+				header_loc + header_siz == request_end || header_loc[header_siz] != ':'))
+		header_loc = strnstr(header_loc + 1, header, request_end - (header_loc + 1));
 	if (!header_loc)
 		return NULL;
 
-	const char *header_value_start = header_loc + strnlen(header, request_siz) + strlen(": ");
-	const char *header_value_end = strnstr(header_loc, "\r\n", request_siz);
+	const char *header_value_start = header_loc + header_siz + strlen(":");
+	while (header_value_start < request_end && (*header_value_start == ' ' || *header_value_start == '\t'))
+		header_value_start++;
+	const char *header_value_end = strnstr(header_value_start, "\r\n", request_end - header_value_start);
 	if (!header_value_end)
 		return NULL;
 
-- 
2.43.0


From 817e88eb6a5545a4a32e994434fffc874e202ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 12/43] fix: request bodies were cut at the first NUL byte

full_body was copied with strndup while body_len kept the full length, so
handlers read past the copy for binary bodies.
---
 src/parse.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 33e9c58..1b84fd5 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -179,6 +179,14 @@ error:
 	return -1;
 }
 
+/* The body can be any bytes at all, so strndup(3) won't do. */
+static unsigned char *_copy_body(const char *body_start, const size_t body_len) {
+	unsigned char *copied = calloc(1, body_len + 1);
+	if (copied)
+		memcpy(copied, body_start, body_len);
+	return copied;
+}
+
 int m38_parse_body(const size_t received_body_len,
 			   const size_t content_length_num,
 			   const unsigned char *raw_request,
@@ -188,15 +196,15 @@ int m38_parse_body(const size_t received_body_len,
 	/* We want to read the least amount. Read whatever is smallest. DO IT BECAUSE I SAY SO. */
 	if (content_length_num == received_body_len) {
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, content_length_num);
+		request->full_body = _copy_body(body_start, content_length_num);
 	} else if (received_body_len < content_length_num) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Received body length is less than clength for full_body.");
 		request->body_len = received_body_len;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = _copy_body(body_start, request->body_len);
 	} else if (content_length_num > 0 && content_length_num < received_body_len) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Content length is less than total received body length.");
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = _copy_body(body_start, request->body_len);
 	} else {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Discrepancy between content-length and body length.");
 		request->full_body = NULL;
-- 
2.43.0


From d7672887dbd2c194c071d960477f9a59b9fb767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 13/43] fix: form parsing consumed the request body

strsep walked request->full_body itself, which left it NULL (and leaked)
for the handler. The copy made for this purpose was never used.
---
 src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 1b84fd5..9e74c8b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -228,7 +228,8 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 
 	new_dict = sparse_dict_init();
 
-	while ((potential_kv_pair = strsep((char **)&request->full_body, "&")) != NULL) {
+	char *remaining_pairs = duplicated_body;
+	while ((potential_kv_pair = strsep(&remaining_pairs, "&")) != NULL) {
 		char *key = NULL;
 		char *value = NULL;
 		key = strsep(&potential_kv_pair, "=");
-- 
2.43.0


From 4f4fd71b3d132d70adf8d33bee269503a9fe9030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 14/43] fix: form decode buffer had no room for the terminator

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9e74c8b..412bb42 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -239,7 +239,7 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 			continue;
 		}
 
-		char *decoded_buffer = calloc(1, strlen(value));
+		char *decoded_buffer = calloc(1, strlen(value) + 1);
 		if (m38_url_decode(value, decoded_buffer) > 0) {
 			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, strlen(decoded_buffer));
 		} else {
-- 
2.43.0


From 0e30bdaf5f8c36367a0546cdbb05c578727dd9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 15/43] fix: a failed recv() was added to the request size

-1 ended up in a size_t: the next recv wrote before the buffer and the
garbage size went on into the parser.
---
 src/grengine.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 9acb18b..92b39f4 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -315,8 +315,12 @@ static void log_request(const m38_http_request *request, const m38_http_response
 }
 
 static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read) {
-	size_t read_this_time = 0;
+	ssize_t read_this_time = 0;
 	while ((read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0))) {
+		if (read_this_time < 0) {
+			m38_log_msg(LOG_ERR, "Could not read from socket.");
+			goto error;
+		}
 		*num_read += read_this_time;
 		if (read_this_time == 0 || read_this_time < MAX_READ_LEN)
 			break;
-- 
2.43.0


From e8a23266308beed09cd92c2dcc0486273c22f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 16/43] fix: read errors freed an uninitialised
 m38_http_request

---
 src/grengine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 92b39f4..d193e8e 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -390,10 +390,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t num_read = 0;
 	int rc = 0;
 
-	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-	if (rc != 0)
-		goto error;
-
 	m38_http_request request = {
 		.verb = {0},
 		.resource = {0},
@@ -404,6 +400,10 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		.full_body = NULL
 	};
 
+	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
+	if (rc != 0)
+		goto error;
+
 	rc = m38_parse_request(to_read, num_read, &request);
 	if (rc != 0) {
 		m38_log_msg(LOG_ERR, "Could not parse request.");
-- 
2.43.0


From 08d717664dac30c0ebfd4554cc430addcc5596b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:55 +0000
Subject: [PATCH 17/43] fix: connections with an unreadable request were never
 closed

m38_generate_response returned NULL and nobody owned accept_fd (or the
header vector) any more.
---
 src/grengine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grengine.c b/src/grengine.c
index d193e8e..bc9b275 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -376,6 +376,8 @@ error:
 	return -1;
 }
 
+static void _clean_up_extra_headers(m38_http_response *response);
+
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
 	unsigned char *to_read = calloc(1, MAX_READ_LEN);
 	char *actual_response = NULL;
@@ -645,6 +647,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
 		matching_route->cleanup(500, &response);
+	_clean_up_extra_headers(&response);
+	close(accept_fd);
 	free(actual_response);
 	free(to_read);
 	free(request.full_header);
-- 
2.43.0


From 29aaf6be7fc2be59bba092c4ac80936c1156d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 18/43] fix: leaks of the form dictionary and Content-Type of
 every request

---
 src/grengine.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index bc9b275..41f4f76 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -18,6 +18,7 @@
 #include "greshunkel.h"
 #include "utils.h"
 #include "logging.h"
+#include "simple_sparsehash.h"
 #include "vector.h"
 #include "types.h"
 
@@ -450,10 +451,12 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		if (rc != 0) {
 			/* application/x-www-form-urlencoded */
 			m38_log_msg(LOG_ERR, "Could not parse form-urlencoded body.");
+			free(content_type);
 			goto error;
 		}
 	
 	}
+	free(content_type);
 
 	/* Find our matching route: */
 	int64_t i;
@@ -641,7 +644,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return hreq;
 
 error:
@@ -653,7 +657,8 @@ error:
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return NULL;
 }
 
-- 
2.43.0


From e39d88cde43802dd99916617cf455f294c4fc8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 19/43] fix: stack overflow by one byte for every custom header

---
 src/grengine.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 41f4f76..2c4ec66 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -578,8 +578,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 			const size_t siz = (*pair)->header_len + strlen(": ") + (*pair)->value_len
 								    + strlen("\r\n") + 1;
 			char buf[siz];
-			buf[siz] = '\0';
-			snprintf(buf, actual_response_siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
+			snprintf(buf, siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
 			strncat(actual_response, buf, siz);
 		}
 		strcat(actual_response, r_final);
-- 
2.43.0


From 7ecf9225f031bafd2d43e280df97182838cfa92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 20/43] fix: m38_insert_custom_header reported failure on
 success

It returned 0 in every case, and leaked the copies when it did fail.
---
 src/grengine.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 2c4ec66..807f762 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -283,6 +283,8 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 	const char *copied_value = strndup(value, value_len);
 	if (!copied_header || !copied_value) {
 		m38_log_msg(LOG_ERR, "Could not create copied values for http_response extra headers!");
+		free((char *)copied_header);
+		free((char *)copied_value);
 		free(new_pair);
 		return 0;
 	}
@@ -294,9 +296,15 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 		.value_len = value_len,
 	};
 	memcpy(new_pair, &_stack_pair, sizeof(m38_header_pair));
-	vector_append_ptr(response->extra_headers, new_pair);
+	if (!vector_append_ptr(response->extra_headers, new_pair)) {
+		m38_log_msg(LOG_ERR, "Could not store header_pair for http_response extra headers!");
+		free((char *)copied_header);
+		free((char *)copied_value);
+		free(new_pair);
+		return 0;
+	}
 
-	return 0;
+	return 1;
 }
 
 static void log_request(const m38_http_request *request, const m38_http_response *response, const int response_code) {
-- 
2.43.0


From 67d40b269cb94947d87644e77e6740444a10dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 21/43] fix: Range turned redirects and empty responses into
 206

A redirect lost its status and Location, and an empty response computed
an end byte of SIZE_MAX.
---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 807f762..43e79c0 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -539,7 +539,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 	/* Figure out if this thing needs to be partial */
 	char *range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
-	if (range_header_value && RESPONSE_OK(response_code)) {
+	if (range_header_value && response_code == 200 && response.outsize > 0) {
 		response_code = 206;
 	}
 
-- 
2.43.0


From f5ba94468cc438d1aa71e27e0265cf39b4d67398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 22/43] fix: 206 responses carried the wrong bytes, a wrong
 Content-Length and heap garbage

The end of the range was outsize - limit - 1 (less than the start for
many valid ranges, which made the memcpy run off), the body was one byte
short, Content-Length was that of the whole resource and the difference
was sent as uninitialised memory.
---
 src/grengine.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 43e79c0..74a8556 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -605,7 +605,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		if (byte_range.limit == 0) {
 			end_byte = response.outsize - 1;
 		} else {
-			end_byte = (response.outsize - byte_range.limit) - 1;
+			end_byte = byte_range.limit;
 		}
 
 		if (end_byte >= response.outsize)
@@ -613,28 +613,31 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		const size_t start_byte = byte_range.offset < response.outsize ? byte_range.offset : 0;
 		const size_t max_size = response.outsize; /* Should be the same as file size. */
 		const size_t integer_length = UINT_LEN(max_size);
+		/* Both ends of the range are inclusive. */
+		const size_t part_size = end_byte - start_byte + 1;
+		const size_t part_length = UINT_LEN(part_size);
 
 		const size_t minb_len = start_byte == 0 ? 1 : UINT_LEN(start_byte);
 		const size_t maxb_len = end_byte == 0 ? 1 : UINT_LEN(end_byte);
 		/* Compute the size of the header */
 		header_size = strlen(response.mimetype) + strlen(matched_response->message) + strlen(r_final)
-			+ integer_length + minb_len + maxb_len + integer_length
+			+ part_length + minb_len + maxb_len + integer_length
 			- strlen("%s") - (strlen("%zu") * 4);
-		actual_response_siz = max_size + header_size;
+		actual_response_siz = part_size + header_size;
 		/* malloc the full response */
 		actual_response = malloc(actual_response_siz + 1);
 		actual_response[actual_response_siz] = '\0';
 
 		/* snprintf the header because it's just a string: */
 		snprintf(actual_response, actual_response_siz, matched_response->message,
-			response.mimetype, max_size,
+			response.mimetype, part_size,
 			start_byte, end_byte, max_size);
 		m38_log_msg(LOG_INFO, "Sending back: Content-Range: %zu-%zu/%zu", start_byte, end_byte, max_size);
 
 		strcat(actual_response, r_final);
 
 		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out + start_byte, end_byte - start_byte);
+		memcpy(actual_response + header_size, response.out + start_byte, part_size);
 	}
 
 	log_request(&request, &response, response_code);
-- 
2.43.0


From ad44dfdb6b95f9c32a221caa5a67f5aebd305541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:43 +0000
Subject: [PATCH 23/43] fix: 206 responses had no default Content-Type, other
 ones leaked the Range value

---
 src/grengine.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 74a8556..e011e59 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -558,13 +558,13 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	 * compile time. */
 	assert(matched_response != NULL);
 
+	if (response.mimetype[0] == '\0')
+		memcpy(response.mimetype, "text/html", strlen("text/html"));
+
 	if (response_code == 200 || response_code == 404 || response_code == 301 ||
 			response_code == 302 ||response_code == 400 || response_code == 403 ||
 			response_code == 500) {
 		const size_t integer_length = UINT_LEN(response.outsize);
-		if (response.mimetype[0] == '\0')
-			memcpy(response.mimetype, "text/html", strlen("text/html"));
-
 		header_size = strlen(response.mimetype) + strlen(matched_response->message)
 			+ integer_length - strlen("%s") - strlen("%zu") + strlen(r_final);
 
@@ -599,7 +599,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		/* TODO: Add the custom header stuff here (for 206), too. */
 
 		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
-		free(range_header_value);
 
 		size_t end_byte = 0;
 		if (byte_range.limit == 0) {
@@ -640,6 +639,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		memcpy(actual_response + header_size, response.out + start_byte, part_size);
 	}
 
+	free(range_header_value);
+
 	log_request(&request, &response, response_code);
 
 	hreq = malloc(sizeof(m38_handled_request));
-- 
2.43.0


From 498cb0dec70bcba73a71ebffb3a86a727b58f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 24/43] fix: partial sends dropped bytes of the response

send() may accept less than it was given; sent advanced by the whole
chunk anyway.
---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index e011e59..4af67a2 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -696,7 +696,7 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 		goto error;
 	}
 
-	hreq->sent += to_send;
+	hreq->sent += rc;
 
 	if (hreq->response_len - hreq->sent <= 0) {
 		if (matching_route->cleanup != NULL) {
-- 
2.43.0


From 9edc80fb54f06abe2c187e47a3a6fcfd433f432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:11 +0000
Subject: [PATCH 25/43] fix: failed sends told cleanup 500 instead of the
 handler's status

m38_heap_cleanup and m38_mmap_cleanup decide by the status whether the
handler's buffer is theirs, so it leaked whenever a client went away.
---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 4af67a2..8ccfc1f 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -715,7 +715,7 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
-		matching_route->cleanup(500, &hreq->response);
+		matching_route->cleanup(hreq->response_code, &hreq->response);
 	_clean_up_extra_headers(&hreq->response);
 	close(hreq->accept_fd);
 	free(hreq->response_bytes);
-- 
2.43.0


From 3fac4786f91c69b103fbf74f1d158ab8e1d87b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 26/43] fix: files with a path under 16 characters were always
 text/html

res_len - sizeof(ending) wrapped around, so the extension was never
looked for.
---
 src/grengine.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 8ccfc1f..3d6ea3c 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -228,11 +228,13 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	unsigned int i = sizeof(ending);
 	int found_dot = 0;
 	const size_t res_len = strlen(file_path);
-	for (i = res_len; i > (res_len - sizeof(ending)); i--) {
+	for (i = res_len; i + sizeof(ending) > res_len; i--) {
 		if (file_path[i] == '.') {
 			found_dot = 1;
 			break;
 		}
+		if (i == 0)
+			break;
 	}
 	if (strlen(response->mimetype) == 0) {
 		if (found_dot) {
-- 
2.43.0


From 343c4fae65141bdd6850ec8dddcfb22f27745f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 27/43] fix: m38_render_file read past the mapping of
 page-sized templates

---
 src/grengine.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 3d6ea3c..5737b1e 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -161,8 +161,16 @@ int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path,
 	const char *mmapd_region = (char *)response->out;
 	const size_t original_size = response->outsize;
 
+	/* The renderer wants a terminated string, and a mapping isn't one when the file
+	 * exactly fills its last page. */
 	size_t new_size = 0;
-	char *rendered = gshkl_render(ctext, mmapd_region, original_size, &new_size);
+	char *rendered = NULL;
+	char *terminated = calloc(1, original_size + 1);
+	if (terminated) {
+		memcpy(terminated, mmapd_region, original_size);
+		rendered = gshkl_render(ctext, terminated, original_size, &new_size);
+		free(terminated);
+	}
 	gshkl_free_context((greshunkel_ctext *)ctext);
 
 	/* Clean up the stuff we're no longer using. */
-- 
2.43.0


From 0a7d90ad5190962adbaa17fd2390ef1a484ff6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:48 +0000
Subject: [PATCH 28/43] fix: m38_render_file leaked the context when the file
 is missing

---
 src/grengine.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 5737b1e..74062c5 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -154,8 +154,10 @@ int m38_return_raw_buffer(const char *buf, const size_t buf_size, m38_http_respo
 
 int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path, m38_http_response *response) {
 	int rc = m38_mmap_file(file_path, response);
-	if (!RESPONSE_OK(rc))
+	if (!RESPONSE_OK(rc)) {
+		gshkl_free_context((greshunkel_ctext *)ctext);
 		return rc;
+	}
 
 	/* Render the mmap()'d file with greshunkel */
 	const char *mmapd_region = (char *)response->out;
-- 
2.43.0


From 65b059e150805557d228182eb4cd1b52521c44bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 29/43] fix: m38_http_serve ignored a failure to open the
 handled queue

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 063c4d9..ecf42e9 100644
--- a/src/server.c
+++ b/src/server.c
@@ -252,7 +252,7 @@ int m38_http_serve(m38_app *app) {
 	}
 
 	po_handled_queue = _open_queue(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR | O_CREAT, sizeof(m38_handled_request *));
-	if (po_accepted_queue == -1) {
+	if (po_handled_queue == -1) {
 		m38_log_msg(LOG_ERR, "Could not preopen handled socket queue..");
 		perror("Main Thread");
 		goto error;
-- 
2.43.0


From 265b83c7739dbecaedb64f0638c7f5b281caf8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:56 +0000
Subject: [PATCH 30/43] fix: 32 character names of arrays and sub contexts were
 not terminated

strlen on such a name ran on into the type and the value.
---
 src/greshunkel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8757f7d..9d55453 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -90,7 +90,7 @@ int gshkl_add_sub_context(greshunkel_ctext *parent, const char name[const], cons
 			.sub_ctext = child
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
+	const size_t name_len = strnlen(name, WISDOM_OF_WORDS - 1);
 	strncpy(_stack_tuple.name, name, name_len);
 
 	return _gshkl_add_var_to_context(parent, &_stack_tuple);
@@ -169,7 +169,7 @@ greshunkel_var gshkl_add_array(greshunkel_ctext *ctext, const char name[]) {
 			.arr = vector_new(sizeof(greshunkel_tuple), 16)
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
+	const size_t name_len = strnlen(name, WISDOM_OF_WORDS - 1);
 	strncpy(_stack_tuple.name, name, name_len);
 
 	_gshkl_add_var_to_context(ctext, &_stack_tuple);
-- 
2.43.0


From 53a7be9ba478005c4e68e13e930d6643bc217830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 31/43] fix: gshkl_add_filter reported success when it could
 not add

---
 src/greshunkel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 9d55453..ce63af4 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -110,7 +110,8 @@ int gshkl_add_filter(greshunkel_ctext *ctext,
 	};
 	strncpy(new_filter.name, name, sizeof(new_filter.name) - 1);
 
-	vector_append(ctext->filter_functions, &new_filter, sizeof(struct greshunkel_filter));
+	if (!vector_append(ctext->filter_functions, &new_filter, sizeof(struct greshunkel_filter)))
+		return 1;
 	return 0;
 }
 
-- 
2.43.0


From 4b0b880492dfe4f41398043272c98c48f11bb5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 32/43] fix: rendering an empty template returned NULL and a
 size of SIZE_MAX

Loops and conditionals with an empty body memcpy'd that much.
---
 src/greshunkel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index ce63af4..15ee249 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -983,7 +983,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	assert(ctext != NULL);
 
 	/* We start up a new buffer and copy the old one into it: */
-	char *rendered = NULL;
+	char *rendered = calloc(1, 1);
 	size_t intermediate_outsize = 0;
 
 	struct compiled_regex all_regex;
@@ -1036,7 +1036,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
 	if (outsize)
-		*outsize = intermediate_outsize - 1;
+		*outsize = intermediate_outsize ? intermediate_outsize - 1 : 0;
 	return rendered;
 
 error:
-- 
2.43.0


From 7ca26b1bd4149c1341f9b09d0cfe1bc0c11b7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:06 +0000
Subject: [PATCH 33/43] fix: outsize dropped the last byte after a loop,
 conditional or include

The - 1 is for the terminator of the last line, which these don't have.
---
 src/greshunkel.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 15ee249..9fa3a28 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -985,6 +985,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	/* We start up a new buffer and copy the old one into it: */
 	char *rendered = calloc(1, 1);
 	size_t intermediate_outsize = 0;
+	int ends_with_terminator = 0;
 
 	struct compiled_regex all_regex;
 	_compile_regex(&all_regex);
@@ -1008,13 +1009,17 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 			to_append = _interpolate_conditionals(ctext, to_render + num_read, &conditional_readahead, &all_regex);
 
 			if (conditional_readahead == 0) {
+				const char terminator = current_line.data[current_line.size - 1];
 				to_append = _interpolate_line(ctext, current_line, &all_regex);
 				num_read += current_line.size;
+				ends_with_terminator = to_append.size > 0 && to_append.data[to_append.size - 1] == terminator;
 			} else {
 				num_read += conditional_readahead;
+				ends_with_terminator = 0;
 			}
 		} else {
 			num_read += loop_readahead;
+			ends_with_terminator = 0;
 		}
 
 		/* Fuck this */
@@ -1036,7 +1041,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
 	if (outsize)
-		*outsize = intermediate_outsize ? intermediate_outsize - 1 : 0;
+		*outsize = ends_with_terminator ? intermediate_outsize - 1 : intermediate_outsize;
 	return rendered;
 
 error:
-- 
2.43.0


From c36297d9f762169332b1a96760c5e7d9e594a8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 34/43] fix: looping over sub contexts freed them

A second loop over the same array (or a second render) used freed
memory. They are now freed with the array that holds them.
---
 src/greshunkel.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 9fa3a28..1108dd2 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -230,6 +230,12 @@ int gshkl_add_string_to_loop(greshunkel_var *loop, const char *value) {
 
 static inline void _gshkl_free_arr(greshunkel_tuple *to_free) {
 	assert(to_free->type == GSHKL_ARR);
+	unsigned int i;
+	for (i = 0; i < to_free->value.arr->count; i++) {
+		greshunkel_tuple *next = (greshunkel_tuple *)vector_get(to_free->value.arr, i);
+		if (next->type == GSHKL_SUBCTEXT)
+			gshkl_free_context((struct greshunkel_ctext *)next->value.sub_ctext);
+	}
 	vector_free((vector *)to_free->value.arr);
 }
 
@@ -665,6 +671,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 			}
 
 			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
+			/* Sub contexts still belong to the array, we'll need them again. */
+			_temp_ctext->values->count = 0;
 			gshkl_free_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
-- 
2.43.0


From b834259cbe8adb2b13d06f98eab7672152e1e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 35/43] fix: conditionals on sub contexts read past the
 variable name

---
 src/greshunkel.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 1108dd2..fefe566 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -795,7 +795,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 			memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
 			if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 				const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -872,7 +872,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -901,7 +901,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-- 
2.43.0


From 364074277c5b447a5685d87be6f7594b351107e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 36/43] fix: every string starting with FALSE was falsey

The documentation says the string FALSE.
---
 src/greshunkel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index fefe566..8a79cd7 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -704,7 +704,7 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 	}
 	if (!is_null) {
 		if (is_string) {
-			const int says_false = strncmp(tuple->value.str, "FALSE", strlen("FALSE")) == 0 ? 1 : 0;
+			const int says_false = strcmp(tuple->value.str, "FALSE") == 0 ? 1 : 0;
 			m38_log_msg(LOG_DEBUG, "_is_falsey: is_string SF: %i", says_false);
 			return says_false;
 		} else if (is_loop) {
@@ -735,7 +735,7 @@ static inline int _is_truthy(const greshunkel_tuple *tuple) {
 
 	if (!is_null) {
 		if (is_string) {
-			const int says_false = strncmp(tuple->value.str, "FALSE", strlen("FALSE")) == 0 ? 1 : 0;
+			const int says_false = strcmp(tuple->value.str, "FALSE") == 0 ? 1 : 0;
 			m38_log_msg(LOG_DEBUG, "_is_truthy: !is_null is_string SF: %i", !says_false);
 			return !says_false;
 		} else if (is_loop) {
-- 
2.43.0


From a5b25d8682d5b06d8d5f17417aff4ba50a4090f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 37/43] fix: empty strings were neither truthy nor falsey

Both UNLESS and UNLESS NOT left their body out.
---
 src/greshunkel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8a79cd7..87a67a0 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -716,8 +716,8 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 		return !is_subcontext;
 	}
 
-	m38_log_msg(LOG_DEBUG, "_is_falsey: return 0");
-	return 0;
+	m38_log_msg(LOG_DEBUG, "_is_falsey: return 1");
+	return 1;
 }
 
 static inline int _is_truthy(const greshunkel_tuple *tuple) {
-- 
2.43.0


From a9c7431f48e24427986c09f9da2c46ed85990cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:24 +0000
Subject: [PATCH 38/43] fix: an empty loop or conditional body swallowed the
 rest of the template

Up to the last terminator, because the greedy match was only cut back to
the closest one when the body wasn't empty.
---
 src/greshunkel.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 87a67a0..47fbb60 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -623,10 +623,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 		const char *closest_BBL = NULL;
 		closest_BBL = strstr(loop_meat.start, "xXx BBL xXx");
 		possible_dif = closest_BBL - buf;
-		if (possible_dif != (unsigned int)loop_meat.rm_so) {
-			loop_meat.rm_eo = possible_dif;
-			loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
-		}
+		loop_meat.rm_eo = possible_dif;
+		loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
 
 		/* We found a fucking loop, holy shit */
 		*num_read = loop_meat.rm_eo + strlen("xXx BBL xXx");
@@ -769,10 +767,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
@@ -849,10 +845,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
-- 
2.43.0


From 2143926bfb7d785c253190df17d825b9f7cba9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 39/43] fix: included files of 2048 bytes and up overflowed the
 stack and were cut

---
 src/greshunkel.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 47fbb60..28b8d3c 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -517,9 +517,8 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 
 
 		/* Open the file here. */
-		/* TODO: Make this actually the whole size of the file, not just a random buffer. */
-		char template_file[2048] = {0};
-		size_t template_file_siz = 0;
+		char *template_file = NULL;
+		size_t template_file_siz = 0, just_read = 0;
 		FILE *include_file = fopen(just_match_str, "r");
 		if (!include_file) {
 			/* If we couldn't open the file, blow up with an assertion. */
@@ -528,12 +527,18 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 			assert(1 == 0);
 		}
 
-		template_file_siz = fread(template_file, 1, sizeof(template_file), include_file);
+		do {
+			template_file = realloc(template_file, template_file_siz + MAX_GSHKL_STR_SIZE + 1);
+			assert(template_file != NULL);
+			just_read = fread(template_file + template_file_siz, 1, MAX_GSHKL_STR_SIZE, include_file);
+			template_file_siz += just_read;
+		} while (just_read == MAX_GSHKL_STR_SIZE);
 		fclose(include_file);
 		template_file[template_file_siz] = '\0';
 
 		line rendered_piece = {0};
 		rendered_piece.data = gshkl_render(ctext, template_file, template_file_siz, &rendered_piece.size);
+		free(template_file);
 
 		free(interpolated_line.data);
 		interpolated_line.size = rendered_piece.size;
-- 
2.43.0


From 724a56454f51100d69a8d76985f89f5692bde102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 40/43] fix: double free (and leaks) for lines with a variable
 and an include

The substituted line was freed once when the include replaced it and
again because the filtered line differed from it.
---
 src/greshunkel.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 28b8d3c..da434e8 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -596,11 +596,14 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
-
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
-	if (filtered_line.data != interpolated_line.data && interpolated_line.data != NULL)
+
+	/* Free every intermediate line that is neither the caller's nor the result. */
+	if (included_line.data != operating_line->data && included_line.data != filtered_line.data)
+		free(included_line.data);
+	if (_operating_line.data != operating_line->data && _operating_line.data != current_line.data)
+		free(_operating_line.data);
+	if (operating_line->data != current_line.data && operating_line->data != filtered_line.data)
 		free(operating_line->data);
 
 	return filtered_line;
-- 
2.43.0


From d08cd0073c24e1dccfb9545c38c7b26918d9ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 41/43] fix: a filter without argument got the rest of the line
 when another one followed

---
 src/greshunkel.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index da434e8..0447423 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -356,10 +356,11 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 
 		if ((filter = find_needle(ctext, just_match_str, 0))) {
 
-			const size_t new_len = start_of_first_XxX - argument.start;
-
-			/* Render the argument out so we can pass it to the filter function. */
-			char *rendered_argument = strndup(argument.start, new_len);
+			/* Render the argument out so we can pass it to the filter function. When the
+			 * filter ends before the match does its argument, it doesn't have one. */
+			char *rendered_argument = NULL;
+			if (start_of_first_XxX >= argument.start)
+				rendered_argument = strndup(argument.start, start_of_first_XxX - argument.start);
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0


From 5186e73caa8b6ef7b0344a045b9cd86290d3abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 42/43] fix: keep the whole header block when it contains a
 zero byte

---
 src/parse.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 412bb42..a89d2f7 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -170,7 +170,11 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 		goto error;
 	}
 
-	out->full_header = strndup((char *)to_read, header_length);
+	/* Not strndup(3), a zero byte in the headers would cut them short. */
+	out->full_header = calloc(1, header_length + 1);
+	if (!out->full_header)
+		goto error;
+	memcpy(out->full_header, to_read, header_length);
 	out->header_len = header_length;
 
 	return 0;
-- 
2.43.0


From 387249da34aded34bf06cd2abb89226eda4a7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 43/43] fix: conditionals on long dotted names overflowed the
 stack

---
 src/greshunkel.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 0447423..038999a 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -797,8 +797,11 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			}
 		} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 			/* TODO: Check sub-context. */
-			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
+			/* The name is as long as the template makes it. */
+			char sub_context_name[sizeof(just_match_str)];
+			char sub_item_name[sizeof(just_match_str)];
+			memset(sub_context_name, 0, sizeof(sub_context_name));
+			memset(sub_item_name, 0, sizeof(sub_item_name));
 			memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
 			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
@@ -872,8 +875,11 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		if (!(tuple = find_needle(ctext, just_match_str, 1))) {
 			if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 				/* TODO: Check sub-context. */
-				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
+				/* The name is as long as the template makes it. */
+				char sub_context_name[sizeof(just_match_str)];
+				char sub_item_name[sizeof(just_match_str)];
+				memset(sub_context_name, 0, sizeof(sub_context_name));
+				memset(sub_item_name, 0, sizeof(sub_item_name));
 				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
 				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
@@ -901,8 +907,11 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				should_render = 1;
 			} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 				/* TODO: Check sub-context. */
-				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
+				/* The name is as long as the template makes it. */
+				char sub_context_name[sizeof(just_match_str)];
+				char sub_item_name[sizeof(just_match_str)];
+				memset(sub_context_name, 0, sizeof(sub_context_name));
+				memset(sub_item_name, 0, sizeof(sub_item_name));
 				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
 				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
-- 
2.43.0


From 924475b80ef1b0d1b2f438ef3422c4134d625eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 01/46] fix: vec_extend keeps the full index and copies only
 the source's elements

---
 util/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 7e16479..ea8d269 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -236,10 +236,10 @@ void vec_append(vec* restrict self, const void* restrict src, size_t n)
 
 void vec_extend(vec* restrict dest, const vec* restrict src)
 {
-	int index = dest->size;
+	size_t index = dest->size;
 	vec_resize(dest, dest->size + src->size);
 	void* end = vec_at(dest, index);
-	size_t bytes = src->_elem_size * (src->size + 1);
+	size_t bytes = src->_elem_size * src->size;
 	memmove(end, vec_begin(src), bytes);
 }
 
-- 
2.43.0


From 9ad692c7749b596d9e29d3afe58545a4ecd02fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 02/46] fix: vec_insert_at and vec_erase_at accept a length of
 zero

---
 util/vec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/vec.c b/util/vec.c
index ea8d269..1d6f150 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -184,6 +184,9 @@ void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 
 void vec_insert_at(vec* restrict self, size_t idx, const void* begin, size_t len)
 {
+	if (len == 0) {
+		return;
+	}
 	void* pos = vec_at(self, idx);
 	const void* back = (const char*)begin + ((len - 1) * self->_elem_size);
 	vec_insert_iter(self, pos, begin, back);
@@ -212,6 +215,9 @@ void vec_erase_one(vec* restrict self, void* elem)
 
 void vec_erase_at(vec* restrict self, size_t index, size_t len)
 {
+	if (len == 0) {
+		return;
+	}
 	void* begin = vec_at(self, index);
 	const void* back = vec_at(self, index + len - 1);
 	vec_erase_iter(self, begin, back);
-- 
2.43.0


From 5c7c4f7adb1e416c51f57eaa53b5c31ef83fddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 03/46] fix: vec_insert_one recomputes the position after the
 block moved

---
 util/vec.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 1d6f150..189fb5f 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -174,9 +174,10 @@ void vec_insert_iter(vec* restrict self, void* pos, const void* begin, const voi
 
 void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 {
+	size_t idx = vec_get_idx_(self, pos);
 	vec_add_one(self);
-	size_t move_bytes =
-	        self->_elem_size * ((self->_alloc - 1) - vec_get_idx_(self, pos));
+	pos = vec_at(self, idx);
+	size_t move_bytes = self->_elem_size * ((self->_alloc - 1) - idx);
 
 	memmove((char*)pos + self->_elem_size, pos, move_bytes);
 	memcpy(pos, data, self->_elem_size);
-- 
2.43.0


From 1fda3b8d347006ab0aae033200b8c697f9287a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 04/46] fix: vec_set_iter copies whole elements

---
 util/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 189fb5f..a49998c 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -131,9 +131,9 @@ void* vec_add_one_front(vec* restrict self)
 	return vec_begin(self);
 }
 
-void vec_set_iter(vec* restrict _unused, void* pos, const void* begin, const void* back)
+void vec_set_iter(vec* restrict self, void* pos, const void* begin, const void* back)
 {
-	memcpy(pos, begin, (char*)back - (char*)begin + 1);
+	memcpy(pos, begin, (char*)back - (char*)begin + self->_elem_size);
 }
 
 void vec_set_one(vec* restrict self, void* pos, const void* restrict src)
-- 
2.43.0


From a5e6b2c4f952f9d0be33281bfcd8ca161c257660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 05/46] fix: vec_resize_and_zero zeroes new elements even
 without reallocation

---
 util/vec.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index a49998c..50ecaf1 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -82,9 +82,8 @@ void vec_resize(vec* restrict self, size_t size)
 void vec_resize_and_zero(vec* restrict self, size_t size)
 {
 	size_t org_size = self->size;
-	size_t org_alloc = self->_alloc;
 	vec_resize(self, size);
-	if (org_alloc == self->_alloc) {
+	if (size <= org_size) {
 		return;
 	}
 	void* new_shit = vec_at(self, org_size);
-- 
2.43.0


From 3179136c680b737cb570b792e059b5aada77677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 06/46] fix: an all-blank key trims to the empty key in the
 rtrim hash functions

---
 util/hashmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/hashmap.c b/util/hashmap.c
index 9a4b2af..cb7875b 100644
--- a/util/hashmap.c
+++ b/util/hashmap.c
@@ -412,7 +412,7 @@ _hash_nocase(const hashmap* restrict self, const char* restrict key, unsigned* r
 uint64_t
 _hash_rtrim(const hashmap* restrict self, const char* restrict key, unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
@@ -436,7 +436,7 @@ uint64_t _hash_nocase_rtrim(const hashmap* restrict self,
                             const char* restrict key,
                             unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
-- 
2.43.0


From f0c7fe174e34ea78cc43742589385d87bce666ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 07/46] fix: set_clear resets the element count

---
 util/hashmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/hashmap.c b/util/hashmap.c
index cb7875b..4537f8a 100644
--- a/util/hashmap.c
+++ b/util/hashmap.c
@@ -73,6 +73,7 @@ void set_destroy(set* restrict self)
 
 void set_clear(set* restrict self)
 {
+	self->values = NULL; /* element count, see set_nadd */
 	self->_keybuf_head = 0;
 	memset(self->_entries, -1, sizeof(struct hm_entry) * self->_limit);
 }
-- 
2.43.0


From 8dd0b2835727518184a55e0e0057af502864997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 08/46] fix: find and replace with an empty needle ends instead
 of looping

---
 util/stringy.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/stringy.c b/util/stringy.c
index 2f27d2e..c9d6ac0 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -210,6 +210,10 @@ const char* string_find_replace_one_limited(string* restrict s,
                                             unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	if (oldlen == 0) {
+		return vec_end(s);
+	}
+
 	char* begin = vec_at(s, begin_idx);
 	char* pos = memmem(begin, s->size - begin_idx, oldstr, oldlen);
 
@@ -274,6 +278,10 @@ const char* string_find_replace_one_nocase_limited(string* restrict s,
                                                    unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	if (oldlen == 0) {
+		return vec_end(s);
+	}
+
 	char* begin = vec_at(s, begin_idx);
 
 	/* We will assume oldstr is null terminated.
-- 
2.43.0


From 88e0a945464b7855052741536649c38c713d5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 09/46] fix: string_strncpy does not read past the limit and
 returns the length

---
 util/stringy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/stringy.c b/util/stringy.c
index c9d6ac0..e121738 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -141,12 +141,12 @@ size_t string_strncpy(string* restrict dest, const char* restrict src, size_t li
 {
 	string_resize(dest, limit);
 	size_t i = 0;
-	for (; src[i] != '\0' && i < limit; ++i) {
+	for (; i < limit && src[i] != '\0'; ++i) {
 		((char*)dest->data)[i] = src[i];
 	}
 	string_resize(dest, i);
 	_null_terminate_(dest);
-	return i - 1;
+	return i;
 }
 
 size_t string_sprintf(string* restrict s, const char* restrict fmt, ...)
-- 
2.43.0


From 3b3383c948b7dc540cb39256cabaa50356abbf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 10/46] fix: string_append keeps the string NUL-terminated

---
 util/stringy.c | 6 ++++++
 util/stringy.h | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/stringy.c b/util/stringy.c
index e121738..c4d0060 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -99,6 +99,12 @@ void string_append_stringview(string* restrict dest, const struct stringview* re
 	_null_terminate_(dest);
 }
 
+void string_append(string* restrict dest, const string* restrict src)
+{
+	vec_extend(dest, src);
+	_null_terminate_(dest);
+}
+
 void string_push_back(string* restrict s, char c)
 {
 	char* back = vec_add_one(s);
diff --git a/util/stringy.h b/util/stringy.h
index f4aa014..d252fcd 100644
--- a/util/stringy.h
+++ b/util/stringy.h
@@ -34,7 +34,6 @@ string* string_construct_take(string* restrict, char* restrict);
 #define string_destroy(s_)         vec_destroy(s_)
 #define string_get(s_)             vec_begin(s_)
 #define string_empty(s_)           vec_empty(s_)
-#define string_append(src_, dest_) vec_extend(src_, dest_)
 
 /* stringview interface */
 void string_copy_from_stringview(string* restrict s, const struct stringview* restrict);
@@ -55,6 +54,7 @@ char* string_export(string* restrict);
 void string_clear(string* restrict);
 void string_resize(string* restrict, size_t);
 void string_copy(string* restrict dest, const string* restrict src);
+void string_append(string* restrict dest, const string* restrict src);
 
 
 /* Find and replace */
-- 
2.43.0


From 6b88f8e9b10c37c477cadbfef4e624498096a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:56 +0000
Subject: [PATCH 11/46] fix: charncount read one byte past its limit

---
 util/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.c b/util/util.c
index 5a35710..0d14a55 100644
--- a/util/util.c
+++ b/util/util.c
@@ -53,7 +53,7 @@ int charncount(const char* restrict s, char c, unsigned n)
 {
 	int count = 0;
 	unsigned i = 0;
-	for(; s[i] != '\0' && i < n; ++i)
+	for(; i < n && s[i] != '\0'; ++i)
 		if (s[i] == c)
 			++count;
 
-- 
2.43.0


From c086d781bb69278afe5ca0709d757912b119b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:11 +0000
Subject: [PATCH 12/46] fix: bitvec_resize left stale bits in grown space

---
 util/vec.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 50ecaf1..c83aa72 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -303,20 +303,17 @@ void bitvec_reserve(bitvec* restrict self, size_t size)
 
 void bitvec_resize(bitvec* restrict self, size_t size)
 {
-	size_t org_size = self->size / 32 + 1;
-	size_t org_alloc = self->_alloc;
+	size_t i = self->size;
 
 	if (size > self->size) {
 		bitvec_reserve(self, size);
 	}
 	self->size = size;
 
-	if (org_alloc == self->_alloc) {
-		return;
+	/* new bits read as false */
+	for (; i < size; ++i) {
+		bitvec_set(self, i, false);
 	}
-	void* new_shit = vec_at(self, org_size);
-	size_t new_shit_size = self->_alloc - org_size;
-	memset(new_shit, 0, new_shit_size * self->_elem_size);
 }
 
 void bitvec_push_back(bitvec* restrict self, bool val)
-- 
2.43.0


From d4dad5cbce7dd5f16e755c4b8cd9edff50500fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:57 +0000
Subject: [PATCH 13/46] fix: flex_resize left items it added undefined

---
 util/flex.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/util/flex.c b/util/flex.c
index 3145389..b11b278 100644
--- a/util/flex.c
+++ b/util/flex.c
@@ -59,10 +59,9 @@ void flex_reserve(flex* restrict self, size_t size)
 
 void flex_resize(flex* restrict self, size_t size)
 {
-	if (size > self->_pairs.size) {
-		vec_resize(&self->_pairs, size);
-		return;
-	}
+	/* new items are empty */
+	for (; self->_pairs.size < size;
+	       flex_push_back(self, "", 0));
 	for (; self->_pairs.size > size;
 	       flex_pop_back(self));
 }
-- 
2.43.0


From 8f12e80ffad48d0d31c75fee181953dfb7319170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:09 +0000
Subject: [PATCH 14/46] fix: fifo_receivable promised room a fifo does not have

---
 util/fifo.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index a4c5639..cdc9305 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -110,8 +110,12 @@ bool fifo_is_full(const fifo* restrict self)
 
 unsigned fifo_receivable(fifo* restrict self)
 {
-	unsigned avail = fifo_available(self);
-	return self->buf->size - avail - self->input_count;
+	/* one slot always stays empty and each
+	 * input may have one item on its way
+	 */
+	unsigned inputs = (self->input_count) ? self->input_count : 1;
+	unsigned unusable = fifo_available(self) + inputs;
+	return (unusable < self->buf->size) ? self->buf->size - unusable : 0;
 }
 
 void fifo_set_full(fifo* restrict self)
-- 
2.43.0


From 0fae31888c42afda6f0f050e88e05bbfe3a72516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:09 +0000
Subject: [PATCH 15/46] fix: empty bulk transfers of a fifo copied the whole
 buffer

---
 util/fifo.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index cdc9305..517f458 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -162,7 +162,7 @@ int fifo_nget(fifo* restrict self,
 	transfer_count -= transfer_count % block_size;
 	unsigned new_tail = (self->tail + transfer_count) % self->buf->size;
 
-	if (new_tail == 0 || new_tail > self->tail) {
+	if (self->tail + transfer_count <= self->buf->size) {
 		//vec_append(buffer, vec_at(self->buf, self->tail), new_tail - self->tail);
 		vec_append(buffer, vec_at(self->buf, self->tail), transfer_count);
 	} else {
@@ -255,7 +255,7 @@ void fifo_nadd(fifo* restrict self, vec* restrict src)
 	unsigned transfer_count = (receivable < src->size) ? receivable : src->size;
 	unsigned new_head = (self->head + transfer_count) % self->buf->size;
 
-	if (new_head == 0 || new_head > self->head) {
+	if (self->head + transfer_count <= self->buf->size) {
 		vec_set_at(self->buf, self->head, vec_begin(src), transfer_count);
 	} else {
 		unsigned transfer1 = self->buf->size - self->head;
@@ -294,7 +294,7 @@ int fifo_nadd_try(fifo* restrict self, vec* restrict src)
 	unsigned transfer_count = (receivable < src->size) ? receivable : src->size;
 	unsigned new_head = (self->head + transfer_count) % self->buf->size;
 
-	if (new_head == 0 || new_head > self->head) {
+	if (self->head + transfer_count <= self->buf->size) {
 		vec_set_at(self->buf, self->head, vec_begin(src), transfer_count);
 	} else {
 		unsigned transfer1 = self->buf->size - self->head;
-- 
2.43.0


From 28f5a2ae783b963de1dc7d9cab546a4d66c80a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 16/46] fix: dgraph: room for every pending node of a traversal

---
 util/dgraph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/dgraph.c b/util/dgraph.c
index e5eee76..1869e67 100644
--- a/util/dgraph.c
+++ b/util/dgraph.c
@@ -159,7 +159,8 @@ void dgraph_traverse_reset(dgraph* restrict self)
 {
 	dgraph_get_roots(self);
 
-	fifo_resize(self->_trav, self->nodes->size);
+	/* every node may be pending at the same time */
+	fifo_resize(self->_trav, self->nodes->size + 1);
 
 	/* we are going to enter the first root manually */
 	self->_root_idx = 1;
-- 
2.43.0


From 1a7c9f2264dd737b224c45a0a3db78b5612d39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 17/46] fix: dgraph: traversing a graph without roots read an
 empty list

---
 util/dgraph.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/dgraph.c b/util/dgraph.c
index 1869e67..745e0a9 100644
--- a/util/dgraph.c
+++ b/util/dgraph.c
@@ -171,8 +171,10 @@ void dgraph_traverse_reset(dgraph* restrict self)
 	}
 
 	/* start at first discovered root */
-	it = vec_begin(self->_roots);
-	fifo_add(self->_trav, it);
+	if (!vec_empty(self->_roots)) {
+		it = vec_begin(self->_roots);
+		fifo_add(self->_trav, it);
+	}
 }
 
 dnode* dgraph_traverse(dgraph* restrict self)
-- 
2.43.0


From c3e9f7bf0e526b8b3041423f93ecac4998501085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 18/46] fix: dgraph: traversal returned nodes with several
 inputs more than once

---
 util/dgraph.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/dgraph.c b/util/dgraph.c
index 745e0a9..ddedfab 100644
--- a/util/dgraph.c
+++ b/util/dgraph.c
@@ -192,7 +192,13 @@ dnode* dgraph_traverse(dgraph* restrict self)
 	}
 
 	dnode** node = fifo_get(self->_trav);
-	++(*node)->visit_count;
+
+	/* a node with several inputs may have been
+	 * entered again before its turn came
+	 */
+	if ((*node)->visit_count++ > 0) {
+		return dgraph_traverse(self);
+	}
 
 	if ((*node)->out[0] != NULL && !(*node)->out[0]->visit_count) {
 		fifo_add(self->_trav, &(*node)->out[0]);
-- 
2.43.0


From 8648019095c21a8f1a27cbce7fac4f0f98334425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 19/46] fix: addition, subtraction and multiplication at the
 most negative integer

---
 lib/misc.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/misc.h b/lib/misc.h
index 60d8c4e..f3b4a6d 100644
--- a/lib/misc.h
+++ b/lib/misc.h
@@ -43,8 +43,7 @@
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		} else if (n0_ < 0 && n1_ < 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)-n1_  \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		           && n1_ < LONG_MIN - n0_) {                    \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
@@ -53,14 +52,12 @@
 
 #define overflow_safe_minus_i(n0_, n1_)                                  \
 	({                                                               \
-		if (n0_ > 0 && n1_ < 0                                   \
-		    && (unsigned long)n0_ + (unsigned long)-n1_          \
-		               > (unsigned long)LONG_MAX) {              \
+		if (n0_ >= 0 && n1_ < 0                                  \
+		    && n0_ > LONG_MAX + n1_) {                           \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		} else if (n0_ < 0 && n1_ > 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)n1_   \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		           && n0_ < LONG_MIN + n1_) {                    \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
@@ -73,13 +70,13 @@
 		unsigned long u1_ = 0;                                   \
 		bool neg_ = false;                                       \
 		if (n0_ < 0) {                                           \
-			u0_ = n0_ * -1;                                  \
+			u0_ = -(unsigned long)n0_;                       \
 			neg_ = true;                                     \
 		} else {                                                 \
 			u0_ = n0_;                                       \
 		}                                                        \
 		if (n1_ < 0) {                                           \
-			u1_ = n1_ * -1;                                  \
+			u1_ = -(unsigned long)n1_;                       \
 			neg_ = !neg_;                                    \
 		} else {                                                 \
 			u1_ = n1_;                                       \
-- 
2.43.0


From bfc9460daba40da8153e6a6ae537895a478ae621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 20/46] fix: integer division and modulo trap

---
 lib/scalarfn.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index a18502c..aa4c7b3 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -485,6 +485,11 @@ int fql_op_divi_i(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
+	if (n0 == LONG_MIN && n1 == -1) {
+		fputs("arithmetic overflow detected\n", stderr);
+		return FQL_FAIL;
+	}
+
 	ret->i = n0 / n1;
 
 	return FQL_GOOD;
@@ -516,7 +521,13 @@ int fql_op_mod_i(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_int(&n0, args[0], rg));
 	try_deref_(expression_get_int(&n1, args[1], rg));
 
-	ret->i = n0 % n1;
+	if (n1 == 0) {
+		fputs("division by zero\n", stderr);
+		return FQL_FAIL;
+	}
+
+	/* LONG_MIN % -1 traps */
+	ret->i = (n1 == -1) ? 0 : n0 % n1;
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From de9dcde0030a527e990e9b4999c03caa616f1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 21/46] fix: reverse UTF-8 scan read before the text

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index aa4c7b3..87e9765 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -42,7 +42,7 @@ int _get_rev_byte_count(const char* s, unsigned limit)
 	}
 
 	int i = 0;
-	for (; (s[i] & 0xC0) == 0x80 && -i < (int)limit; --i)
+	for (; -i < (int)limit && (s[i] & 0xC0) == 0x80; --i)
 		;
 
 	if (-i >= (int)limit) {
-- 
2.43.0


From d6f694034919d610f18cc2f2b12089693b5100f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 22/46] fix: CAST AS CHAR with a negative length

---
 lib/scalarfn.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 87e9765..d6709cc 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -112,6 +112,11 @@ int fql_cast_char(function* fn, union field* ret, node* rg)
 	stringview sv;
 	try_deref_(expression_get_stringview(&sv, *arg, rg));
 
+	if (fn->args->size == 2 && len < 0) {
+		fprintf(stderr, "Invalid length value `%ld'\n", len);
+		return FQL_FAIL;
+	}
+
 	if (len == -1) {
 		string_strncpy(ret->s, sv.data, sv.len);
 		return FQL_GOOD;
-- 
2.43.0


From 7bc602c7a7a119ffe1dff7738a8d93569a0e0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 23/46] fix: CAST AS CHAR with a length of 4 GB and more

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index d6709cc..83551f4 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -127,7 +127,7 @@ int fql_cast_char(function* fn, union field* ret, node* rg)
 
 	/* At this point, we have a string of length < len */
 	string_strncpy(ret->s, sv.data, sv.len);
-	while (ret->s->size < (unsigned)len) {
+	while (ret->s->size < (size_t)len) {
 		string_push_back(ret->s, ' ');
 	}
 
-- 
2.43.0


From ca237802947f2e7a89376c022e11bfd1400dea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 24/46] fix: RIGHT with a count beyond the text read past it

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 83551f4..7b9b722 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -236,7 +236,7 @@ int fql_right(function* fn, union field* ret, node* rg)
 	}
 
 	if (n > sv.len) {
-		string_strncpy(ret->s, sv.data, n);
+		string_strncpy(ret->s, sv.data, sv.len);
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From 1f57839d642c3ddef9647223b73a5d1cb39eab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 25/46] fix: SUBSTRING with a start before the text or a huge
 length

---
 lib/scalarfn.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 7b9b722..896c3d7 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -267,7 +267,6 @@ int fql_substring(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_stringview(&sv, args[0], rg));
 	long start = 0;
 	try_deref_(expression_get_int(&start, args[1], rg));
-	--start;
 	long n = 0;
 	try_deref_(expression_get_int(&n, args[2], rg));
 
@@ -276,6 +275,13 @@ int fql_substring(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
+	/* characters before the text are not there to be selected */
+	if (start < 1) {
+		n = (start < 1 - n) ? 0 : n + start - 1;
+		start = 1;
+	}
+	--start;
+
 	unsigned idx = 0;
 	int bytes = 0;
 	unsigned byte_count = 0;
@@ -288,11 +294,7 @@ int fql_substring(function* fn, union field* ret, node* rg)
 		}
 	}
 
-	if (start < 0) {
-		n += start;
-	}
-
-	if (idx + n > sv.len) {
+	if (n > sv.len - idx) {
 		string_strncpy(ret->s, &sv.data[idx], sv.len - idx);
 		return FQL_GOOD;
 	}
-- 
2.43.0


From ef2bfe76dfb9235661d4af6702b6a636bb582389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 26/46] fix: REPLACE read one byte beyond the text sought

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 896c3d7..d4884b9 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -342,7 +342,7 @@ int fql_replace(function* fn, union field* ret, node* rg)
 
 	/* If we've made it this far, needle may not be a NULL terminated string... allocate a copy =( */
 	char* needle_cpy = malloc_(needle.len + 1);
-	strncpy_(needle_cpy, needle.data, needle.len + 1);
+	strncpy_(needle_cpy, needle.data, needle.len);
 	string_find_replace_nocase_limited(ret->s,
 	                                   needle_cpy,
 	                                   replacement.data,
-- 
2.43.0


From ae47be1cb2acca3b4f1efe02154792a1145dec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 27/46] fix: IN skips NULL items instead of giving up at the
 first

---
 lib/fqllogic.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 6090b63..6f1f340 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -184,7 +184,9 @@ int fql_logic_in_i(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		long n1 = 0;
-		try_logic_deref_(expression_get_int(&n1, *it, rg));
+		if (try_(expression_get_int(&n1, *it, rg)) == FQL_NULL) {
+			continue;
+		}
 		if (n0 == n1) {
 			return true;
 		}
@@ -202,7 +204,9 @@ int fql_logic_in_f(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		double n1 = 0;
-		try_logic_deref_(expression_get_float(&n1, *it, rg));
+		if (try_(expression_get_float(&n1, *it, rg)) == FQL_NULL) {
+			continue;
+		}
 		if (n1 == n0) {
 			return true;
 		}
@@ -220,7 +224,9 @@ int fql_logic_in_s(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		stringview sv1;
-		try_logic_deref_(expression_get_stringview(&sv1, *it, rg));
+		if (try_(expression_get_stringview(&sv1, *it, rg)) == FQL_NULL) {
+			continue;
+		}
 		if (!stringview_compare_nocase_rtrim(&sv0, &sv1)) {
 			return true;
 		}
-- 
2.43.0


From db886a4517f53730a1aff6b348b7ab91a906f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 28/46] fix: an unmatched CASE without ELSE is NULL, not 0

---
 lib/expression.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 5454a27..becd071 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -384,8 +384,7 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		*ret = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_int(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_int(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = *self->rownum_ref;
 		return FQL_GOOD;
@@ -453,8 +452,7 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		*ret = -0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_float(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_float(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = (double)*self->rownum_ref;
 		return FQL_GOOD;
@@ -522,8 +520,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		ret->len = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_stringview(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_stringview(self->field.sc, ret, rg);
 	case EXPR_FULL_RECORD: {
 		record* rec = record_at(rg, self->src_idx);
 		if (rec == NULL) {
-- 
2.43.0


From 3608f747bba813a6fcea209bb290811591768bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:17 +0000
Subject: [PATCH 29/46] fix: a text that is no number stays a text

---
 lib/field.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/field.c b/lib/field.c
index 9192b03..a977e47 100644
--- a/lib/field.c
+++ b/lib/field.c
@@ -43,11 +43,11 @@ int field_to_int(long* ret, union field* field, enum field_type* type)
 		field->i = (long)field->f;
 		break;
 	case FIELD_STRING:
-		*type = FIELD_INT;
 		long val = 0;
 		if (str2long(&val, field->s->data)) {
 			return FQL_FAIL;
 		}
+		*type = FIELD_INT;
 		field->i = val;
 		break;
 	default:
@@ -67,11 +67,11 @@ int field_to_float(double* ret, union field* field, enum field_type* type)
 		field->f = (double)field->i;
 		break;
 	case FIELD_STRING:
-		*type = FIELD_FLOAT;
 		double val = 0;
 		if (str2double(&val, field->s->data)) {
 			return FQL_FAIL;
 		}
+		*type = FIELD_FLOAT;
 		field->f = val;
 		break;
 	default:
-- 
2.43.0


From 4bc28a90906b9dd27fd76fce8e043d42c26f7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 30/46] fix: NOT in front of a condition is honoured

---
 lib/antlr/listenerinterface.cpp |  1 +
 lib/fqlplan.c                   |  3 +++
 lib/logic.c                     |  9 ++++++---
 lib/query.c                     | 11 +++++++++--
 lib/query.h                     |  2 ++
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 18cc1d3..6cebc13 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -866,6 +866,7 @@ void ListenerInterface::exitSubquery(TSqlParser::SubqueryContext * ctx)
 
 void ListenerInterface::enterSearch_condition(TSqlParser::Search_conditionContext * ctx)
 {
+	query_enter_search_not(_query, ctx->NOT().size());
 	if (ctx->LR_BRACKET() && ctx->RR_BRACKET()) {
 		return;
 	}
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 87a1037..2d2af1a 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -211,6 +211,9 @@ void plan_reset(plan* self)
  */
 int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 {
+	if (lg->type != LG_PREDICATE && lg->negation) {
+		string_strcat(logic_proc->plan_msg, "NOT ");
+	}
 	switch (lg->type) {
 	case LG_OR:
 		string_strcat(logic_proc->plan_msg, "OR(");
diff --git a/lib/logic.c b/lib/logic.c
index 24844e8..cbbefe8 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -213,10 +213,13 @@ int logicgroup_eval(logicgroup* self, node* rg, logic* skip)
 	ret = try_(logicgroup_eval(self->items[0], rg, skip));
 
 	/* Check for short circuit */
-	if ((self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {
-		return ret;
+	if ((self->type == LG_AND && ret) || (self->type == LG_OR && !ret)) {
+		ret = try_(logicgroup_eval(self->items[1], rg, skip));
+	}
+	if (self->negation) {
+		return !ret;
 	}
-	return logicgroup_eval(self->items[1], rg, skip);
+	return ret;
 }
 
 /* essentially the same as logicgroup_eval.
diff --git a/lib/query.c b/lib/query.c
index f8e515b..f809a9d 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -989,7 +989,7 @@ void query_set_logic_comparison(query* self, const char* op)
 void query_set_logic_isnull(query* self, bool negation)
 {
 	logicgroup* lg = self->logic_stack->data;
-	lg->negation = negation;
+	lg->negation ^= negation;
 	logic* logic = lg->condition;
 	logic_set_comparison(logic, "NULL");
 }
@@ -1023,6 +1023,11 @@ void _assign_logic(query* self, logicgroup* lg)
 	}
 }
 
+void query_enter_search_not(query* self, unsigned negation)
+{
+	self->next_logic_negation ^= (negation % 2);
+}
+
 void query_enter_search_or(query* self)
 {
 	_add_logic_item(self, LG_OR);
@@ -1041,7 +1046,7 @@ void query_exit_search_item(query* self)
 void query_enter_predicate(query* self, unsigned negation, bool in)
 {
 	logicgroup* lg = _add_logic_item(self, LG_PREDICATE);
-	lg->negation = (negation % 2);
+	lg->negation ^= (negation % 2);
 
 	if (in) {
 		query_enter_in_statement(self);
@@ -1214,6 +1219,8 @@ int _distribute_expression(query* self, expression* expr)
 logicgroup* _add_logic_item(query* self, enum logicgroup_type type)
 {
 	logicgroup* lg = new_(logicgroup, type);
+	lg->negation = self->next_logic_negation;
+	self->next_logic_negation = false;
 
 	if (self->logic_stack == NULL) {
 		if (self->mode != MODE_CASE) {
diff --git a/lib/query.h b/lib/query.h
index 282b590..6a2e56a 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -177,6 +177,7 @@ struct query {
 	enum mode mode_store;
 	enum logic_mode logic_mode;
 	enum join_type join;
+	bool next_logic_negation; /* NOT in front of the next logic item */
 	bool in_assignment_function;
 	bool in_bracket_expression; /* boolean for whether we are in a
 	                             * bracket expression or not
@@ -276,6 +277,7 @@ int query_exit_switch_search(struct query*);
 void query_set_logic_comparison(struct query*, const char*);
 void query_set_logic_isnull(struct query*, bool negation);
 void query_enter_search_or(struct query*);
+void query_enter_search_not(struct query*, unsigned negation);
 void query_enter_search_and(struct query*);
 void query_exit_search_item(struct query*);
 void query_enter_predicate(struct query*, unsigned negation, bool in);
-- 
2.43.0


From 46f5ccc7bb564068dd47248685e26adbb907b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 31/46] fix: a negated equality is no hash join condition

---
 lib/logic.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/logic.c b/lib/logic.c
index cbbefe8..4eb8c35 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -225,8 +225,9 @@ int logicgroup_eval(logicgroup* self, node* rg, logic* skip)
 /* essentially the same as logicgroup_eval.
  * All logic is assumed true except the one provided.
  * the point is to determine if that logic MUST be
- * true for the group to evaluate to true. I believe
- * ignoring negation here is correct. The purpose
+ * true for the group to evaluate to true. A negated
+ * condition holds when the logic is false. A negated
+ * group is assumed to be able to hold. The purpose
  * being, if it must be true, it is a candidate for
  * hash join logic.
  */
@@ -234,10 +235,13 @@ int logic_can_be_false(logicgroup* self, logic* check_logic)
 {
 	if (self->type == LG_PREDICATE) {
 		if (self->condition == check_logic) {
-			return 0;
+			return self->negation;
 		}
 		return 1;
 	}
+	if (self->negation) {
+		return 1;
+	}
 
 	int ret = 0;
 	ret = logic_can_be_false(self->items[0], check_logic);
-- 
2.43.0


From 9ecb2b69b45c6251111d42047deaec49685b6b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 32/46] fix: an operand of unknown kind may depend on any
 source of a join

---
 lib/schema.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index d65dd62..75adb87 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -784,8 +784,12 @@ enum join_side _get_join_side(expression* expr, int right_idx)
 		}
 		return side0;
 	}
-	default:
+	case EXPR_CONST:
+	case EXPR_NULL:
 		return SIDE_UNDEF;
+	default:
+		/* could depend on any source */
+		return SIDE_MIXED;
 	}
 }
 
@@ -804,7 +808,11 @@ void _resolve_join_conditions(table* right_table, int right_idx)
 			continue;
 		}
 		enum join_side side1 = _get_join_side((*it)->expr[1], right_idx);
-		if (side0 != side1) {
+		if (side1 == SIDE_MIXED) {
+			continue;
+		}
+		/* one operand for each side of the join */
+		if ((side0 == SIDE_RIGHT) != (side1 == SIDE_RIGHT)) {
 			if (!logic_can_be_false(right_table->condition, *it)) {
 				right_table->condition->join_logic = *it;
 				hashjoin* hj = new_(hashjoin);
-- 
2.43.0


From 1adc99583f93e7a20b35dd2074d0a9c8dcdf4a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 33/46] fix: a NULL text among the ORDER BY keys sorts as the
 empty text

---
 lib/order.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/order.c b/lib/order.c
index 1830756..228839a 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -236,7 +236,10 @@ int order_add_record(order* self, node* rg)
 		}
 		case FIELD_STRING: {
 			stringview sv;
-			try_(expression_get_stringview(&sv, exprs[i], rg));
+			if (try_(expression_get_stringview(&sv, exprs[i], rg))
+			    == FQL_NULL) {
+				stringview_nset(&sv, "", 0);
+			}
 			flex_push_back(&self->order_data, (void*)sv.data, sv.len);
 			break;
 		}
-- 
2.43.0


From 76b5c96272665aa0393ebfea96daaf44d1abea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 34/46] fix: rows sorted for the API respect TOP 0

---
 lib/order.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/order.c b/lib/order.c
index 228839a..894b6fd 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -311,7 +311,8 @@ int _order_select(order* self, process* proc)
 
 int _order_select_api(order* self, process* proc)
 {
-	if (self->entry_iter == vec_end(&self->entries)) {
+	if (self->entry_iter == vec_end(&self->entries)
+	    || proc->rows_affected >= self->top_count) {
 		return 0;
 	}
 	size_t offset = self->entry_iter->offset;
-- 
2.43.0


From ae0b5a0dde74e2c63b012f6fecea14f17eedcce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 35/46] fix: a sorted subquery's value has the type of the
 value selected

---
 lib/fqlselect.c | 5 +++++
 lib/order.c     | 5 ++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 9b190ec..8d6f363 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -486,6 +486,11 @@ int _select_record_order_api(fqlselect* self, node* rg)
 	rec->offset = self->offset;
 	self->offset += len;
 
+	if (self->const_dest != NULL) {
+		/* tell the ORDER BY what it will read back */
+		self->const_dest->field_type = exprs[0]->field_type;
+	}
+
 	return 1;
 }
 
diff --git a/lib/order.c b/lib/order.c
index 894b6fd..59ba404 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -360,13 +360,12 @@ int _order_select_to_const(order* self, process* proc)
 	}
 
 	struct _entry* first_ent = vec_begin(&self->entries);
-	expression* first_expr = *(expression**)vec_begin(&self->expressions);
 
+	/* the type is that of the value selected */
 	self->const_dest->expr = EXPR_CONST;
-	self->const_dest->field_type = first_expr->field_type;
 
 	size_t offset = first_ent->offset;
-	switch (first_expr->field_type) {
+	switch (self->const_dest->field_type) {
 	case FIELD_INT:
 		self->const_dest->field.i = *(long*)(&self->mmap[offset]);
 		break;
-- 
2.43.0


From ed03f3882c680e2d2e57805150c77c6d6c48cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 36/46] fix: sorting no rows leaves the API an iterator at the
 end

---
 lib/order.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 59ba404..cb654a2 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -393,6 +393,7 @@ int order_sort(order* self)
 {
 	vec_sort_r(&self->entries, &_compare, self);
 	self->sorted = true;
+	self->entry_iter = vec_begin(&self->entries);
 
 	self->fd = open(string_c_str(&self->in_filename), O_RDONLY);
 	if (self->fd == -1) {
@@ -420,7 +421,5 @@ int order_sort(order* self)
 	}
 	madvise(self->mmap, sb.st_size, MADV_RANDOM);
 
-	self->entry_iter = vec_begin(&self->entries);
-
 	return FQL_GOOD;
 }
-- 
2.43.0


From 4e7d325bfa47df6da7ee7365fa043945306166b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 37/46] fix: a NULL text among the values selected for ORDER BY
 is written as the empty text

---
 lib/fqlselect.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 8d6f363..af0eeb7 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -473,7 +473,10 @@ int _select_record_order_api(fqlselect* self, node* rg)
 		}
 		case FIELD_STRING: {
 			stringview sv;
-			try_(expression_get_stringview(&sv, exprs[i], rg));
+			if (try_(expression_get_stringview(&sv, exprs[i], rg))
+			    == FQL_NULL) {
+				stringview_nset(&sv, "", 0);
+			}
 			fwrite(&sv.len, sizeof(sv.len), 1, order_input);
 			fwrite(sv.data, 1, sv.len, order_input);
 			len += sizeof(sv.len) + sv.len;
@@ -562,6 +565,7 @@ int _select_record_to_const(fqlselect* self, node* rg)
 		stringview sv;
 		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
 			self->const_dest->expr = EXPR_NULL;
+			stringview_nset(&sv, "", 0);
 		}
 		string_copy_from_stringview(&self->const_dest->buf, &sv);
 		self->const_dest->field.s = &self->const_dest->buf;
-- 
2.43.0


From e5a64bd87ed0e8b8a1ad4656ff49b74c56ea6b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 38/46] fix: a subquery that first gives NULL gives one row too

---
 lib/fqlselect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index af0eeb7..9001cac 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -533,7 +533,8 @@ int _select_record_to_list(fqlselect* self, node* rg)
 int _select_record_to_const(fqlselect* self, node* rg)
 {
 	++self->rownum;
-	if (self->const_dest->expr == EXPR_CONST) {
+	if (self->const_dest->expr == EXPR_CONST
+	    || self->const_dest->expr == EXPR_NULL) {
 		fputs("subquery returned more than 1 value as expression\n", stderr);
 		return FQL_FAIL;
 	}
-- 
2.43.0


From cbac3a9b2c7920dbb65e8f08b47ebf6c1b2ca088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 39/46] fix: IN (SELECT ...) compares as its type does

---
 lib/fqllogic.c  |  1 +
 lib/fqlplan.c   |  4 +++-
 lib/fqlselect.c | 25 +++++++++++++++++++------
 lib/fqlselect.h |  3 ++-
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 6f1f340..c4ef324 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -246,6 +246,7 @@ int fql_logic_subin_f(logic* self, node* rg)
 {
 	double n0 = 0;
 	try_logic_deref_(expression_get_float(&n0, self->expr[0], rg));
+	n0 += 0.0; /* -0 equals 0 */
 	return set_nhas(self->in_data->list_data, (char*)&n0, sizeof(n0));
 }
 
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 2d2af1a..33d6928 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -180,7 +180,9 @@ int _subquery_inlist(plan* self, process* logic_proc, logicgroup* lg)
 {
 	query* subquery = lg->condition->in_data->subquery;
 	/* We can assume select because subquery */
-	try_(fqlselect_set_as_inlist(subquery->op, lg->condition->in_data));
+	try_(fqlselect_set_as_inlist(subquery->op,
+	                             lg->condition->in_data,
+	                             lg->condition->expr[0]));
 	lg->condition->comp_type = COMP_SUBIN;
 	process_add_to_wait_list(logic_proc, subquery->plan->op_true->data);
 	return FQL_GOOD;
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 9001cac..b5ba0b9 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -238,7 +238,7 @@ void fqlselect_apply_expression_alias(fqlselect* self, const char* alias)
 	schema_apply_expression_alias(self->schema, alias);
 }
 
-int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
+int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist, expression* left_side)
 {
 	if (self->schema->expressions->size == 1) {
 		expression** expr = vec_begin(self->schema->expressions);
@@ -250,7 +250,12 @@ int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
 		fputs("Only one expression can be specified in subquery\n", stderr);
 		return FQL_FAIL;
 	}
-	inlist->list_data = new_(set, 16, HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
+	/* numbers are stored in binary */
+	self->list_type = inlist_determine_type(inlist, left_side);
+	int props = (self->list_type == FIELD_STRING)
+	                    ? HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM
+	                    : HASHMAP_PROP_DEFAULT;
+	inlist->list_data = new_(set, 16, props);
 	self->list_data = inlist->list_data;
 	self->select__ = &_select_record_to_list;
 	return FQL_GOOD;
@@ -505,22 +510,30 @@ int _select_record_to_list(fqlselect* self, node* rg)
 	expression* expr =
 	        *(expression**)vec_begin(self->current_select->schema->expressions);
 
-	switch (expr->field_type) {
+	switch (self->list_type) {
 	case FIELD_INT: {
 		long num = 0;
-		try_(expression_get_int(&num, expr, rg));
+		if (try_(expression_get_int(&num, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_FLOAT: {
 		double num = 0;
-		try_(expression_get_float(&num, expr, rg));
+		if (try_(expression_get_float(&num, expr, rg)) == FQL_NULL
+		    || num != num) {
+			return 1;
+		}
+		num += 0.0; /* -0 equals 0 */
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_STRING: {
 		stringview sv;
-		try_(expression_get_stringview(&sv, expr, rg));
+		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, sv.data, sv.len);
 		return 1;
 	}
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index e810478..1f6a00d 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -18,6 +18,7 @@ struct fqlselect {
 	struct schema* schema;
 	struct writer* writer;
 	set* list_data;
+	enum field_type list_type;    /* what the values of list_data are compared as */
 	struct expression* const_dest;
 	struct node* union_selects;
 	struct node* _union_node;
@@ -42,7 +43,7 @@ void fqlselect_add_expression(struct fqlselect*, struct expression*);
 int fqlselect_connect_api(struct query*, struct vec*);
 void fqlselect_apply_process(struct query*, struct fqlplan*, bool);
 void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
-int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*);
+int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*, struct expression*);
 int fqlselect_resolve_type_from_subquery(struct expression*);
 int fqlselect_resolve_final_types(struct fqlselect*);
 void fqlselect_verify_must_run(struct fqlselect*);
-- 
2.43.0


From 87e012262f535c34d9b75345d8283ef15bcabe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 40/46] fix: cross join: do not send a row to a full output

---
 lib/fqlprocesses.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 1884d3d..714a4cb 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -303,6 +303,10 @@ enum proc_return fql_cartesian_join(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
+	if (!fifo_receivable(out)) {
+		return PROC_RETURN_WAIT_ON_OUT0;
+	}
+
 	table* table = proc->proc_data;
 	reader* reader = table->reader;
 
-- 
2.43.0


From 1471d72af0b4889f0a22dbabe097bf7504d12243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 41/46] fix: hash join: NULL equals nothing, -0 equals 0, NaN
 equals nothing

---
 lib/fqlprocesses.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 714a4cb..886fd37 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -371,24 +371,31 @@ enum proc_return _hash_join_right_side(process* proc, table* table, fifo* in_rig
 
 	node** rg_iter = fifo_begin(in_right);
 	for (; rg_iter != fifo_end(in_right); rg_iter = fifo_iter(in_right)) {
+		int ret = FQL_GOOD;
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			if (float_hold != float_hold) {
+				ret = FQL_NULL; /* NaN equals nothing */
+			}
+			float_hold += 0.0; /* -0 equals 0 */
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
 			break;
 		default:
 			return PROC_RETURN_FAIL;
 		}
 
 		record* rec = (*rg_iter)->data;
-		multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		if (ret != FQL_NULL) { /* NULL equals nothing */
+			multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		}
 
 		fqlprocess_recycle(proc, rg_iter);
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
@@ -406,22 +413,28 @@ long _hash_join_left_side(process* proc, table* table, node* left_rg)
 		long int_hold = 0;
 		double float_hold = 0;
 		stringview sv;
+		int ret = FQL_GOOD;
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
+			ret = try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
+			ret = try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
+			float_hold += 0.0; /* -0 equals 0 */
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
+			ret = try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
 			break;
 		default:
 			return FQL_FAIL;
 		}
 
+		if (ret == FQL_NULL) { /* NULL equals nothing */
+			return -1;
+		}
+
 		hj->recs = multimap_nget(hj->hash_data, sv.data, sv.len);
 		if (hj->recs == NULL) {
 			return -1;
-- 
2.43.0


From 65f06f216004ce50d540a0f76eadbf4669c0de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 42/46] fix: LEFT JOIN: do not send a row to a full output

---
 lib/fqlprocesses.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 886fd37..2fc3942 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -644,7 +644,7 @@ enum proc_return fql_left_join_logic(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
-	if (!out_true && !fifo_receivable(out_true)) {
+	if (!fifo_receivable(out_true)) {
 		return PROC_RETURN_WAIT_ON_OUT1;
 	}
 
@@ -674,7 +674,7 @@ enum proc_return fql_left_join_logic(process* proc)
 		fifo_add(out_true, rg_iter);
 
 		rg_iter = fifo_iter(in);
-		if (!out_true && !fifo_receivable(out_true)) {
+		if (!fifo_receivable(out_true)) {
 			ret = PROC_RETURN_WAIT_ON_OUT1;
 			break;
 		}
-- 
2.43.0


From d98230fc73fe6340dccea8b52c561a44a408d5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 43/46] fix: begin a hash join anew without the matches of the
 time before

---
 lib/table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/table.c b/lib/table.c
index d16a2c7..67a3e56 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -143,6 +143,7 @@ void hashjoin_reset(struct hashjoin* join)
 	if (join != NULL) {
 		multimap_clear(join->hash_data);
 		join->state = SIDE_RIGHT;
+		join->recs = NULL;
 	}
 }
 
-- 
2.43.0


From ad9405f8baa30d67610b3b407b94bbfc66d28867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:20 +0000
Subject: [PATCH 44/46] fix: an aggregate leaves NULL values out

---
 lib/aggregatefn.c | 40 ++++++++++++++++++++++++++++++----------
 lib/group.c       | 10 ++++++----
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/lib/aggregatefn.c b/lib/aggregatefn.c
index 0428268..2ded9df 100644
--- a/lib/aggregatefn.c
+++ b/lib/aggregatefn.c
@@ -13,7 +13,9 @@ int fql_min_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	if (try_(expression_get_int(&num, col, rg)) == FQL_NULL) {
+		return FQL_NULL;
+	}
 	if (result->qty == 0 || num < result->data.i) {
 		result->data.i = num;
 	}
@@ -24,7 +26,9 @@ int fql_min_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	if (try_(expression_get_float(&num, col, rg)) == FQL_NULL) {
+		return FQL_NULL;
+	}
 	if (result->qty == 0 || num < result->data.f) {
 		result->data.f = num;
 	}
@@ -35,7 +39,9 @@ int fql_min_s(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	stringview sv0 = {0};
-	try_(expression_get_stringview(&sv0, col, rg));
+	if (try_(expression_get_stringview(&sv0, col, rg)) == FQL_NULL) {
+		return FQL_NULL;
+	}
 
 	stringview sv1 = string_get_stringview(&result->data.s);
 	if (result->qty == 0
@@ -49,7 +55,9 @@ int fql_max_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	if (try_(expression_get_int(&num, col, rg)) == FQL_NULL) {
+		return FQL_NULL;
+	}
 	if (result->qty == 0 || num > result->data.i) {
 		result->data.i = num;
 	}
@@ -60,7 +68,9 @@ int fql_max_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	if (try_(expression_get_float(&num, col, rg)) == FQL_NULL) {
+		return FQL_NULL;
+	}
 	if (result->qty == 0 || num > result->data.f) {
 		result->data.f = num;
 	}
@@ -71,7 +81,9 @@ int fql_max_s(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	stringview sv0 = {0};
-	try_(expression_get_stringview(&sv0, col, rg));
+	if (try_(expression_get_stringview(&sv0, col, rg)) == FQL_NULL) {
+		return FQL_NULL;
+	}
 
 	stringview sv1 = string_get_stringview(&result->data.s);
 	if (result->qty == 0
@@ -85,7 +97,9 @@ int fql_sum_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	if (try_(expression_get_int(&num, col, rg)) == FQL_NULL) {
+		return FQL_NULL;
+	}
 
 	result->data.i = overflow_safe_add_i(result->data.i, num);
 	return FQL_GOOD;
@@ -95,7 +109,9 @@ int fql_sum_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	if (try_(expression_get_float(&num, col, rg)) == FQL_NULL) {
+		return FQL_NULL;
+	}
 
 	result->data.f += num;
 	return FQL_GOOD;
@@ -106,7 +122,9 @@ int fql_avg_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	/* auxdata is used here to keep track of a running total */
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	if (try_(expression_get_int(&num, col, rg)) == FQL_NULL) {
+		return FQL_NULL;
+	}
 
 	result->auxdata.i = overflow_safe_add_i(result->auxdata.i, num);
 	result->data.i = result->auxdata.i / (result->qty + 1);
@@ -119,7 +137,9 @@ int fql_avg_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	/* auxdata is used here to keep track of a running total */
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	if (try_(expression_get_float(&num, col, rg)) == FQL_NULL) {
+		return FQL_NULL;
+	}
 
 	result->auxdata.f += num;
 	result->data.f = result->auxdata.f / (result->qty + 1);
diff --git a/lib/group.c b/lib/group.c
index 6051fdb..b0e1f32 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -94,8 +94,9 @@ int _add_agg_result(group* self, node* rg)
 		if ((*it)->data_type == FIELD_STRING) {
 			string_construct(&result->data.s);
 		}
-		try_((*it)->call__(*it, self, result, rg));
-		++result->qty;
+		if (try_((*it)->call__(*it, self, result, rg)) != FQL_NULL) {
+			++result->qty;
+		}
 	}
 	return FQL_GOOD;
 }
@@ -105,8 +106,9 @@ int _update_agg_result(group* self, node* rg, unsigned idx)
 	aggregate** it = vec_begin(&self->aggregates);
 	for (; it != vec_end(&self->aggregates); ++it) {
 		struct aggresult* result = vec_at(&(*it)->results, idx);
-		try_((*it)->call__(*it, self, result, rg));
-		++result->qty;
+		if (try_((*it)->call__(*it, self, result, rg)) != FQL_NULL) {
+			++result->qty;
+		}
 	}
 	return FQL_GOOD;
 }
-- 
2.43.0


From 43b0b19768a7d2458b6bd6eaed122cfa5ebe2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:20 +0000
Subject: [PATCH 45/46] fix: a NULL key text of GROUP BY is empty

---
 lib/group.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/group.c b/lib/group.c
index b0e1f32..4689095 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -126,10 +126,15 @@ int group_record(group* self, node* rg)
 			continue;
 		}
 		switch (exprs[i]->field_type) {
-		case FIELD_STRING:
-			try_(expression_get_stringview(sv, exprs[i], rg));
-			flex_push_back(&self->group_data, (void*)sv->data, sv->len);
+		case FIELD_STRING: {
+			stringview text = {0};
+			if (try_(expression_get_stringview(&text, exprs[i], rg))
+			    == FQL_NULL) {
+				text.len = 0;
+			}
+			flex_push_back(&self->group_data, (void*)text.data, text.len);
 			break;
+		}
 		case FIELD_INT: {
 			long num_i = 0;
 			try_(expression_get_int(&num_i, exprs[i], rg));
-- 
2.43.0


From e629832ec0f2f440284cd2c9d7154279ae2b4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 46/46] fix: give a record back before letting go of the record
 its text lies in

---
 lib/fqlprocesses.c | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 2fc3942..d729a39 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -125,31 +125,34 @@ void fqlprocess_recycle(process* proc, node** rg)
 		record* rec = rg_node->data;
 		fifo** root_fifo = vec_at(proc->rootvec_ref, rec->root_fifo_idx);
 
-		/* If this record was a copy, decrement the ref_count.
-		 * If the ref_count hit 0, recycle the src record as
-		 * well.
+		if (--rec->ref_count != 0) {
+			continue;
+		}
+		rec->ref_count = 1; /* reset for next run */
+
+		/* If this record was a copy, decrement the ref_count
+		 * of the src record now that nothing refers to its
+		 * text through this record. If the ref_count hit 0,
+		 * recycle the src record as well.
 		 */
-		if (rec->rec_copy_node != NULL) {
-			record* rec_src = rec->rec_copy_node->data;
-			if (rec_src->ref_count - 1 == 0) {
-				fqlprocess_recycle(proc, &rec->rec_copy_node);
-			} else {
-				--rec_src->ref_count;
+		node* src_node = rec->rec_copy_node;
+		if (src_node != NULL) {
+			record* rec_src = src_node->data;
+			rec->rec_copy_node = NULL;
+			if (--rec_src->ref_count == 0) {
+				rec_src->ref_count = 1;
+				fqlprocess_recycle(proc, &src_node);
 			}
-			rec->rec_copy_node = NULL; /* redundant? */
 		}
 
-		if (--rec->ref_count == 0) {
-			rec->ref_count = 1; /* reset for next run */
-			/////////
-			//_fqlprocess_add_or_buffer(*root_fifo,
-			//                          rg_node,
-			//                          proc->rebuf,
-			//                          proc->fifo_base_size);
-			/////////
-			fifo_add(*root_fifo, &rg_node);
-			/////////
-		}
+		/////////
+		//_fqlprocess_add_or_buffer(*root_fifo,
+		//                          rg_node,
+		//                          proc->rebuf,
+		//                          proc->fifo_base_size);
+		/////////
+		fifo_add(*root_fifo, &rg_node);
+		/////////
 	}
 }
 
-- 
2.43.0


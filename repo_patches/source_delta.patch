From c4ea60565ff077048f5bcc16fbf03fc75f49458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:19 +0000
Subject: [PATCH 01/51] fix: axl_list_exists must find elements at any position

The two-ended lookup gave up on the first comparator answer that was not
'look further', so elements in the middle of a list were reported missing.
---
 src/axl_list.c | 71 +-------------------------------------------------
 1 file changed, 1 insertion(+), 70 deletions(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index 3be79a9..4823c98 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -897,75 +897,6 @@ axlListNode * axl_list_internal_linear_lookup_ptr (axlList    * list,
 	return node;
 }
 
-/** 
- * @internal
- * @brief Internal lookup function to locate the axlListNode that contains the pointer.
- *
- * 
- * @param list The list where the lookup will be performed.
- * @param pointer The pointer data to lookup.
- * 
- * @return A reference to the \ref axlListNode or NULL if no pointer
- * is found.
- */
-axlListNode * axl_list_internal_lookup (axlList * list, axlPointer pointer)
-{
-	axlListNode * node;
-	axlListNode * node2;
-
-	axl_return_val_if_fail (list, NULL);
-	axl_return_val_if_fail (pointer, NULL);
-
-	/* complex case */
-	node  = list->first_node;
-	node2 = list->last_node;
-
-	/* lookup */
-	while ((node != NULL) || (node2 != NULL)) {
-		/* lookup the head */
-		if (node != NULL) {
-			switch (list->are_equal (node->data, pointer)) {
-			case -1:
-			default:
-				/* node should be before the node
-				 * found. So we are not going to find
-				 * a node that is lower, the element
-				 * is not in the list.
-				 */
-				return NULL;
-			case 0:
-				return node;
-			case 1:
-				/* the node should be after this one */
-				node = node->next;
-				break;
-			}
-		} /* end if */
-
-		/* lookup from the tail */
-		if (node2 != NULL) {
-			switch (list->are_equal (node2->data, pointer)) {
-			case -1:
-				/* the node should be added before node  */
-				node2 = node2->next;
-				break;
-			case 0:
-				return node2;
-			case 1:
-			default:
-				/* it seems that the node should be
-				 * found after this node but this is
-				 * not going to be possible. The node is not in the list.
-				 */
-				return NULL;
-			}
-		} /* end if */
-	} /* end while */
-
-	return NULL;
-}
-
-
 /** 
  * @internal
  *
@@ -1351,7 +1282,7 @@ axl_bool          axl_list_exists (axlList * list, axlPointer pointer)
 	axl_return_val_if_fail (list, axl_false);
 	axl_return_val_if_fail (pointer, axl_false);
 
-	if (axl_list_internal_lookup (list, pointer) != NULL)
+	if (axl_list_internal_linear_lookup (list, pointer) != NULL)
 		return axl_true;
 	return axl_false;
 }
-- 
2.43.0


From 09da9e4286c71c8b9ba8fe8cfca8102ba50f4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:40 +0000
Subject: [PATCH 02/51] fix: axl_list_add leaked a node when the element was
 already stored

---
 src/axl_list.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index 4823c98..90e84b4 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -621,7 +621,9 @@ void      axl_list_add    (axlList * list, axlPointer pointer)
 				list->length ++;
 				return;
 			case 0:
-				/* the node found is equal, do not perform any operation */
+				/* the node found is equal, do not perform
+				 * any operation, but give back the node */
+				__axl_list_dispose_node (list, new_node);
 				return;
 			case 1:
 			default:
@@ -641,7 +643,9 @@ void      axl_list_add    (axlList * list, axlPointer pointer)
 				break;
 			case 0:
 
-				/* the node found is equal, do not perform any operation */
+				/* the node found is equal, do not perform
+				 * any operation, but give back the node */
+				__axl_list_dispose_node (list, new_node);
 				return;
 			case 1:
 				/* the node should be added after */
@@ -662,7 +666,8 @@ void      axl_list_add    (axlList * list, axlPointer pointer)
 		} /* end if */
 	} /* end while */
 
-	/* nothing more to do */
+	/* nothing added, give back the node */
+	__axl_list_dispose_node (list, new_node);
 	return;
 }
 
-- 
2.43.0


From 6a2e75ab483dd58b7a4e01c5acd55d7e21db9b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 03/51] fix: axl_stream_cmp read out of bounds with size 0

---
 src/axl_stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 854a34f..7ded600 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2024,7 +2024,7 @@ axl_bool        axl_stream_cmp             (const char * chunk1, const char * ch
 		return axl_false;
 	if (chunk2 == NULL)
 		return axl_false;
-	if (size < 0)
+	if (size <= 0)
 		return axl_false;
 	
 	/* report current comparation status */
-- 
2.43.0


From 4219105db0c57a935239e95f1e3b7ac5c6e0d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 04/51] fix: axl_list_equal_string reported two empty strings
 as different

---
 src/axl_list.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/axl_list.c b/src/axl_list.c
index 90e84b4..59d17c8 100644
--- a/src/axl_list.c
+++ b/src/axl_list.c
@@ -437,7 +437,8 @@ int      axl_list_equal_string (axlPointer a, axlPointer b)
 	if (length != strlen (b))
 		return 1;
 
-	if (axl_stream_cmp (a, b, length))
+	/* two empty strings are equal */
+	if (length == 0 || axl_stream_cmp (a, b, length))
 		return 0;
 	/* differs */
 	return 1;
-- 
2.43.0


From 2f134465b9e4c2ee3a4c5553deea56610f6b6d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:13 +0000
Subject: [PATCH 05/51] build: compile as gnu89, so that line comments are
 accepted

---
 configure.ac | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/configure.ac b/configure.ac
index 59d0d19..2c66444 100644
--- a/configure.ac
+++ b/configure.ac
@@ -58,7 +58,7 @@ AC_CHECK_SIZEOF(void *)
 compiler_options=""
 STRICT_PROTOTYPES=""
 if test "$compiler" = "gcc" ; then
-   compiler_options="-Wstrict-prototypes -Wall -Werror -g -ansi -fstack-protector-all -Wstack-protector"
+   compiler_options="-Wstrict-prototypes -Wall -Werror -g -std=gnu89 -fstack-protector-all -Wstack-protector"
    echo "Detected gcc compiler: $compiler, adding options: $compiler_options"
 fi
 AC_SUBST(compiler_options)
@@ -136,7 +136,7 @@ AM_CONDITIONAL(ENABLE_PY_AXL, test "x$python_devel_found" = "xyes")
 compiler_options=""
 STRICT_PROTOTYPES=""
 if test "$compiler" = "gcc" ; then
-   compiler_options="-Wstrict-prototypes -Wall -Werror -g -ansi"
+   compiler_options="-Wstrict-prototypes -Wall -Werror -g -std=gnu89"
    echo "Detected gcc compiler: $compiler, adding options: $compiler_options"
 fi
 AC_SUBST(compiler_options)
-- 
2.43.0


From 7b8e2f2126778d70cd4b3a8f7779c8285f727799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:15 +0000
Subject: [PATCH 06/51] fix: axl_factory_get returned storage out of bounds for
 types bigger than 512 bytes

---
 src/axl_factory.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/axl_factory.c b/src/axl_factory.c
index c5dee3a..fc03844 100644
--- a/src/axl_factory.c
+++ b/src/axl_factory.c
@@ -118,6 +118,11 @@ axlPointer   axl_factory_get (axlFactory * factory)
 		else if (factory->step == (1024 / factory->type_size))
 			factory->step = 2048 / factory->type_size;
 
+		/* types bigger than the block size are allocated one
+		 * by one */
+		if (factory->step < 1)
+			factory->step = 1;
+
 		block          = axl_new (axlItemBlock, 1);
 		block->items   = axl_calloc (factory->step, factory->type_size);
 		factory->count = 1;
-- 
2.43.0


From 4bd53df7223fdbf00caece1eb4022b9d879a9210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:15 +0000
Subject: [PATCH 07/51] fix: axl_hash_equal_string reported a NULL key equal to
 every other key and different from itself

---
 src/axl_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index 6cd21cf..b5b26d6 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -156,9 +156,9 @@ int             axl_hash_equal_string (axlPointer keya,
 	int    i     = 0;
 
 	if (keya == NULL)
-		return (keyb == NULL);
+		return (keyb != NULL);
 	if (keyb == NULL)
-		return (keya == NULL);
+		return (keya != NULL);
 
 	while (_keya [i] != 0 && _keyb [i] != 0) {
 
-- 
2.43.0


From 871bca907b6f60d181d34d2c6f9bf6d97c4a67cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:09 +0000
Subject: [PATCH 08/51] fix: hash cursors skipped or revisited entries (empty
 hash, first bucket, removal at the end of a chain)

---
 src/axl_hash.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/axl_hash.c b/src/axl_hash.c
index b5b26d6..444fff0 100644
--- a/src/axl_hash.c
+++ b/src/axl_hash.c
@@ -1551,6 +1551,7 @@ void __axl_hash_cursor_init (axlHashCursor * cursor, axl_bool first)
 	if (first) {
 		/* configure first */
 		cursor->index = 0;
+		cursor->node  = NULL;
 
 		/* foreach element inside the hash, check the first value */
 		while (cursor->index < cursor->hash->hash_size) {
@@ -1569,7 +1570,7 @@ void __axl_hash_cursor_init (axlHashCursor * cursor, axl_bool first)
 		/* find last value */
 		cursor->index = cursor->hash->hash_size - 1;
 		cursor->node  = NULL;
-		while (cursor->index > 0) {
+		while (cursor->index >= 0) {
 			/* check the table at the current position */
 			node = cursor->hash->table[cursor->index];
 			if (node != NULL) {
@@ -1852,6 +1853,8 @@ void            axl_hash_cursor_remove       (axlHashCursor * cursor)
 	/* configure next item */
 	cursor->node = node;
 	if (cursor->node == NULL) {
+		/* no more items at the current position, go next one */
+		cursor->index++;
 		while (cursor->index < cursor->hash->hash_size) {
 			/* check the table at the current position */
 			if (cursor->hash->table[cursor->index] != NULL) {
-- 
2.43.0


From 8d65137f70b61426a4f1fdce030230e14fc1ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:01 +0000
Subject: [PATCH 09/51] fix: axl_stream_remove removed text that does not
 match, matching against bytes left over beyond the end

---
 src/axl_stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 7ded600..8bc33f2 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2333,6 +2333,10 @@ void        axl_stream_remove            (char * chunk, const char * value, axl_
 			/* update length to the new value */
 			length -= v_length;
 
+			/* finish the string here so content left over
+			 * beyond is not matched again */
+			chunk [length] = 0;
+
 			/* check to terminate for first ocurrence */
 			if (first) {
 				chunk [length] = 0;
-- 
2.43.0


From ad7329e4b696af0e27ee83a81314eb2c80676fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:49 +0000
Subject: [PATCH 10/51] fix: axl_stream_replace did not find binary strings it
 documents to handle

---
 src/axl_stream.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 8bc33f2..141a72d 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -3092,12 +3092,16 @@ int  axl_stream_replace         (char        ** source,      int source_len,
 	if (replacement_len == -1)
 		replacement_len = strlen (replacement);
 
+	/* nothing to look for */
+	if (string_len <= 0)
+		return source_len;
+
 	/* find how many strings must be replaced */
 	iterator = 0;
 	count    = 0;
 	while ((iterator + string_len - 1) < source_len) {
 		/* check if the string is found */
-		if (axl_memcmp ((*source) + iterator, string, string_len)) {
+		if (memcmp ((*source) + iterator, string, string_len) == 0) {
 			/* string found ! */
 			count++;
 			
@@ -3126,7 +3130,7 @@ int  axl_stream_replace         (char        ** source,      int source_len,
 	iterator2 = 0;
 	while (iterator < old_source_len) {
 		/* check if the string is found */
-		if (((iterator + string_len - 1) < old_source_len) && axl_memcmp ((*source) + iterator, string, string_len)) {
+		if (((iterator + string_len - 1) < old_source_len) && memcmp ((*source) + iterator, string, string_len) == 0) {
 			/* string found!, replace */
 			memcpy (result + iterator2, replacement, replacement_len);
 			
-- 
2.43.0


From d137bb0619c5c32c546720b508ec523443d79d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:06 +0000
Subject: [PATCH 11/51] fix: the character stream missed delimiters and read
 stale content when content arrives split in several reads

---
 src/axl_stream.c | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index 141a72d..ae11ded 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -693,6 +693,10 @@ axl_bool         axl_stream_inspect_code    (axlStream * stream, char value, int
 {
 	axl_return_val_if_fail (stream, axl_false);
 	
+	/* check there is content at the position */
+	if (axl_stream_fall_outside (stream, offset + 1))
+		return axl_false;
+
 	/* check the value */
 	return stream->stream [stream->stream_index + offset] == value;
 }
@@ -1336,9 +1340,8 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 	 * limited by the chunks received. */
 	do {
 
-		/* decrease remain bytes to be read until perform a
-		 * prebuffer operation */
-		remains--;
+		/* bytes remaining after the one to be inspected */
+		remains = stream->stream_size - stream->stream_index - index - 1;
 
 		/* only prebuffer for this type of stream */
 		if (stream->type == STREAM_FD) {
@@ -1352,6 +1355,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 						/* flag that chunk matched
 						 * will be -2 */
 						stream->chunk_matched = -2;
+						length                = 0;
 						goto matched_return_result;
 					} /* end if */
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "failed while prebuffer (stream->type = %d)", stream->type);
@@ -1359,18 +1363,11 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 					return NULL;
 				}
 				
-				/* update remains value but this time removing
-				 * one unit (the unit to be consumed at the
-				 * next sentence) */
-				remains = stream->stream_size - index - 1;
-
-				/* work around: because the index is updated
-				 * at the end of the loop, it is required to
-				 * decrease the index in one unit in the case
-				 * a prebuffer operation happens */
-				if (index > 0) {
-					index--;
-				}
+				/* step back to check again positions where a
+				 * chunk didn't fit, and get sure there is
+				 * content at the position to inspect */
+				index = (index > max_length) ? (index - max_length) : 0;
+				continue;
 				
 			} /* end if */
 		}
@@ -1385,6 +1382,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 					/* flag that chunk matched
 					 * will be -2 */
 					stream->chunk_matched = -2;
+					length                = 0;
 					goto matched_return_result;
 				}
 
@@ -1458,7 +1456,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 			/* check for matching a more specific
 			 * terminal than a general */
 			if ((length < max_length) && 
-			    ((_index + length) == stream->stream_size)) {
+			    ((_index + max_length) > stream->stream_size)) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "detected possible false positive");
 				
 				/* do a prebuffer operation,
@@ -2090,8 +2088,10 @@ axl_bool        axl_stream_casecmp           (const char * chunk1, const char *
 axl_bool axl_stream_fall_outside (axlStream * stream, int inspected_size)
 {
 	/* if the content is inside memory, check it */
-	if (fall_out_side_checking (stream, inspected_size)) {
-		return (! axl_stream_prebuffer (stream));
+	while (fall_out_side_checking (stream, inspected_size)) {
+		/* read more content until it is available */
+		if (! axl_stream_prebuffer (stream))
+			return axl_true;
 	}
 	
 	/* otherwise, axl_false is returned */
@@ -2114,6 +2114,10 @@ axl_bool         axl_stream_check           (axlStream * stream, char * chunk, i
 {
 	int iterator;
 
+	/* check there is enough content */
+	if (axl_stream_fall_outside (stream, inspected_size))
+		return axl_false;
+
 	/* call to the internal implementation of axl_memcmp */
 	_memcmp(iterator,chunk,(stream->stream + stream->stream_index), inspected_size);
 
-- 
2.43.0


From 0e2586597b4880940b7c3af3def037cda7a2e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:06 +0000
Subject: [PATCH 12/51] fix: axl_stream_prebuffer mishandled read errors and
 used a value not initialized

---
 src/axl_stream.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index ae11ded..7b26cc1 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -253,7 +253,7 @@ struct _axlStream {
 axl_bool axl_stream_prebuffer (axlStream * stream)
 {
 	int  bytes_read;
-	int  op_result;
+	int  op_result = 0;
 
 	/* check some environment conditions */
 	axl_return_val_if_fail (stream, axl_false);
@@ -390,7 +390,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 				/* update the amount of data available tat the decode temp */
 				if (bytes_read > 0)
 					stream->decode_temp_last += bytes_read;
-				else if (bytes_read == 0 && stream->fd > 0) {
+				else if (stream->fd > 0) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
 					close (stream->fd);
 					stream->fd = -1;
@@ -421,7 +421,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "   bytes read from the file, size %d", bytes_read);
 
 		/* call to check */
-		if (stream->check_f) {
+		if (stream->check_f && bytes_read > 0) {
 			/* call to check */
 			if (! axl_stream_content_check (stream, stream->stream + stream->stream_size, bytes_read, NULL)) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "failed to prebuffer, content check function have failed");
@@ -430,7 +430,7 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 		} /* end if */
 		
 		/* check for end of file reached */
-		if (bytes_read == 0) {
+		if (bytes_read <= 0) {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "end of file reached");
 			close (stream->fd);
 			stream->fd = -1;
-- 
2.43.0


From 6c2082cd01f5420405b8162507768161bb0e0933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:43 +0000
Subject: [PATCH 13/51] fix: axl_stream_get_until_ref returned nothing for
 empty content

---
 src/axl_doc.c    | 2 +-
 src/axl_stream.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 3e65744..03f697e 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1062,7 +1062,7 @@ axl_bool __axl_doc_parse_close_node (axlStream * stream, axlDoc * doc, axlNode *
 
 	/* get the node being closed to check to the current parent */
 	string = axl_stream_get_until_ref (stream, NULL, NULL, axl_true, &result_size, 1, ">");
-	if (string == NULL) {
+	if (string == NULL || result_size == 0) {
 		axl_error_new (-1, "An error was found while closing the xml node", stream, error);
 		axl_stream_free (stream);
 		return axl_false;
diff --git a/src/axl_stream.c b/src/axl_stream.c
index 7b26cc1..af3dc5f 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -1511,7 +1511,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 			
 			
 			/* return allocated result */
-			if (! stream->result_size)
+			if (string == NULL)
 				return stream->last_chunk;
 
 			/* return reference result */
-- 
2.43.0


From 10c21e5a6267b276b501332877263ecba94a1d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:57 +0000
Subject: [PATCH 14/51] fix: axl_stream_push skipped pushed content if called
 after axl_stream_peek

---
 src/axl_stream.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index af3dc5f..eda796e 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -895,7 +895,8 @@ void axl_stream_push (axlStream * stream, const char * content, int size)
 	/* reset the index */
 	stream->stream_index = 0;
 
-	/* clean previous state */
+	/* clean previous state (content inspected is not accepted) */
+	stream->previous_inspect = 0;
 	axl_stream_accept (stream);
 
 	return;
-- 
2.43.0


From 2683b1c55c15f66b72e15ba1e6182407d172b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:47 +0000
Subject: [PATCH 15/51] fix: axl_stream_get_until matched a later delimiter
 when the first one was still to be read

---
 src/axl_stream.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index eda796e..cce961f 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -1348,9 +1348,14 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 		if (stream->type == STREAM_FD) {
 			
 			/* check if the index is falling out side the buffer boundaries */
-			if (remains < 0) {
+			if (remains < 0 || (remains + 1) < max_length) {
+
+				/* read until all chunks can be checked
+				 * at the current position */
+				if (axl_stream_prebuffer (stream))
+					continue;
 
-				if (! axl_stream_prebuffer (stream)) {
+				if (remains < 0) {
 					/* check if a call to zero was found */
 					if (stream->zero) {
 						/* flag that chunk matched
@@ -1364,12 +1369,6 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 					return NULL;
 				}
 				
-				/* step back to check again positions where a
-				 * chunk didn't fit, and get sure there is
-				 * content at the position to inspect */
-				index = (index > max_length) ? (index - max_length) : 0;
-				continue;
-				
 			} /* end if */
 		}
 
@@ -1457,7 +1456,7 @@ char * __axl_stream_get_untilv_wide (axlStream * stream, va_list args)
 			/* check for matching a more specific
 			 * terminal than a general */
 			if ((length < max_length) && 
-			    ((_index + max_length) > stream->stream_size)) {
+			    ((_index + length) == stream->stream_size)) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "detected possible false positive");
 				
 				/* do a prebuffer operation,
-- 
2.43.0


From 994276266abd8ed582c5e516356b8f05df30bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 16/51] fix: escaping, unescaping and CDATA copy read and
 matched beyond the content size given

---
 src/axl_node.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 0e3d890..1989bcb 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -409,7 +409,7 @@ char * __axl_node_content_copy_and_escape (const char * content,
 		}
 
 		/* check for ]]> declaration */
-		if (content [iterator2] == ']' && content [iterator2 + 1] == ']' && content [iterator2 + 2] == '>') {
+		if ((iterator2 + 2) < content_size && content [iterator2] == ']' && content [iterator2 + 1] == ']' && content [iterator2 + 2] == '>') {
 			if (cdata) {
 				memcpy (result + iterator, "]]>]]&gt;<![CDATA[", 18);
 				iterator  += 18;
@@ -475,7 +475,7 @@ char * axl_node_content_translate_defaults (char * content,
 	while (iterator < (*content_size)) {
 		
 		/* check for &apos; */
-		if (axl_stream_cmp (content + iterator, "&apos;", 6)) {
+		if ((iterator + 6) <= (*content_size) && axl_stream_cmp (content + iterator, "&apos;", 6)) {
 			content [iterator2] = '\'';
 			iterator2++;
 			
@@ -484,7 +484,7 @@ char * axl_node_content_translate_defaults (char * content,
 		}
 		
 		/* check for &quot; */
-		if (axl_stream_cmp (content + iterator, "&quot;", 6)) {
+		if ((iterator + 6) <= (*content_size) && axl_stream_cmp (content + iterator, "&quot;", 6)) {
 			content [iterator2] = '"';
 			iterator2++;
 			
@@ -493,7 +493,7 @@ char * axl_node_content_translate_defaults (char * content,
 		}
 
 		/* check for &amp; */
-		if (axl_stream_cmp (content + iterator, "&amp;", 5)) {
+		if ((iterator + 5) <= (*content_size) && axl_stream_cmp (content + iterator, "&amp;", 5)) {
 			content [iterator2] = '&';
 			iterator2++;
 			
@@ -502,7 +502,7 @@ char * axl_node_content_translate_defaults (char * content,
 		}
 
 		/* check for &gt; */
-		if (axl_stream_cmp (content + iterator, "&gt;", 4)) {
+		if ((iterator + 4) <= (*content_size) && axl_stream_cmp (content + iterator, "&gt;", 4)) {
 			content [iterator2] = '>';
 			iterator2++;
 			
@@ -511,7 +511,7 @@ char * axl_node_content_translate_defaults (char * content,
 		}
 
 		/* check for &lt; */
-		if (axl_stream_cmp (content + iterator, "&lt;", 4)) {
+		if ((iterator + 4) <= (*content_size) && axl_stream_cmp (content + iterator, "&lt;", 4)) {
 			content [iterator2] = '<';
 			iterator2++;
 			
@@ -2994,7 +2994,8 @@ void      axl_node_set_cdata_content  (axlNode    * node,
 			   content_size, copy);
 	} else {
 		/* call to set node content */	
-		copy = axl_strdup (content);
+		copy = axl_new (char, content_size + 1);
+		memcpy (copy, content, content_size);
 	} /* end if */
 
 	/* set content */
@@ -5207,7 +5208,7 @@ axl_bool      axl_node_has_invalid_chars_internal        (const char * content,
 		}
 
 		/* check for ]]> */
-		if (content [iterator] == ']' && content [iterator + 1] == ']' && content [iterator + 2] == '>') {
+		if ((iterator + 2) < content_size && content [iterator] == ']' && content [iterator + 1] == ']' && content [iterator + 2] == '>') {
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found invalid sequence=']]>'");
 			result = axl_true;
 			if (cdata) {
-- 
2.43.0


From 5c74a81d610ebda3854ad64d2552923770dfb66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 17/51] fix: axl_node_remove_attribute escaped again remaining
 attributes when leaving the hashed storage

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 1989bcb..7ac9081 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -1314,7 +1314,7 @@ axl_bool __axl_node_remove_attribute_reinsert  (axlPointer key, axlPointer data,
 {
 	
 	/* re-add attributes into the node */
-	axl_node_set_attribute (user_data, key, data);
+	axl_node_set_attribute_ref (user_data, axl_strdup (key), axl_strdup (data));
 
 	return axl_false; /* do not stop until process all nodes */
 }
-- 
2.43.0


From 1c5c8aafbe45c196fd6d8c9b47bcadeb967ebcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:37 +0000
Subject: [PATCH 18/51] fix: removing or replacing items left the parent's
 first/last child and the item's own links stale

---
 src/axl_node.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 7ac9081..7dd0bac 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -3539,6 +3539,7 @@ void      axl_node_remove             (axlNode  * node,
 			/* disconnect the item */
 			item->previous = NULL;
 			item->next     = NULL;
+			item->parent   = NULL;
 		} /* end if */
 
 	} /* end if */
@@ -6524,8 +6525,8 @@ void          axl_item_remove          (axlItem   * item,
 	if (item->next != NULL)
 		item->next->previous = item->previous;
 
-	/* realloc parent references in the case of a node */
-	if (axl_item_get_type (item) == ITEM_NODE) {
+	/* realloc parent references, whatever the item type */
+	if (item->parent != NULL) {
 		if (item->previous == NULL)
 			item->parent->first = item->next;
 
@@ -6536,6 +6537,7 @@ void          axl_item_remove          (axlItem   * item,
 	/* free the item */
 	item->next     = NULL;
 	item->previous = NULL;
+	item->parent   = NULL;
 
 	if (dealloc) {
 		axl_item_free (item, axl_true);
@@ -6568,18 +6570,16 @@ void          axl_item_replace        (axlItem  * item,
 	axl_return_if_fail (new_item);
 
 	/* realloc references */
-	if (item->previous != NULL) {
+	new_item->previous = item->previous;
+	if (item->previous != NULL)
 		item->previous->next = new_item;
-		new_item->previous   = item->previous;
-	}
 
-	if (item->next != NULL) {
+	new_item->next = item->next;
+	if (item->next != NULL)
 		item->next->previous = new_item;
-		new_item->next       = item->next;
-	}
 
-	/* realloc parent references in the case of a node */
-	if (axl_item_get_type (item) == ITEM_NODE) {
+	/* realloc parent references, whatever the item type */
+	if (item->parent != NULL) {
 		if (item->previous == NULL)
 			item->parent->first = new_item;
 
@@ -6594,6 +6594,7 @@ void          axl_item_replace        (axlItem  * item,
 	/* configure values */
 	new_item->parent = item->parent;
 	new_item->doc    = item->doc;
+	item->parent     = NULL;
 
 	if (dealloc) {
 		axl_item_free (item, axl_true);
-- 
2.43.0


From 6276410a8885f45a2caad2204cb3461a2e3ee81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:37 +0000
Subject: [PATCH 19/51] fix: axl_item_new for nodes copied the data of the
 empty item instead of the node received

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 7dd0bac..3d0f3c9 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5902,7 +5902,7 @@ axlItem     * axl_item_new             (AxlItemType type,
 	switch (axl_item_get_type (item)) {
 	case ITEM_NODE:
 		/* item the node */
-		node                 = axl_node_copy (item->data, axl_true, axl_true);
+		node                 = axl_node_copy (data, axl_true, axl_true);
 		node->holder         = item;
 		item->data           = node;
 		break;
-- 
2.43.0


From e38faeca12187870817a0abef5db044aaf18f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:37 +0000
Subject: [PATCH 20/51] fix: axl_node_free_full never released childs and
 axl_node_set_name_ref leaked the name on parsed nodes

---
 src/axl_node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 3d0f3c9..13fc699 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -837,6 +837,7 @@ void      axl_node_set_name_ref             (axlNode * node, char * name)
 
 	/* alloc the new name */
 	node->name = name;
+	node->conf &= ~NODE_NAME_FROM_FACTORY;
 	
 	return;
 }
@@ -5497,7 +5498,7 @@ void      axl_node_free_full       (axlNode * node, axl_bool also_childs)
 	hash = node->annotate_data;
 
 	/* free node */
-	__axl_node_free_internal (node, axl_false);
+	__axl_node_free_internal (node, also_childs);
 
 	/* free the node itself */
 	if (!(node->conf & NODE_FROM_FACTORY))
-- 
2.43.0


From 61cb8d9a7473ae7dd5674fdcdd8c6baa15fdddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:42 +0000
Subject: [PATCH 21/51] fix: out of bounds read parsing a standalone
 declaration with fewer than three characters

---
 src/axl_doc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 03f697e..0f47da5 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -687,10 +687,10 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 			}
 
 			/* set standalone configuration */
-			if (memcmp ("yes", string_aux, 3))
-				doc->standalone = axl_false;
-			else
+			if (axl_cmp ("yes", string_aux))
 				doc->standalone = axl_true;
+			else
+				doc->standalone = axl_false;
 		}
 		
 		/* check for an space */
-- 
2.43.0


From d3b80c78334efaccd384a1b45ba9211703922064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:16 +0000
Subject: [PATCH 22/51] fix: the parser accepted tags misread beyond their end
 (root without <, attribute names up to any later =, unterminated values) and
 took white spaces other than blank as part of the node name

---
 src/axl_doc.c | 67 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 0f47da5..ebdb71a 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -730,6 +730,16 @@ axl_bool __axl_doc_parse_xml_header (axlStream * stream, axlDoc * doc, axlError
 	return axl_true;
 }
 
+/** 
+ * @internal Checks the node or attribute name provided: it must be
+ * not empty and without white spaces or markup characters, that is,
+ * characters that show that the name goes beyond its tag.
+ */
+axl_bool __axl_doc_check_name (const char * name)
+{
+	return name[0] != 0 && strpbrk (name, " \n\t\r<>/=&'\"") == NULL;
+}
+
 /** 
  * @internal
  *
@@ -782,21 +792,21 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 	int       length;
 	axl_bool  delim;
 	
-	/* consume a possible comment */
-	if (! axl_doc_consume_comments (doc, stream, error))
-		return axl_false;
+	/* the caller has already accepted the initial < for nodes
+	 * other than the root one */
+	if (doc->rootNode == NULL) {
+		/* consume a possible comment */
+		if (! axl_doc_consume_comments (doc, stream, error))
+			return axl_false;
 
-	/* check for initial < definition */
-	if (! (axl_stream_inspect (stream, "<", 1) > 0)  && ! axl_stream_remains (stream)) {
-		/* check if we are reading the first node node */
-		if (doc->rootNode == NULL)
+		/* check for initial < definition */
+		if (! (axl_stream_inspect (stream, "<", 1) > 0)) {
 			axl_error_new (-2, "expected initial < for a root node definition, not found. An xml document must have, at least, one node definition.", 
 				       stream, error);
-		else
-			axl_error_new (-2, "expected initial < for a node definition, not found.", stream, error);
-		axl_stream_free (stream);
-		return axl_false;
-	}
+			axl_stream_free (stream);
+			return axl_false;
+		}
+	} /* end if */
 
 	/* get node name, keeping in mind the following:
 	 * chunk_matched
@@ -809,7 +819,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 	 * string factory.
 	 */
 	axl_stream_set_buffer_alloc (stream, (axlStreamAlloc)__axl_doc_alloc, doc);
-	string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_true, 2, ">", " ");
+	string_aux = axl_stream_get_until (stream, NULL, &matched_chunk, axl_true, 5, ">", " ", "\n", "\t", "\r");
 
 	/* nullify */
 	axl_stream_nullify (stream, LAST_CHUNK);
@@ -823,8 +833,8 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 		return axl_false;
 	}
 	
-	/* if found a '/', it is matched as 1 */
-	if (matched_chunk == 1)
+	/* if found a white space, it is matched as 2 */
+	if (matched_chunk >= 1)
 		matched_chunk = 2;
 	else {
 		/* get the string length */
@@ -839,6 +849,15 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 		} /* end if */
 	} /* end if */
 
+	/* check the name found */
+	if (! __axl_doc_check_name (string_aux)) {
+		axl_stream_set_buffer_alloc (stream, NULL, NULL);
+
+		axl_error_new (-2, "found a not valid node name.", stream, error);
+		axl_stream_free (stream);
+		return axl_false;
+	} /* end if */
+
 	/* create the node and associate it the node name found */
 	node = axl_node_factory_get (doc->node_factory);
 	axl_node_set_name_from_factory (node, string_aux); 
@@ -945,9 +964,15 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			 * name */
 			axl_stream_nullify (stream, LAST_CHUNK);
 
+			/* get rid from spaces before and after = */
+			axl_stream_trim (string_aux);
+			AXL_CONSUME_SPACES (stream);
+
 			/* check for empty values at the attribute definition */
-			if (string_aux [0] == 0) {
-				axl_error_new (-5, "Expected to find an attribute name (but found an empty value)", stream, error);
+			if (! __axl_doc_check_name (string_aux)) {
+				axl_stream_set_buffer_alloc (stream, NULL, NULL);
+
+				axl_error_new (-5, "Expected to find an attribute name (but found an empty or not valid value)", stream, error);
 				axl_stream_free (stream);
 				return axl_false;
 			} /* end if */
@@ -986,6 +1011,14 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			 * inside string_aux2 */
 			axl_stream_nullify (stream, LAST_CHUNK);
 
+			if (string_aux2 == NULL) {
+				axl_stream_set_buffer_alloc (stream, NULL, NULL);
+
+				axl_error_new (-2, "Expected to find the attribute value termination, not found", stream, error);
+				axl_stream_free (stream);
+				return axl_false;
+			} /* end if */
+
 			if (axl_node_has_attribute (node, string_aux)) {
 				/* parse error */
 				axl_error_report (error, -3, "Unable to add attribute '%s' to node <%s> which already has this attribute. Duplicate attribute error. Error was found near to: %s", 
-- 
2.43.0


From f84588ed30d1e9257bc5d81ea3b0a2632e51dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:16 +0000
Subject: [PATCH 23/51] fix: content after the root node was ignored instead of
 reported, and closing tags only allowed one trailing white space

---
 src/axl_doc.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index ebdb71a..3c08d0c 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1102,10 +1102,11 @@ axl_bool __axl_doc_parse_close_node (axlStream * stream, axlDoc * doc, axlNode *
 	}
 
 	/* check for optional white space inside the trailing result */
-	if (axl_stream_is_white_space (string + result_size - 1)) {
+	while (result_size > 0 && axl_stream_is_white_space (string + result_size - 1)) {
 		/* nullify to remove the optional white spaces */
-		string [result_size - 1] = 0;
-	} /* end if */
+		result_size--;
+		string [result_size] = 0;
+	} /* end while */
 
 	/* get current parent node */
 	node   = axl_stack_peek (doc->parentNode);
@@ -1337,6 +1338,18 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 		return NULL;
 	}
 
+	/* nothing but comments and process instructions is allowed
+	 * after the root node (the string terminator is not content) */
+	if (! axl_doc_consume_comments (doc, stream, error))
+		return NULL;
+	if (axl_stream_remains (stream) && ! AXL_IS_STR_EMPTY (axl_stream_get_following (stream, 1))) {
+		/* notify error */
+		axl_error_new (-1, "Found content after the root node", stream, error);
+		axl_stream_free (stream);
+		
+		return NULL;
+	}
+
 	/* parse complete */
 	axl_stream_unlink (stream);
 	axl_stream_free (stream);
-- 
2.43.0


From 9a1b7b2c89e9046c1be98b091944e35352991a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:14 +0000
Subject: [PATCH 24/51] fix: xml:space applied to unrelated nodes, because it
 was recorded once per attribute instead of once per node

---
 src/axl_doc.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 3c08d0c..1813a27 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -791,6 +791,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 	int       matched_chunk;
 	int       length;
 	axl_bool  delim;
+	axl_bool  preserve;
 	
 	/* the caller has already accepted the initial < for nodes
 	 * other than the root one */
@@ -892,6 +893,10 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "node found: [%s]", string_aux);
 
 
+	/* by default, the node inherits white space handling from its
+	 * parent */
+	preserve = axl_binary_stack_peek (doc->xmlPreserve);
+
 	/* now, until the node ends, we have to find the node
 	 * attributes or the node defintion end */
 	while (1) {
@@ -944,6 +949,10 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 			/* flag that the node is an empty definition */
 			*is_empty = axl_false;
 
+			/* record white space handling until the node
+			 * is closed */
+			axl_binary_stack_push (doc->xmlPreserve, preserve);
+
 			/* this node is ended */
 			return axl_true;
 		}
@@ -1038,7 +1047,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					/* 1: xml:space=preserve (found)
 					 * make current node and all its childs to preserve (by
 					 * default) all white spaces found */
-					axl_binary_stack_push (doc->xmlPreserve, axl_true);
+					preserve = axl_true;
 
 				} else if (axl_cmp (string_aux2, "default")) {
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found xml:space=default, notifying..");
@@ -1046,7 +1055,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					/* 2: xml:space=default  (found)
 					 * make current node and all its childs to not
 					 * preserve white spaces (by default) */
-					axl_binary_stack_push (doc->xmlPreserve, axl_false);
+					preserve = axl_false;
 				} else {
 					/* parse error */
 					axl_error_new (-2, "xml:space attribute found with other value than 'preserve' or 'default', this is not allowed.", stream, error);
@@ -1054,14 +1063,6 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 					return axl_false;
 
 				} /* end if */
-			} else {
-				/* 3: xml:space (not found) 
-				 * make the current node to inherint
-				 * default from parent */
-				if (axl_binary_stack_is_empty (doc->xmlPreserve))
-					axl_binary_stack_push (doc->xmlPreserve, axl_false);
-				else
-					axl_binary_stack_push_the_same (doc->xmlPreserve);
 			} /* end if */
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "attribute installed..");
-- 
2.43.0


From 24b88f8d545101b038e237a4d19e3f491713dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:36 +0000
Subject: [PATCH 25/51] fix: crash dumping process instructions without
 content, which were also reported different from themselves

---
 src/axl_doc.c  | 7 ++++---
 src/axl_node.c | 6 ++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 1813a27..a46c8bc 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2930,8 +2930,9 @@ axl_bool      axl_pi_are_equal                 (axlPI * pi,
 	if (! axl_cmp (pi->name, pi2->name))
 		return axl_false;
 
-	/* final check, both content must be equal */
-	return axl_cmp (pi->content, pi2->content);
+	/* final check, both content must be equal (no content is the
+	 * same as empty content, once dumped) */
+	return axl_cmp (pi->content ? pi->content : "", pi2->content ? pi2->content : "");
 }
 
 /** 
@@ -2998,7 +2999,7 @@ int       axl_pi_get_size                  (axlPI  * pi)
 	axl_return_val_if_fail (pi, -1);
 
 	/* <?name content?> */
-	return strlen (pi->name) + strlen (pi->content) + 5;
+	return strlen (pi->name) + (pi->content ? strlen (pi->content) : 0) + 5;
 }
 
 /** 
diff --git a/src/axl_node.c b/src/axl_node.c
index 13fc699..35a3b72 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4909,8 +4909,10 @@ int __axl_node_dump_items (axlItem * item, char * content, int level, axl_bool p
 			
 			/* write pi content */
 			string_aux = axl_pi_get_content (item->data);
-			memcpy (content + desp, string_aux, strlen (string_aux));
-			desp += strlen (string_aux);
+			if (string_aux != NULL) {
+				memcpy (content + desp, string_aux, strlen (string_aux));
+				desp += strlen (string_aux);
+			} /* end if */
 			
 			/* write pi start */
 			memcpy (content + desp, "?>", 2);
-- 
2.43.0


From 04c54f73e8abf922b86c89254020dc3d8b3d843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:57 +0000
Subject: [PATCH 26/51] fix: freeing the list returned by
 axl_node_get_pi_target_list released the process instructions of the node

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 35a3b72..4732de1 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4526,7 +4526,7 @@ axlList * axl_node_get_pi_target_list       (axlNode * node)
 		if (axl_item_get_type (item) == ITEM_PI) {
 			/* create the result list */
 			if (result == NULL)
-				result = axl_list_new (axl_list_always_return_1, (axlDestroyFunc) axl_pi_free);	 
+				result = axl_list_new (axl_list_always_return_1, NULL);	 
 
 			/* add the list */
 			axl_list_add (result, item->data);
-- 
2.43.0


From fc1c62f981a3d64ad649686ff80cb7b729a107f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:57 +0000
Subject: [PATCH 27/51] fix: out of bounds read dumping empty comments

---
 src/axl_node.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index 4732de1..818049a 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4695,7 +4695,9 @@ int       axl_node_get_flat_size            (axlNode * node, axl_bool pretty_pri
 			content = (axlNodeContent *) item->data;
 
 			/* check if the content has already defined white spaces */
-			if (content->content[0] == ' ' && content->content[content->content_size - 1] == ' ')
+			if (content->content_size == 0)
+				result += 9;
+			else if (content->content[0] == ' ' && content->content[content->content_size - 1] == ' ')
 				result += content->content_size + 7;
 			else if (content->content[0] != ' ' && content->content[content->content_size - 1] == ' ')
 				result += content->content_size + 8;
@@ -4930,7 +4932,7 @@ int __axl_node_dump_items (axlItem * item, char * content, int level, axl_bool p
 
 			/* add an space if the content is found to not
 			 * have one */
-			if (nodeContent->content [0] == ' ') {
+			if (nodeContent->content_size > 0 && nodeContent->content [0] == ' ') {
 				memcpy (content + desp, "<!--", 4);
 				desp += 4;
 			} else {
@@ -4946,7 +4948,7 @@ int __axl_node_dump_items (axlItem * item, char * content, int level, axl_bool p
 			
 			/* add an space if the content is found to not
 			 * have one */
-			if (nodeContent->content [nodeContent->content_size - 1] == ' ') {
+			if (nodeContent->content_size > 0 && nodeContent->content [nodeContent->content_size - 1] == ' ') {
 				memcpy (content + desp, "-->", 3);
 				desp += 3;
 			} else {
-- 
2.43.0


From 1a686bad10a84bfb9776e14a05c509ebe9226bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:26 +0000
Subject: [PATCH 28/51] fix: axl_doc_are_equal ignored white spaces around
 content, while it is documented to compare byte by byte

---
 src/axl_doc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index a46c8bc..9b2e5f2 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2215,8 +2215,8 @@ axl_bool      axl_doc_are_equal_trimmed        (axlDoc * doc,
 axl_bool      axl_doc_are_equal                (axlDoc * doc, 
 						axlDoc * doc2)
 {
-	/* call to common implemenation, activating triming */
-	return axl_doc_are_equal_common (doc, doc2, axl_true, NULL);
+	/* call to common implemenation, comparing content byte by byte */
+	return axl_doc_are_equal_common (doc, doc2, axl_false, NULL);
 }
 
 /** 
-- 
2.43.0


From 65ac7f3bb8ddfd44fa6053c33077b7f2f1fabe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:49 +0000
Subject: [PATCH 29/51] fix: document comparison did not report an error for
 some differences

---
 src/axl_doc.c  | 10 ++++++++--
 src/axl_node.c | 13 +++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 9b2e5f2..161f6f3 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -2067,7 +2067,7 @@ axl_bool __axl_doc_are_equal (axlNode * node, axlNode * node2, axl_bool trimmed,
 	axlItem * child2;
 	
 	/* check if parent nodes are equal */
-	if (! axl_node_are_equal (node, node2))
+	if (! axl_node_are_equal_full (node, node2, error))
 		return axl_false;
 
 	/* iterate over all childs inside the node */
@@ -2123,8 +2123,14 @@ axl_bool __axl_doc_are_equal (axlNode * node, axlNode * node2, axl_bool trimmed,
 		
 	} /* end while */
 
+	/* check that both nodes have the same number of items */
+	if (child != NULL || child2 != NULL) {
+		axl_error_report (error, -1, "number of items differs, documents aren't equal");
+		return axl_false;
+	} /* end if */
+
 	/* the nodes recieved are equal */
-	return (child == NULL && child2 == NULL);
+	return axl_true;
 }
 
 /** 
diff --git a/src/axl_node.c b/src/axl_node.c
index 818049a..bb6cb37 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -6759,7 +6759,12 @@ axl_bool          axl_item_are_equal_full      (axlItem    * item,
 			}
 			
 			/* now check content value */
-			return axl_cmp (content->content, content2->content);
+			if (! axl_cmp (content->content, content2->content)) {
+				axl_error_report (error, -1, "Items content differs ('%s' != '%s')",
+						  content->content, content2->content);
+				return axl_false;
+			}
+			return axl_true;
 		}else {
 			/* duplicate the content */
 			trim = axl_strdup (content->content);
@@ -6785,7 +6790,11 @@ axl_bool          axl_item_are_equal_full      (axlItem    * item,
 		}
 	case ITEM_PI:
 		/* pi case */
-		return axl_pi_are_equal (item->data, item2->data);
+		if (! axl_pi_are_equal (item->data, item2->data)) {
+			axl_error_report (error, -1, "Process instructions differs");
+			return axl_false;
+		}
+		return axl_true;
 	default:
 		/* no case identified, not equal */
 		break;
-- 
2.43.0


From 266bb984a6363843bc46522538a5e513821818b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:50 +0000
Subject: [PATCH 30/51] fix: attribute cursors crashed when placed at no
 attribute

---
 src/axl_node.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index bb6cb37..60f10a3 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -5692,7 +5692,7 @@ axl_bool                 axl_node_attr_cursor_has_next  (axlAttrCursor * cursor)
 
 	if (cursor->count <= 10) {
 		/* just point to the first attribute (managed as AxlAttribute) */
-		return (((axlNodeAttr *) cursor->data)->next) != NULL;
+		return cursor->data != NULL && (((axlNodeAttr *) cursor->data)->next) != NULL;
 	}  /* end if */
 	
 	/* make hash cursor to point to the first */ 
@@ -5746,7 +5746,7 @@ const char *         axl_node_attr_cursor_get_key   (axlAttrCursor * cursor)
 
 	if (cursor->count <= 10) {
 		/* just point to the first attribute (managed as AxlAttribute) */
-		return ((axlNodeAttr *) cursor->data)->attribute;
+		return cursor->data ? ((axlNodeAttr *) cursor->data)->attribute : NULL;
 	}  /* end if */
 	
 	/* make hash cursor to point to the first */ 
@@ -5773,7 +5773,7 @@ const char *         axl_node_attr_cursor_get_value (axlAttrCursor * cursor)
 
 	if (cursor->count <= 10) {
 		/* just point to the first attribute (managed as AxlAttribute) */
-		return ((axlNodeAttr *) cursor->data)->value;
+		return cursor->data ? ((axlNodeAttr *) cursor->data)->value : NULL;
 	}  /* end if */
 	
 	/* make hash cursor to point to the first */ 
-- 
2.43.0


From f99b73b404073a7d96d69a862bea4261db7bc67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:49 +0000
Subject: [PATCH 31/51] fix: axl_node_replace leaked the holder of the new node
 when it had been linked before

---
 src/axl_node.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index 60f10a3..ec6ae81 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -3458,6 +3458,11 @@ void      axl_node_replace             (axlNode   * node,
 			/* nullify the holder reference, and configure
 			 * the holder reference in the node */
 			node->holder     = NULL;
+
+			/* release the holder the new node had, since
+			 * it is being replaced */
+			if (new_node->holder != NULL && (new_node->holder->type & ITEM_FROM_FACTORY) == 0)
+				axl_free (new_node->holder);
 			new_node->holder = p_item;
 			
 		} /* end if */
-- 
2.43.0


From 2c452d9a33cae0fe0a3e297cc8997bf7113e307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:49 +0000
Subject: [PATCH 32/51] fix: axl_node_dump_to_file wrote the pretty form
 instead of the content of the node

---
 src/axl_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_node.c b/src/axl_node.c
index ec6ae81..acab4bb 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -4370,7 +4370,7 @@ axl_bool      axl_node_dump_to_file            (axlNode  * node,
 	int    written;
 
 	/* use common implementation for all functions */
-	if (!  __axl_node_dump_common (node, &content, &size, axl_true, 0, 0))
+	if (!  __axl_node_dump_common (node, &content, &size, axl_false, 0, 0))
 		return axl_false;
 
 	/* open the file and check */
-- 
2.43.0


From 0677338ab7c2d6db5ab00d0afa386996b64a8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:26 +0000
Subject: [PATCH 33/51] fix: leading white spaces of content could be lost
 loading files, and with xml:space=preserve after comments and process
 instructions

---
 src/axl_doc.c | 83 +++++++++++++++++++++++++--------------------------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 161f6f3..763e35d 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1158,7 +1158,8 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 	axlDoc    * doc           = NULL;
 	axlNode   * node          = NULL;
 	char      * string        = NULL;
-	int         index;
+	char      * content       = NULL;
+	int         size;
 	axl_bool    is_empty      = axl_false;
 	
 	/* create the xml stream using provided data */
@@ -1198,16 +1199,31 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 		/* while the stream have data */
 		while (axl_stream_remains (stream)) {
 
-			/* get current index */
-			index = axl_stream_get_index (stream);
+			/* check for node content */
+			if (! (axl_stream_peek (stream, "<", 1) > 0)) {
+				/* found node content */
+				string = axl_stream_get_until (stream, NULL, NULL, axl_false, 1, "<");
 
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "current index: %d (global: %d)", index,
-				   axl_stream_get_global_index (stream));
-			
-			/* get rid from spaces according to the
-			 * xml:space configuration */
-			if (! axl_binary_stack_peek (doc->xmlPreserve)) {
-				AXL_CONSUME_SPACES(stream);
+				/* check for a null content found */
+				if (string == NULL) {
+					axl_error_new (-1, "an error was found while reading the xml node content", stream, error);
+					axl_stream_free (stream);
+					return NULL;
+				}
+
+				/* get rid from content having only white
+				 * spaces according to the xml:space
+				 * configuration */
+				size = strlen (string);
+				if (axl_binary_stack_peek (doc->xmlPreserve) || (int) strspn (string, " \n\t\r") < size) {
+					/* copy the content into memory owned by
+					 * the document and set it */
+					content = __axl_doc_alloc (size + 1, doc);
+					memcpy (content, string, size + 1);
+					axl_node_set_content_from_factory (doc->content_factory, node, content, size);
+				} /* end if */
+
+				continue;
 			} /* end if */
 
 			/* consume a possible comment and process instructions */
@@ -1295,32 +1311,6 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 				continue;
 			}
 			
-			/* restore index position previous to the axl
-			 * space consuming */
-			if (axl_stream_get_index (stream) > index) {
-				axl_stream_move (stream, index);
-			}
-			
-			/* found node content */
-			axl_stream_set_buffer_alloc (stream, (axlStreamAlloc)__axl_doc_alloc, doc);
-			string = axl_stream_get_until (stream, NULL, NULL, axl_false, 1, "<");
-			axl_stream_set_buffer_alloc (stream, NULL, NULL);
-			
-			/* check for a null content found */
-			if (string == NULL) {
-				axl_error_new (-1, "an error was found while reading the xml node content", stream, error);
-				axl_stream_free (stream);
-				return NULL;
-			}
-
-			/* nullify internal stream reference to have
-			 * the unique reference */
-			axl_stream_nullify (stream, LAST_CHUNK);
-
-			/* set current data */
-			/* axl_node_set_content_ref (node, string, -1); */
-			axl_node_set_content_from_factory (doc->content_factory, node, string, -1); 
-
 			/* keep on looping */
 		}
 	}
@@ -3386,7 +3376,10 @@ axl_bool      axl_doc_consume_comments         (axlDoc * doc, axlStream * stream
 	int          size;
 
 	/* get current parent node */
-	axlNode * parent = (doc != NULL) ? axl_stack_peek (doc->parentNode) : NULL;
+	axlNode * parent   = (doc != NULL) ? axl_stack_peek (doc->parentNode) : NULL;
+
+	/* and its white space handling */
+	axl_bool  preserve = (parent != NULL) ? axl_binary_stack_peek (doc->xmlPreserve) : axl_false;
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "checking for comemnts");
 
@@ -3398,8 +3391,11 @@ axl_bool      axl_doc_consume_comments         (axlDoc * doc, axlStream * stream
 		 * comments matching and PI matching fails. */
 		found_item = axl_false;
 		
-		/* get rid from spaces */
-		AXL_CONSUME_SPACES(stream);
+		/* get rid from spaces, but not inside a node
+		 * preserving them */
+		if (! preserve) {
+			AXL_CONSUME_SPACES(stream);
+		} /* end if */
 
 		/* check for comments */
 		if (axl_stream_inspect (stream, "<!--", 4) > 0) {
@@ -3422,8 +3418,11 @@ axl_bool      axl_doc_consume_comments         (axlDoc * doc, axlStream * stream
 		}
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "now see for process instructions");
 	
-		/* get rid from spaces */
-		AXL_CONSUME_SPACES(stream);
+		/* get rid from spaces, but not inside a node
+		 * preserving them */
+		if (! preserve) {
+			AXL_CONSUME_SPACES(stream);
+		} /* end if */
 
 		/* check for PI, only once the xml header have been processed */
 		if ((doc != NULL) && doc->headerProcess && (axl_stream_peek (stream, "<?", 2) > 0)) {
@@ -3435,7 +3434,7 @@ axl_bool      axl_doc_consume_comments         (axlDoc * doc, axlStream * stream
 		
 		/* do not consume spaces if an item was found because
 		 * it is done again at the begin of the loop */
-		if (! found_item) {
+		if (! found_item && ! preserve) {
 			/* get rid from spaces */
 			AXL_CONSUME_SPACES(stream);
 		}
-- 
2.43.0


From 3881e9d980314fff2302dfb82efbc8c7d2163dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:37 +0000
Subject: [PATCH 34/51] fix: <a>/> was accepted as an empty node

---
 src/axl_doc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 763e35d..0f9f1b2 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -909,7 +909,7 @@ axl_bool __axl_doc_parse_node (axlStream   * stream,
 		 * the value 0 or 1 was matched, this means that we
 		 * are on "/>" case */
 		if ((matched_chunk == 1) ||
-		    axl_stream_inspect (stream, "/>", 2) > 0) {
+		    (matched_chunk != 0 && axl_stream_inspect (stream, "/>", 2) > 0)) {
 			/* use alloc though string factory */
 			axl_stream_set_buffer_alloc (stream, NULL, NULL);
 
-- 
2.43.0


From 3fbba4f804b4f6a077acb79f6faae8115071b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:55 +0000
Subject: [PATCH 35/51] fix: DTD validation hung or gave wrong answers for
 content models with optional or alternative groups

---
 src/axl_dtd.c | 868 +++++++++++++++-----------------------------------
 src/axl_dtd.h |   8 -
 2 files changed, 248 insertions(+), 628 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 99ed59e..efbb698 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2019,626 +2019,260 @@ axlDtd   * axl_dtd_parse_from_file (const char * file_path,
 
 
 /** 
- * @internal
- * 
- * Support function for axl_dtd_validate which checks if the provided
- * parent have its childs configuration according to the values
- * expresed on the sequenced represented by the itemList.
- *
- * The function return axl_true if the validation was ok, or axl_false
- * if something have failed. It also creates an error, using the
- * optional axlError reference received.
- */
-axl_bool     __axl_dtd_validate_sequence (axlNode            * parent, 
-					  int                * child_position,
-					  axlDtdElementList  * itemList, 
-					  axlError          ** error,
-					  axl_bool             try_match,
-					  axl_bool             top_level)
-{
-	int                      iterator        = 0;
-	int                      child_pos       = *child_position;
-	axlNode                * node;
-	axlDtdElementListNode  * itemNode;
-	axl_bool                 status          = axl_false;
-	axl_bool                 one_matched;
-	AxlDtdTimes              times;
-	
-
-	axl_return_val_if_fail (parent, axl_false);
-	axl_return_val_if_fail (itemList, axl_false);
-
-
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validating a sequence list: iterator=%d, item list count=%d, at child position=%d",
-		 iterator, axl_dtd_item_list_count (itemList), child_pos);
-
-	/* iterate over the sequence, checking its order */
-	while (iterator < axl_dtd_item_list_count (itemList)) {
-		
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "getting next item node from the DTD item list at: %d",
-			 iterator);
-		
-		/* get the item node specification */
-		itemNode    = axl_dtd_item_list_get_node (itemList, iterator);
-		one_matched = axl_false;
-		times       = axl_dtd_item_node_get_repeat (itemNode);
-
-		do {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "getting node at child position: %d",
-				   child_pos);
-
-			/* get the node that is located at the same position
-			 * than the sequence */
-			if (child_pos < axl_node_get_child_num (parent)) {
-				node     = axl_node_get_child_nth (parent, child_pos);
-			} else
-				node     = NULL;
-
-			/* the node child list have ended, check if
-			 * this situation was expected */
-			if (node == NULL) {
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "no more child nodes to validate at %d, for parent: %s, times: %d, iterator: %d, item count: %d",
-					   child_pos, axl_node_get_name (parent), times,
-					   iterator, axl_dtd_item_list_count (itemList));
-				/* check if we were working with a
-				 * list, which have matched at least
-				 * one item */
-				if (times == ONE_OR_MANY && one_matched && status) {
-					if ((iterator + 1) == axl_dtd_item_list_count (itemList)) {
-						*child_position = child_pos;
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence validated with child position (III): %d", child_pos);
-						return axl_true;
-					} 
-
-					/* reached this point we have
-					   matched a one to many with
-					   at least one match */
-					break;
-				}
-				
-				/* check that the rest of the
-				 * specification item is optional,
-				 * including the one used */
-				status = axl_true;
-				do {
-					if (times != ZERO_OR_MANY &&
-					    times != ZERO_OR_ONE) {
-
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found item, inside the DTD item list, that is not optional: %d (repeat value: %d)", 
-							   iterator, times);
-						status = axl_false;
-						break;
-					}
-
-					/* update index and get the next item */
-					iterator++;
-					if (iterator < axl_dtd_item_list_count (itemList))
-						itemNode = axl_dtd_item_list_get_node (itemList, iterator);
-				}while (status && (iterator < axl_dtd_item_list_count (itemList)));
-
-				/* check status before checking the rest of the item spec */
-				if (status) {
-					*child_position = child_pos;
-
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence validated with child position (II): %d", child_pos);
-
-					return axl_true;
-				}
-				
-				/* check if a try match is being runned */
-				if (! try_match) {
-					axl_error_report (error, -1 , 
-						       "Found that DTD specifies more nodes to be hold by the parent (<%s>), but no more childs were found",
-						       axl_node_get_name (parent));
-				}
-
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found that no nodes left to satisfy DTD validation operation");
-				*child_position = child_pos;
-				return axl_false;
-			}
-
-			/* check node type */
-			if (axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_LIST) {
-
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "the item node is an item list, dtd item list position: %d, child position: %d=<%s>",
-					 iterator, child_pos, axl_node_get_name (node));
-
-				/* element list found, validate its content */
-				if (! __axl_dtd_validate_item_list (axl_dtd_item_node_get_list (itemNode),
-								    parent, &child_pos, error, axl_false)) {
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sub item list validation have failed (not critical)");
-					/* check if we are the top
-					 * level list and the itemNode
-					 * checked is the last one
-					 * item on the item list */
-					if (top_level && ((iterator + 1) == axl_node_get_child_num (parent))) {
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "found that the last item list wasn't matched");
-						
-					}
-
-					*child_position = child_pos;
-					return axl_false;
-				}
-
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validated item list, child position after: %d",
-					   child_pos);
-				/* because child position updating and
-				 * repeat matching is already handled
-				 * by dtd_validate_item_list function
-				 * we just continue with the next
-				 * iteration */
-				break;
-
-			} else if (axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_NODE) {
-				/* check the name against the spec */
+ * @internal Set of positions found between the childs of a node:
+ * position n is the place before the child n (starting from 0), and
+ * the last position is the place after the last child.
+ */
+typedef struct _axlDtdPositions {
+	/* flags, one for each position, signaling the ones included */
+	char * set;
+	/* first and last position that could be included, having last
+	 * < first for an empty set */
+	int    first;
+	int    last;
+} axlDtdPositions;
+
+/* prototype declaration, because item lists could be nested */
+axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
+					   axlNode           ** childs,
+					   int                  childs_num,
+					   axlDtdPositions    * from,
+					   axlDtdPositions    * to);
 
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, 
-					   "the item node is a final content particule definition: %s",
-					   axl_dtd_item_node_get_value (itemNode));
+/** 
+ * @internal Inits an empty set of positions, for the provided number
+ * of childs.
+ */
+axl_bool __axl_dtd_positions_init (axlDtdPositions * positions, int childs_num)
+{
+	positions->set   = axl_new (char, childs_num + 1);
+	positions->first = childs_num + 1;
+	positions->last  = -1;
 
-				status = NODE_CMP_NAME (node, axl_dtd_item_node_get_value (itemNode));
-			}
+	return positions->set != NULL;
+}
 
-			/* check previous status */
-			if ((times == ONE_AND_ONLY_ONE) || 
-			    (times == ONE_OR_MANY && one_matched == axl_false)) {
-				if (! status) {
-					/* only report an upper level
-					 * error if we are not running
-					 * a try match */
-					if (! try_match) {
-
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, 
-							   "Found different node (<%s>) for a sequence expected (<%s>), at child position: %d, item list pos: %d",
-							   axl_node_get_name (node), 
-							   axl_dtd_item_node_get_value (itemNode),
-							   child_pos, iterator);
-						axl_error_report (error, -1, 
-								  "Found different node (<%s>) for a sequence expected (<%s>), at child position: %d, item list pos: %d",
-								  axl_node_get_name (node), 
-								  axl_dtd_item_node_get_value (itemNode),
-								  child_pos, iterator);
-					}
-					/* return that a match wasn't possible */
-					*child_position = child_pos;
-					return axl_false;			
-				}
-			}
+/** 
+ * @internal Adds the position to the set.
+ */
+void __axl_dtd_positions_add (axlDtdPositions * positions, int position)
+{
+	positions->set[position] = 1;
+	if (position < positions->first)
+		positions->first = position;
+	if (position > positions->last)
+		positions->last = position;
+	return;
+}
 
-			/* according to the repetition pattern, update loop indexes */
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "updating child nodes references: %d, repeat type: %d, status=%d",
-				   child_pos, times, status);
+/** 
+ * @internal Adds to the set all positions found in the second one.
+ */
+void __axl_dtd_positions_add_all (axlDtdPositions * positions, axlDtdPositions * other)
+{
+	int iterator;
 
+	for (iterator = other->first; iterator <= other->last; iterator++) {
+		if (other->set[iterator])
+			__axl_dtd_positions_add (positions, iterator);
+	} /* end for */
+	return;
+}
 
-			/* one only item to match and exactly one */
-			if (times == ONE_AND_ONLY_ONE) {
-				child_pos++;
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "updated child position to: %d, repeat type: %d, status=%d",
-					   child_pos, times, status);
-				break;
-			}
+/** 
+ * @internal
+ *
+ * Matches the item, according to its repetition pattern, starting at
+ * any of the positions provided (from), adding (to) all positions
+ * that could be reached.
+ */
+axl_bool __axl_dtd_validate_item (axlDtdElementListNode  * itemNode,
+				  axlNode               ** childs,
+				  int                      childs_num,
+				  axlDtdPositions        * from,
+				  axlDtdPositions        * to)
+{
+	axlDtdPositions   reached;
+	AxlDtdTimes       times;
+	int               iterator;
 
-			/* one or many items to match */
-			if (times == ONE_OR_MANY) { 
+	/* a nested list, which has its own repetition pattern */
+	if (axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_LIST) 
+		return __axl_dtd_validate_item_list (axl_dtd_item_node_get_list (itemNode), childs, childs_num, from, to);
 
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "matched one to many item node: status=%d one_matched=%d",
-					   status, one_matched);
+	if (! __axl_dtd_positions_init (&reached, childs_num))
+		return axl_false;
 
-				/* if the match have failed and
-				 * previous matches was ok, it seems
-				 * we have reached the next
-				 * items. Just break the loop */
-				if (status == axl_false && one_matched == axl_true) 
-					break;
+	/* match one child from each position and, if allowed, go on
+	 * from the position reached */
+	times = axl_dtd_item_node_get_repeat (itemNode);
+	for (iterator = from->first; iterator < childs_num && (iterator <= from->last || iterator <= reached.last); iterator++) {
+		if (! from->set[iterator] && 
+		    ! (reached.set[iterator] && (times == ONE_OR_MANY || times == ZERO_OR_MANY)))
+			continue;
+		if (NODE_CMP_NAME (childs[iterator], axl_dtd_item_node_get_value (itemNode)))
+			__axl_dtd_positions_add (&reached, iterator + 1);
+	} /* end for */
 
-				child_pos++;
-				one_matched = axl_true;
-				continue; /* don't break the loop */
-			}
+	/* record positions reached, including the ones matching
+	 * nothing */
+	__axl_dtd_positions_add_all (to, &reached);
+	if (times == ZERO_OR_ONE || times == ZERO_OR_MANY)
+		__axl_dtd_positions_add_all (to, from);
 
-			/* zero or optionally one item to match */			
-			if (times == ZERO_OR_ONE) {
-				/* if previous status was ok, it seems
-				 * that we have matched the optional
-				 * character. In that case, move the
-				 * index to the following value. If
-				 * not, just break the loop. */
-				if (status == axl_true)
-					child_pos++;
-				break;
-			}
+	axl_free (reached.set);
+	return axl_true;
+}
 
-			/* zero or many items to match */
-			if (times == ZERO_OR_MANY) {
-				if (status == axl_true) {
-					one_matched = axl_true;
-					child_pos++;
-					continue;
-				}
-				break;
-			}
+/** 
+ * @internal
+ * 
+ * Support function for axl_dtd_validate which matches the sequence
+ * represented by the itemList, once, starting at any of the positions
+ * provided (from), adding (to) all positions that could be reached.
+ *
+ * The function returns axl_false only if there is not enough memory.
+ */
+axl_bool     __axl_dtd_validate_sequence (axlDtdElementList  * itemList,
+					  axlNode           ** childs,
+					  int                  childs_num,
+					  axlDtdPositions    * from,
+					  axlDtdPositions    * to)
+{
+	axlDtdPositions   current;
+	axlDtdPositions   next;
+	axl_bool          status   = axl_true;
+	int               iterator = 0;
 
+	if (! __axl_dtd_positions_init (&current, childs_num))
+		return axl_false;
+	__axl_dtd_positions_add_all (&current, from);
 
-			/* until break the loop */
-		}while (axl_true);
+	/* match each item from the positions reached by the previous
+	 * one */
+	while (status && iterator < axl_dtd_item_list_count (itemList)) {
+		status = __axl_dtd_positions_init (&next, childs_num) &&
+			__axl_dtd_validate_item (axl_dtd_item_list_get_node (itemList, iterator), 
+						 childs, childs_num, &current, &next);
+		axl_free (current.set);
+		current = next;
 
 		/* update iterator index */
 		iterator++;
-	}
-
-	/* check if more nodes where specified than the DTD spec */
-	times = axl_dtd_item_list_repeat (itemList);
-	if ((times == ONE_OR_MANY || times == ONE_AND_ONLY_ONE) && 
-	    top_level && (child_pos  < axl_node_get_child_num (parent))) {
-
-		/* drop a log */
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "parent node <%s> have more childs=%d than the childs iterated=%d, top_level=%d",
-			   axl_node_get_name (parent),
-			   axl_node_get_child_num (parent),
-			   child_pos, top_level);
-
-		/* do not report an error found if a try match is
-		 * being run */
-		if (! try_match) {
-			axl_error_new (-1, "More childs, than the ones especified in the DTD, were found",
-				       NULL, error);
-		}
-		/* return that the match wasn't possible */
-		*child_position = child_pos;
-		return axl_false;
-	}
-
-	/* return that the sequence has been validated */
-	*child_position = child_pos;
-
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence validated with child position (I): %d", child_pos);
-
-	return axl_true;
+	} /* end while */
+	
+	if (status)
+		__axl_dtd_positions_add_all (to, &current);
+	axl_free (current.set);
+	return status;
 }
 
 /** 
  * @internal
- * 
- * Internal support function to validate the choice list.
+ *
+ * Support function for axl_dtd_validate which matches the choice
+ * represented by the itemList, once, starting at any of the positions
+ * provided (from), adding (to) all positions that could be reached.
+ *
+ * The function returns axl_false only if there is not enough memory.
  */
-axl_bool     __axl_dtd_validate_choice (axlNode             * parent, 
-					int                 * child_position, 
-					axlDtdElementList   * itemList, 
-					axlError           ** error,
-					axl_bool              try_match, 
-					axl_bool              top_level)
+axl_bool     __axl_dtd_validate_choice (axlDtdElementList   * itemList,
+					axlNode            ** childs,
+					int                   childs_num,
+					axlDtdPositions     * from,
+					axlDtdPositions     * to)
 {
-	axlNode               * node;
-	axlDtdElementListNode * itemNode;
-	int                     iterator;
-	axl_bool                status;
-	AxlDtdTimes             times;
-	axl_bool                one_match;
+	int iterator = 0;
 
-	
-	if (*child_position < axl_node_get_child_num (parent)) {
-		/* get a reference to be matched by the choice list */
-		node = axl_node_get_child_nth (parent, *child_position);
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validated choice list at position: %d=<%s>", *child_position, axl_node_get_name (node));
-	} else {
-		/* tried to match a choice list with a child index
-		 * outside the maximum number of childs */
-		if (! try_match) {
-			axl_error_new (-1, "Unable to match choice list, it seems that the are not enough childs to validate the choice list",
-				       NULL, error);
-		}
-		return axl_false;
-	}
-
-	iterator = 0; 
 	while (iterator < axl_dtd_item_list_count (itemList)) {
-		/* get the DTD item list to match */
-		itemNode = axl_dtd_item_list_get_node   (itemList, iterator);
-		times    = axl_dtd_item_node_get_repeat (itemNode);
-
-		if (axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_NODE) {
-			/* reset match configuration */
-			one_match = axl_false;
-		repeat_for_node:
-			/* a node was found */
-			status    = NODE_CMP_NAME (node, axl_dtd_item_node_get_value (itemNode));
-
-			/* know, if the node was matched check it
-			 * repetition configuration */
-			if (status) {
-				/* update child position */
-				(*child_position)++;
-
-				if (times == ONE_AND_ONLY_ONE || times == ZERO_OR_ONE) {
-					/* the node was matched and
-					 * the itemNode has a one and
-					 * only one configuration,
-					 * just return that the choice
-					 * list was matched */
-					return axl_true;
-				}
-				if (times == ONE_OR_MANY || times == ZERO_OR_MANY) {
-					/* because the node was matched, but the repetition
-					 * pattern allows to match more nodes we have to
-					 * iterate a bit more */
-					node = axl_node_get_child_nth (parent, *child_position);
-					if (node == NULL) {
-						/* because we already matched at least one item, 
-						 * we can assume that the itemNode was successfully 
-						 * matched for both cases (*) and (+). */
-						return axl_true;
-					}
-					/* flag the one match */
-					one_match = axl_true;
-					
-					/* if the node reference is
-					 * not NULL, try to match the
-					 * next item */
-					goto repeat_for_node;
-				}
-			} /* end if */
-			
-			/* before returning, that that we have matched
-			 * previously, at least, one node for
-			 * one-to-many and zero-to-many pattern */
-			if ((times == ONE_OR_MANY || times == ZERO_OR_MANY) && one_match) {
-				return axl_true;
-			}
-
-		} else if (axl_dtd_item_node_get_type (itemNode) == AXL_ELEMENT_LIST) {
-			/* an element list was found, call to validate it */
-			/* element list found, validate its content */
-			if (__axl_dtd_validate_item_list (axl_dtd_item_node_get_list (itemNode),
-							  parent, child_position, error, axl_false)) {
-				/* item list matched */
-				return axl_true;
-			}
-		}
+		if (! __axl_dtd_validate_item (axl_dtd_item_list_get_node (itemList, iterator),
+					       childs, childs_num, from, to))
+			return axl_false;
 
-		/* no item was matched, update iterator indexes */
+		/* update iterator index */
 		iterator++;
-	}
+	} /* end while */
 
-	/* seems that the choice list wasn't matched */
-	if (! try_match) {
-		axl_error_new (-1, "Unable to match choice list, after checking all posibilities, choice list wasn't validated", 
-			       NULL, error);
-	}
-	return axl_false;
+	return axl_true;
 }
 
 /** 
  * @internal 
  *
- * Tries to perform a validation, based on the item list received and
- * the repetition configuration.
+ * Matches the item list received, according to its repetition
+ * configuration.
  * 
  * @param itemList The item list containing DTD content spec
  * information used to validate.
  *
- * @param parent The parent node where the validation process is being
- * applied. The content spec refers to the childs the parent has.
+ * @param childs The childs being validated.
  *
- * @param stack An stack used by the overall process to store the
- * subsequent parents to be validated. This stack must be released if
- * a error is found.
+ * @param childs_num The number of childs.
  *
- * @param error An optional axlError reference containing the error
- * textual diagnostic if found.
+ * @param from Positions, between the childs, where the match could
+ * start.
+ *
+ * @param to Set where positions reached are added. 
  * 
- * @return axl_true if the validation was ok, otherwise axl_false is
- * returned.
+ * @return axl_false only if there is not enough memory.
  */
 axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
-					   axlNode            * parent, 
-					   int                * child_position,
-					   axlError          ** error,
-					   axl_bool             top_level)
-{
-	int          temp_child_pos;
-	axl_bool     status;
-	axl_bool     already_matched;
-
-
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validating an item list with repeat pattern: %d, at %d, top level=%d",
-		   axl_dtd_item_list_repeat (itemList), *child_position, top_level);
-
-	/* now check repetition type */
-	switch (axl_dtd_item_list_repeat (itemList)) {
-	case ONE_AND_ONLY_ONE:
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a (one and only one) spec..");
-		if (axl_dtd_item_list_type (itemList) == SEQUENCE) {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "using a SEQUENCE form");
-			/* it is a choice, so the item list specifies
-			 * the nodes that could appear */
-			if (!__axl_dtd_validate_sequence (parent, child_position, itemList, error, 
-							  axl_false, top_level)) {
-				return axl_false;
-			}
-		}else {
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "using a CHOICE form");
-			/* it is a sequence, so, item list
-			 * specification represents the nodes, in the
-			 * order they must appear */
-			if (!__axl_dtd_validate_choice (parent, child_position, itemList, error,
-							axl_false, top_level)) {
-				return axl_false;
-			}
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "choice list was properly validated");
-		}
-		break;
-	case ZERO_OR_ONE:
-
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a (zero or one) spec..");
-		if (axl_dtd_item_list_type (itemList) == SEQUENCE) {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "using a SEQUENCE form, parent: <%s>",
-				   axl_node_get_name (parent));
-			/* because we are running a zero or one item
-			 * list matching, we don't care if it doesn't
-			 * match. In the case it match, the child
-			 * position is updated and next calls will be
-			 * properly aligned. In the match doesn't
-			 * happens, it also don't matter because the
-			 * pattern allow to not match */
-			temp_child_pos = *child_position;
-			if (!__axl_dtd_validate_sequence (parent, child_position, itemList, error, 
-							  axl_true, top_level)) {
-				/* check that the match wasn't
-				 * produced, at any level */
-				if (temp_child_pos != *child_position) {
-					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "item list mismatch (%d != %d)", 
-						   temp_child_pos, *child_position);
-					axl_error_new (-1, "Found an DTD item list definition, that should be matched entirely or not, zero or one time, but it was matched partially",
-						       NULL, error);
-					return axl_false;
-				}
-
-				return axl_false;
-			}
-			
-		}else {
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a CHOICE form");
-
-			/* it is a sequence, so, item list
-			 * specification represents the nodes, in the
-			 * order they must appear */
-			__axl_dtd_validate_choice (parent, child_position, itemList, error,
-						   axl_true, top_level);
-		}
-		break;
-	case ZERO_OR_MANY:
-
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a (zero or many) spec..");
-		if (axl_dtd_item_list_type (itemList) == SEQUENCE) {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a SEQUENCE (size: %d) form ",
-				   axl_dtd_item_list_count (itemList));
-			/* one this case, several matches must be
-			 * tried, until the validation fails */
-			do {
-				temp_child_pos = *child_position;
-				status         = __axl_dtd_validate_sequence (parent, child_position, itemList, error, 
-									      axl_true, top_level);
-
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence match status=%d", status);
-				if (! status) {
-					/* check that the match wasn't
-					 * produced, at any level */
-					if ((temp_child_pos != *child_position)) {
-
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "item list mismatch (%d != %d)", 
-							   temp_child_pos, *child_position);
-						axl_error_new (-1, "Found an DTD item list definition, that should be matched entirely or not, zero or many times, but it was matched partially",
-							       NULL, error);
-						return axl_false;
-					}
-				}
-			}while (status);
-		}else {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a CHOICE form");
-			/* it is a sequence, so, item list
-			 * specification represents the nodes, in the
-			 * order they must appear */
-			do {
-				status = __axl_dtd_validate_choice (parent, child_position, itemList, error,
-								    axl_true, top_level);
-			}while (status);
-		}
-		break;
-	case ONE_OR_MANY:
-		/* one or many sequence spec (+) */
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found a (zero or many) spec..");
-		if (axl_dtd_item_list_type (itemList) == SEQUENCE) {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a SEQUENCE (size: %d) form ",
-				   axl_dtd_item_list_count (itemList));
-
-			/* one this case, several matches must be
-			 * tried, until the validation fails */
-			already_matched = axl_false;
-			do {
-				temp_child_pos = *child_position;
-				/* try to match the one or many
-				   sequence according to the value
-				   stored inside already matched */
-				status         = __axl_dtd_validate_sequence (parent, child_position, itemList, error, 
-									      already_matched, top_level);
-
-				__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "sequence match status=%d", status);
-				if (! status) {
-					/* check that the match wasn't
-					 * produced, at any level */
-					if ((temp_child_pos != *child_position)) {
-
-						__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "item list mismatch, matched partially (%d != %d)", 
-							   temp_child_pos, *child_position);
-						axl_error_new (-1, 
-							       "Found an DTD item list definition, that should be matched entirely or not, one or many times, but it was matched partially",
-							       NULL, error);
-						return axl_false;
-					}
-				}else {
-					/* set that we have matched, at least, one item */
-					already_matched = axl_true;
-				}
-
-				
-
-			}while (status);
-		}else {
-
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "    using a CHOICE form");
-			/* it is a sequence, so, item list
-			 * specification represents the nodes, in the
-			 * order they must appear */
-			already_matched = axl_false;
-			do {
-				/* the next choice matching is done
-				 * according to the value stored in
-				 * already matched */
-				status = __axl_dtd_validate_choice (parent, child_position, itemList, error,
-								    already_matched, top_level);
-				/* if the validation successed, set
-				 * that next matched are not required
-				 * to be successful ones */
-				if (status)
-					already_matched = axl_true;
-			}while (status);
-		}
-		break;
-	default:
-		/* this case will never be reached */
-#define INTERNAL_ERROR_01 "critical error reached a place that shows the dtd parser is not properly defining the repetition pattern for the current itemList."
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, INTERNAL_ERROR_01);
-		axl_error_new (-1, INTERNAL_ERROR_01, NULL, error);
+					   axlNode           ** childs,
+					   int                  childs_num,
+					   axlDtdPositions    * from,
+					   axlDtdPositions    * to)
+{
+	axlDtdPositions   reached;
+	axlDtdPositions   current;
+	axlDtdPositions   next;
+	AxlDtdTimes       times    = axl_dtd_item_list_repeat (itemList);
+	axl_bool          status   = axl_true;
+	int               iterator;
+
+	reached.set = NULL;
+	current.set = NULL;
+	if (! __axl_dtd_positions_init (&reached, childs_num) ||
+	    ! __axl_dtd_positions_init (&current, childs_num)) {
+		axl_free (reached.set);
 		return axl_false;
-	}
-
-
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "validate item list terminated, now check post-conditions, top_level=%d, item list type=%d, child pos=%d, childs num=%d",
-		   top_level, axl_dtd_item_list_type (itemList), *child_position, axl_node_get_child_num (parent));
+	} /* end if */
 
-	/* check that, in the case that the choice item list is being
-	 * validated, ensure it has validated all nodes, especially if
-	 * we are the top level definition */
-	if (top_level && (axl_dtd_item_list_type (itemList) == CHOICE)) {
-		if (((*child_position) + 1) < axl_node_get_child_num (parent)) {
-		    
+	/* check if the list could match nothing */
+	if (times == ZERO_OR_ONE || times == ZERO_OR_MANY)
+		__axl_dtd_positions_add_all (&reached, from);
 
-			__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "found that the choice list didn't cover all childs (%d), while parent=<%s> has: (%d)",
-				   (*child_position), axl_node_get_name (parent), axl_node_get_child_num (parent));
-			axl_error_new (-1, "Found that the validation process didn't cover all nodes, while using a choice list. This means that the xml document have more content than the DTD spec",
-				       NULL, error);
-			return axl_false;
-		}
-	}
-	
-	/* element type children validated */
-	return axl_true;       
+	__axl_dtd_positions_add_all (&current, from);
+	do {
+		/* match the list once */
+		status = __axl_dtd_positions_init (&next, childs_num);
+		if (! status)
+			break;
+		if (axl_dtd_item_list_type (itemList) == CHOICE)
+			status = __axl_dtd_validate_choice (itemList, childs, childs_num, &current, &next);
+		else
+			status = __axl_dtd_validate_sequence (itemList, childs, childs_num, &current, &next);
+		
+		/* go on, if the list can be repeated, only from the
+		 * positions that were not reached before */
+		axl_free (current.set);
+		current = next;
+		for (iterator = next.first; iterator <= next.last; iterator++) {
+			if (next.set[iterator] && reached.set[iterator])
+				current.set[iterator] = 0;
+		} /* end for */
+		while (current.first <= current.last && ! current.set[current.first])
+			current.first++;
+		while (current.first <= current.last && ! current.set[current.last])
+			current.last--;
+		__axl_dtd_positions_add_all (&reached, &current);
+
+	} while (status && current.first <= current.last && (times == ONE_OR_MANY || times == ZERO_OR_MANY));
+
+	if (status)
+		__axl_dtd_positions_add_all (to, &reached);
+	axl_free (reached.set);
+	axl_free (current.set);
+	return status;
 }
 
 /** 
@@ -2649,49 +2283,49 @@ axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList,
  */
 axl_bool     __axl_dtd_validate_element_type_children (axlDtdElement  * element, 
 						       axlNode        * parent, 
-						       axl_bool         top_level,
 						       axlError      ** error)
 {
-	axlDtdElementList * itemList;
-	int                 child_pos = 0;
-	char              * err_msg;
+	axlNode         ** childs;
+	axlNode          * child;
+	axlDtdPositions    from;
+	axlDtdPositions    to;
+	int                childs_num = axl_node_get_child_num (parent);
+	int                iterator   = 0;
+	axl_bool           result     = axl_false;
+
+	from.set = NULL;
+	to.set   = NULL;
+	childs   = axl_new (axlNode *, childs_num + 1);
+	if (childs != NULL && 
+	    __axl_dtd_positions_init (&from, childs_num) &&
+	    __axl_dtd_positions_init (&to, childs_num)) {
+
+		/* get the childs to validate */
+		child = axl_node_get_first_child (parent);
+		while (child != NULL && iterator < childs_num) {
+			childs[iterator] = child;
+			iterator++;
+			child = axl_node_get_next (child);
+		} /* end while */
+
+		/* validate the item list, starting from the child 0,
+		 * checking that it could cover all childs */
+		__axl_dtd_positions_add (&from, 0);
+		result = __axl_dtd_validate_item_list (axl_dtd_get_item_list (element), childs, childs_num, &from, &to) &&
+			to.set[childs_num];
+	} /* end if */
 
-	/* get a reference to the item list */
-	itemList = axl_dtd_get_item_list (element);
+	axl_free (childs);
+	axl_free (from.set);
+	axl_free (to.set);
 
-	/* check for xml nodes with fewer content than the initially
-	 * expected. */
-	if (axl_node_get_child_num (parent) < element->minimum_match) {
-		err_msg = axl_strdup_printf ("Found that the parent node (<%s>) received doesn't contains enough xml nodes inside to get a proper validation (childs found (%d) != childs that should be found (%d)). This means that the xml document have fewer content than the DTD spec.",
-					     axl_node_get_name (parent), 
-					     axl_node_get_child_num (parent), 
-					     element->minimum_match);
-		axl_error_new (-1, err_msg, NULL, error);
-		axl_free (err_msg);
-		return axl_false;
-	}
-
-	/* validate the item list, starting from the child 0 */
-	if (__axl_dtd_validate_item_list (itemList, parent, &child_pos, error, top_level)) {
-		/* check if, at least, all minimum elements was
-		 * matched */
-		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "checking minimum node match: (%d < min: %d) (%d < childs: %d) node=<%s>", 
-			   child_pos, element->minimum_match,
-			   child_pos, axl_node_get_child_num (parent),
-			   axl_node_get_name (parent));
-			
-		if (child_pos < axl_node_get_child_num (parent)) {
-			axl_error_report (error, -1,
-					  "Found that the validation process didn't cover all nodes (%d < min:%d) (%d < childs:%d). All xml child nodes inside the parent=<%s> wasn't covered. This means that the xml document have more content than the DTD spec defines.",
-					  child_pos, element->minimum_match, child_pos, axl_node_get_child_num (parent), 
-					  axl_node_get_name (parent));
-			return axl_false;
-		}
-		/* seems that the minimum match */
-		return axl_true;
-	}
+	if (! result) {
+		axl_error_report (error, -1,
+				  "Found that the childs (%d) of the parent node (<%s>) doesn't match the content specification found in the DTD",
+				  childs_num, axl_node_get_name (parent));
+	} /* end if */
 
-	return axl_false;
+	return result;
 }
 
 /** 
@@ -3026,7 +2660,6 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	axlList            * idref_validation = NULL;
 	
 	axlDtdElement      * element;
-	axl_bool             top_level;
 	char               * err_msg;
 	axl_bool             result;
 	
@@ -3098,8 +2731,6 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	stack     = axl_stack_new (NULL);
 	
 
-	/* set that the only top level node is the first one */
-	top_level = axl_true;
 
 	do {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "doing a DTD iteration: <%s>...",
@@ -3152,7 +2783,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  CHILDREN dtd element");
 			/* ok, a parent node that have childs */
-			if (!__axl_dtd_validate_element_type_children (element, parent, top_level, error)) {
+			if (!__axl_dtd_validate_element_type_children (element, parent, error)) {
 				/* free id_validation */
 				axl_hash_free (id_validation);
 
@@ -3251,9 +2882,6 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 			} /* end if */
 		} /* end if */
 
-		/* set the top level status */
-		top_level = axl_false;
-		
 		/* until the stack is empty */
 	}while (parent != NULL);
 
diff --git a/src/axl_dtd.h b/src/axl_dtd.h
index 1161bf7..b2d25a8 100644
--- a/src/axl_dtd.h
+++ b/src/axl_dtd.h
@@ -119,14 +119,6 @@ axl_bool             axl_dtd_check_entity_ref_and_expand  (axlDtdEntityResolver
 							   axlError            ** error);
 
 
-/* DON'T USE THIS FUNCTIONS, PROTOTYPES DECLARATIONS */
-axl_bool     __axl_dtd_validate_item_list (axlDtdElementList  * itemList, 
-					   axlNode            * parent, 
-					   int                * child_pos,
-					   axlError          ** error,
-					   axl_bool                 top_level);
-
-
 /* @} */
 
 END_C_DECLS
-- 
2.43.0


From 0984cf485803c59fac3c5e7b1c616820fa0c2eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:55 +0000
Subject: [PATCH 36/51] fix: DTD content models ignored the separator found
 after a nested group

---
 src/axl_dtd.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index efbb698..55c1576 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1037,6 +1037,22 @@ axl_bool     __axl_dtd_read_element_spec (axlStream * stream, axlDtdElement * dt
 				is_empty              = axl_stack_is_empty (dtd_item_stack);
 				if (! is_empty) {
 					dtd_item_list = axl_stack_pop (dtd_item_stack);
+
+					/* set the type of the list
+					 * according to the separator
+					 * found after the nested
+					 * list */
+					if (chunk_matched == 1 || chunk_matched == 2) {
+						if (dtd_item_list->type != STILL_UNDEF && 
+						    dtd_item_list->type != (chunk_matched == 1 ? SEQUENCE : CHOICE)) {
+							axl_error_new (-1, "Detected that the DTD definition is mixing content particules separators at the same level ('|' and ',')",
+								       stream, error);
+							axl_stack_free (dtd_item_stack);
+							axl_stream_free (stream);
+							return axl_false;
+						} /* end if */
+						dtd_item_list->type = (chunk_matched == 1) ? SEQUENCE : CHOICE;
+					} /* end if */
 					__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "getting the next item list in the stack, stack status: %d",
 						   axl_stack_size (dtd_item_stack));
 				}
-- 
2.43.0


From 278c1eefff74024025c8ff9423815efad98d19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 37/51] fix: loading a DTD with recursive element definitions
 never finished

---
 src/axl_dtd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 55c1576..cca46b8 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -475,7 +475,8 @@ axlDtdElement * __axl_dtd_get_new_root (axlDtd * dtd)
 {
 	int             iterator;
 	axl_bool        change_detected;
-
+	/* limit attempts, because recursive definitions have no top */
+	int             attempts = axl_list_length (dtd->elements);
 	axlDtdElement * dtd_element_aux;
 	axlDtdElement * dtd_element_the_root_is_on_fire;
 
@@ -503,7 +504,7 @@ axlDtdElement * __axl_dtd_get_new_root (axlDtd * dtd)
 			/* update inner loop iterator */
 			iterator ++;
 		} /* while end */
-	}while (change_detected);
+	}while (change_detected && --attempts > 0);
 
 	/* return the root found */
 	return dtd_element_the_root_is_on_fire;
-- 
2.43.0


From e1bb639b930dd9468d5b69df06cc2b200e53cd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 38/51] fix: DTD validation of a node declared as ANY never
 finished

---
 src/axl_dtd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index cca46b8..8769edb 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2835,6 +2835,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  ANY dtd element");
 			/* the anything is allowed cased from this
 			 * parent node. */
+			parent = NULL;
 			goto continue_with_validation;
 		case ELEMENT_TYPE_MIXED:
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "  find  MIXED dtd element");
-- 
2.43.0


From fdead75cc2587358fd3c3bad0a95f559f91ff5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 39/51] fix: DTD validation of a root node declared as EMPTY
 failed without reporting an error

---
 src/axl_dtd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 8769edb..df62a31 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2698,7 +2698,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 			/* root node doesn't match */
 			err_msg = axl_strdup_printf ("Found that root node doesn't match (%s != %s!",
 						     axl_node_get_name (parent), 
-						     axl_dtd_get_element_name (element));
+						     axl_dtd_get_element_name (axl_dtd_get_root (dtd)));
 			axl_error_new (-1, err_msg, NULL, error);
 			axl_free (err_msg);
 			return axl_false;
@@ -2730,7 +2730,7 @@ axl_bool           axl_dtd_validate        (axlDoc * doc, axlDtd * dtd,
 	/* check empty content spec */
 	if (axl_dtd_get_element_type (element) == ELEMENT_TYPE_EMPTY) {
 		/* check if the document provided have only one node */
-		result = axl_node_is_empty (parent) && !axl_node_have_childs (parent) && axl_dtd_attr_validate (parent, dtd, error, id_validation, idref_validation);
+		result = __axl_dtd_validate_element_type_empty (element, parent, NULL, error) && axl_dtd_attr_validate (parent, dtd, error, id_validation, idref_validation);
 
 		/* check references */
 		if (result)
-- 
2.43.0


From b1d97e81ea3456cc4f6c3615c97f793260a5391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 40/51] fix: DTD validation rejected several nodes without its
 optional ID attribute

---
 src/axl_dtd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index df62a31..37b1206 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2537,7 +2537,7 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 		decl = axl_list_lookup (attribute->list, __find_id_decl, NULL);
 		
 		/* if we have a tokenized */
-		if (decl != NULL) {
+		if (decl != NULL && HAS_ATTR (node, decl->name)) {
 
 			__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "found ID unique attribute declaration %s=\"%s\"..",
 				   decl->name, ATTR_VALUE (node, decl->name));
-- 
2.43.0


From 663d03d54779e643fab5282f9a9318d84646254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 41/51] fix: DTD validation leaked the error found in
 attributes if the caller does not request it

---
 src/axl_dtd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 37b1206..6a9cc38 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -2509,6 +2509,8 @@ axl_bool axl_dtd_attr_validate (axlNode * node, axlDtd * dtd, axlError ** error,
 		/* reconfigure error returned */
 		if (error != NULL)
 			*error = _error;
+		else
+			axl_error_free (_error);
 		return axl_false;
 	} /* end if */
 		
-- 
2.43.0


From 8b4225546a3d38d8230133705e346c63c2440a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:05 +0000
Subject: [PATCH 42/51] fix: loading a DTD with an error leaked the element
 being read

---
 src/axl_dtd.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/axl_dtd.c b/src/axl_dtd.c
index 6a9cc38..e55025c 100644
--- a/src/axl_dtd.c
+++ b/src/axl_dtd.c
@@ -1248,13 +1248,17 @@ axl_bool     __axl_dtd_parse_element (axlDtd * dtd, axlStream * stream, axlError
 		 * which leads to the two possible values: Mixed and
 		 * PcData */
 		element->type = ELEMENT_TYPE_CHILDREN;
-		if (!__axl_dtd_read_element_spec (stream, element, error))
+		if (!__axl_dtd_read_element_spec (stream, element, error)) {
+			axl_dtd_element_free (element);
 			return axl_false;
+		} /* end if */
 	}
 
 	/* add element found */
-	if (! __axl_dtd_add_element (dtd, element, stream, error))
+	if (! __axl_dtd_add_element (dtd, element, stream, error)) {
+		axl_dtd_element_free (element);
 		return axl_false;
+	} /* end if */
 	
 	/* consume previous white spaces */
 	AXL_CONSUME_SPACES (stream);
-- 
2.43.0


From c491bed7a7513a9202b10e0cc5ce38e49c54811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:07 +0000
Subject: [PATCH 43/51] fix: attributes starting with xmlns were taken as
 namespace declarations, and shorter ones read out of bounds

---
 ns/axl_ns_doc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ns/axl_ns_doc.c b/ns/axl_ns_doc.c
index 91e0772..c2fdd30 100644
--- a/ns/axl_ns_doc.c
+++ b/ns/axl_ns_doc.c
@@ -84,6 +84,13 @@ void __axl_ns_free_table (axlNsTable * table)
 	return;
 } /* end __axl_ns_free_table */
 
+/* check if the attribute is a namespace declaration: xmlns or
+ * xmlns:prefix */
+axl_bool __axl_ns_is_decl (const char * attr)
+{
+	return strncmp (attr, "xmlns", 5) == 0 && (attr[5] == 0 || attr[5] == ':');
+} /* end __axl_ns_is_decl */
+
 /* check and install all ns declerations found on this node */
 axl_bool __axl_ns_node_check_and_install_ns_decls (axlNode * node, axlAttrCursor * cursor, axlError ** error)
 {
@@ -96,7 +103,7 @@ axl_bool __axl_ns_node_check_and_install_ns_decls (axlNode * node, axlAttrCursor
 
 		/* get the key */
 		attr = axl_node_attr_cursor_get_key (cursor);
-		if (! axl_memcmp (attr, "xmlns", 5)) {
+		if (! __axl_ns_is_decl (attr)) {
 			/* no xml namespace declaration found, go next */
 			axl_node_attr_cursor_next (cursor);
 			continue;
@@ -257,7 +264,7 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 			
 			/* get the key */
 			name = (char*) axl_node_attr_cursor_get_key (cursor);
-			if (axl_memcmp (name, "xmlns", 5)) {
+			if (__axl_ns_is_decl (name)) {
 				/* skip namespace declarations */
 				axl_node_attr_cursor_next (cursor);
 				continue;
-- 
2.43.0


From 9b6574913126d3078a08ba5ed9df730f82a92a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:07 +0000
Subject: [PATCH 44/51] fix: namespace validation rejected the prefix xml,
 which is always declared (xml:space, xml:lang)

---
 ns/axl_ns_doc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ns/axl_ns_doc.c b/ns/axl_ns_doc.c
index c2fdd30..7c62739 100644
--- a/ns/axl_ns_doc.c
+++ b/ns/axl_ns_doc.c
@@ -232,8 +232,8 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 			ns_table = axl_node_annotate_get (parent, NS_TABLE, axl_false);
 
 			/* check the namespace */
-			if (ns_table != NULL && axl_hash_exists (ns_table->table, name)) {
-				/* prefix found, restore node name */
+			if (axl_cmp (name, "xml") || (ns_table != NULL && axl_hash_exists (ns_table->table, name))) {
+				/* prefix found (xml is always declared), restore node name */
 				name[iterator] = ':';
 				break;
 			} /* end if */
@@ -297,8 +297,8 @@ axl_bool __axl_ns_node_validate (axlNode * node, axlError ** error)
 					ns_table = axl_node_annotate_get (parent, NS_TABLE, axl_false);
 					
 					/* check the namespace */
-					if (ns_table != NULL && axl_hash_exists (ns_table->table, name)) {
-						/* prefix found, restore attribute name */
+					if (axl_cmp (name, "xml") || (ns_table != NULL && axl_hash_exists (ns_table->table, name))) {
+						/* prefix found (xml is always declared), restore attribute name */
 						name[iterator] = ':';
 						break;
 					} /* end if */
-- 
2.43.0


From c6b61eb18745147798faa6983a6c58865e3ba621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 45/51] fix: documents in memory with a single byte encoding
 were truncated when decoded into utf-8

---
 src/axl_stream.c | 55 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index cce961f..bf03ed4 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -3666,6 +3666,9 @@ axl_bool        axl_stream_setup_decode        (axlStream         * stream,
 						axlPointer          user_data,
 						axlError         ** error)
 {
+	int   decoded;
+	int   op_result;
+
 	axl_return_val_if_fail (stream, axl_false);
 
 	/* do not check if the decode_f function is NULL (it's a valid
@@ -3692,22 +3695,44 @@ axl_bool        axl_stream_setup_decode        (axlStream         * stream,
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "procesing %d bytes from decode buffer (total size: %d, current index: 0)", 
 			   stream->decode_temp_last, stream->decode_temp_size);
 
-		/* call to decode content */
-		if (! axl_stream_decode (stream, 
-					 /* output */
-					 (stream->stream + stream->stream_index),
-					 /* output max size */
-					 stream->buffer_size - stream->stream_index,
-					 /* output decoded */
-					 &(stream->stream_size),
-					 /* do not define op result */
-					 NULL,
-					 error))
-			return axl_false;
-		
-		/* add to the stream size the current index */
-		stream->stream_size += stream->stream_index;
+		/* content decoded is placed starting from the current index */
+		stream->stream_size = stream->stream_index;
+		while (axl_true) {
+			/* call to decode content */
+			if (! axl_stream_decode (stream, 
+						 /* output */
+						 (stream->stream + stream->stream_size),
+						 /* output max size */
+						 stream->buffer_size - stream->stream_size,
+						 /* output decoded */
+						 &decoded,
+						 /* operation result */
+						 &op_result,
+						 error))
+				return axl_false;
 		
+			/* add to the stream size content decoded */
+			stream->stream_size += decoded;
+
+			/* content pending to be decoded is handled by
+			 * the prebuffer operation, but not for memory
+			 * streams, where everything must be decoded
+			 * now, getting more room */
+			if (stream->type != STREAM_MEM || op_result != 2)
+				break;
+			stream->buffer_size += stream->buffer_size + 1;
+			stream->stream       = realloc (stream->stream, stream->buffer_size + 1);
+			axl_free (stream->temp);
+			stream->temp         = NULL;
+			if (stream->stream == NULL) {
+				axl_error_new (-1, "not enough memory to decode content", NULL, error);
+				return axl_false;
+			} /* end if */
+		} /* end while */
+
+		/* nullify the last entry, like the source content */
+		if (stream->type == STREAM_MEM)
+			stream->stream[stream->stream_size] = 0;
 	} /* end if */
 
 	/* return result */
-- 
2.43.0


From 046bcde72553622d8965ae4d11c5ea97a676b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 46/51] fix: valid utf-8 documents were rejected if a sequence
 was split by the reads done on the file

---
 babel/axl_babel.c | 49 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index e3e3e16..adec666 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -325,8 +325,46 @@ int axl_babel_utf8_check (const char  * source,
 			  axlPointer    user_data,
 			  axlError   ** error)
 {
-	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "received notification to check content size=%d to have valid utf-8: %s", source_size, source);
-	return axl_babel_check_utf8_content (source, source_size, NULL) ? 1 : 0;
+	/* octets missing to complete the sequence found at the end of
+	 * the previous content checked */
+	int           * pending = user_data;
+	axl_bool        result  = axl_true;
+	int             tail;
+	int             length;
+	unsigned char   value;
+
+	/* complete the sequence pending */
+	while (*pending > 0 && source_size > 0 && result) {
+		value  = *source;
+		result = (value >= 128 && value <= 191);
+		(*pending)--;
+		source++;
+		source_size--;
+	} /* end while */
+
+	/* check if the content finishes with a sequence that is not
+	 * complete: it will be completed with the next content */
+	tail = 1;
+	while (result && tail <= 3 && tail <= source_size) {
+		value = source[source_size - tail];
+		if (value >= 192 && value <= 247) {
+			length = (value >= 240) ? 4 : ((value >= 224) ? 3 : 2);
+			if (length > tail) {
+				*pending     = length - tail;
+				source_size -= tail;
+			} /* end if */
+			break;
+		} /* end if */
+		if (value <= 127 || value > 247)
+			break;
+		tail++;
+	} /* end while */
+
+	if (! result || ! axl_babel_check_utf8_content (source, source_size, NULL)) {
+		axl_error_new (-1, "found content that is not properly encoded as utf-8", NULL, error);
+		return 0;
+	} /* end if */
+	return 1;
 }
 
 
@@ -355,6 +393,7 @@ axl_bool axl_babel_configure_encoding (axlStream  * stream,
 				       axlPointer user_data, axlError ** error)
 {
 	axlBabelTable * table = NULL;
+	int           * pending;
 
 	__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "configuring final document enconding, previously detected=%s, declared=%s",
 		   detected ? detected : "none",
@@ -431,8 +470,10 @@ axl_bool axl_babel_configure_encoding (axlStream  * stream,
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "installed handler encoding for utf-8");
 		
 		/* install checker without table */
-		if (! axl_stream_setup_check (stream, encoding, axl_babel_utf8_check, NULL, error)) 
-			return axl_false; 
+		pending = axl_new (int, 1);
+		axl_stream_link_full (stream, pending, axl_free, axl_true);
+		if (! axl_stream_setup_check (stream, encoding, axl_babel_utf8_check, pending, error))
+			return axl_false;
 		return axl_true;
 	} /* end if */
 	
-- 
2.43.0


From ce39ce216fe4d2c893462999cf564576f24a0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 47/51] fix: content read from a file that is not properly
 encoded was skipped, parsing the rest of the file

---
 src/axl_doc.c    |  7 +++++++
 src/axl_stream.c | 26 ++++++++++++++++++++++++++
 src/axl_stream.h |  2 ++
 src/libaxl.def   |  1 +
 4 files changed, 36 insertions(+)

diff --git a/src/axl_doc.c b/src/axl_doc.c
index 0f9f1b2..9c3ee84 100644
--- a/src/axl_doc.c
+++ b/src/axl_doc.c
@@ -1333,6 +1333,13 @@ axlDoc * __axl_doc_parse_common (const char * entity, int entity_size,
 	 * after the root node (the string terminator is not content) */
 	if (! axl_doc_consume_comments (doc, stream, error))
 		return NULL;
+	if (axl_stream_check_failed (stream)) {
+		/* notify error */
+		axl_error_new (-1, "Found content that is not properly encoded", stream, error);
+		axl_stream_free (stream);
+
+		return NULL;
+	}
 	if (axl_stream_remains (stream) && ! AXL_IS_STR_EMPTY (axl_stream_get_following (stream, 1))) {
 		/* notify error */
 		axl_error_new (-1, "Found content after the root node", stream, error);
diff --git a/src/axl_stream.c b/src/axl_stream.c
index bf03ed4..be118ca 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -219,6 +219,12 @@ struct _axlStream {
 	 * the content check function (check_f).
 	 */
 	axlPointer            check_f_data;
+
+	/** 
+	 * @internal Flag set when the content check function (check_f)
+	 * refused content read.
+	 */
+	axl_bool              check_failed;
 };
 
 
@@ -425,6 +431,11 @@ axl_bool axl_stream_prebuffer (axlStream * stream)
 			/* call to check */
 			if (! axl_stream_content_check (stream, stream->stream + stream->stream_size, bytes_read, NULL)) {
 				__axl_log (LOG_DOMAIN, AXL_LEVEL_CRITICAL, "failed to prebuffer, content check function have failed");
+				/* do not read more content: the one
+				 * refused can't be skipped */
+				stream->check_failed = axl_true;
+				close (stream->fd);
+				stream->fd = -1;
 				return axl_false;
 			}
 		} /* end if */
@@ -3643,6 +3654,21 @@ axl_bool axl_stream_content_check (axlStream * stream, const char * content, int
 }
 
 
+/** 
+ * @internal Allows to check if content read was refused by the content
+ * check function installed (\ref axl_stream_setup_check).
+ *
+ * @param stream The stream to check.
+ *
+ * @return axl_true if content was refused, otherwise axl_false is
+ * returned.
+ */
+axl_bool        axl_stream_check_failed        (axlStream         * stream)
+{
+	axl_return_val_if_fail (stream, axl_false);
+	return stream->check_failed;
+}
+
 /** 
  * @internal Allows to configure a decode functions to be used to
  * translate content read into utf-8. 
diff --git a/src/axl_stream.h b/src/axl_stream.h
index 4557f28..fc1e3ba 100644
--- a/src/axl_stream.h
+++ b/src/axl_stream.h
@@ -253,6 +253,8 @@ axl_bool    axl_stream_decode              (axlStream  * stream,
 					    int        * op_result, 
 					    axlError  ** error);
 
+axl_bool    axl_stream_check_failed        (axlStream   * stream);
+
 axl_bool    axl_stream_content_check       (axlStream   * stream,
 					    const char  * content,
 					    int           content_length,
diff --git a/src/libaxl.def b/src/libaxl.def
index fb84987..f3adb5b 100644
--- a/src/libaxl.def
+++ b/src/libaxl.def
@@ -420,6 +420,7 @@ axl_stream_clean_split
 axl_stream_cmp
 axl_stream_concat
 axl_stream_consume_white_spaces
+axl_stream_check_failed
 axl_stream_content_check
 axl_stream_decode
 axl_stream_fall_outside
-- 
2.43.0


From 9d886c5a78a02a936cbcc9ff105c29344207471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:56 +0000
Subject: [PATCH 48/51] fix: encoding detection failed, without reporting an
 error, if the first read got less than 4 octets

---
 babel/axl_babel.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index adec666..cd0b5df 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -127,9 +127,11 @@ axl_bool axl_babel_detect_codification (axlStream        * stream,
 					axlError        ** error)
 {
 	/* check basic case where the stream have no content to
-	 * parse */
+	 * parse, reading first the content required */
+	axl_stream_inspect_code (stream, 0, 3);
 	if (axl_stream_get_size (stream) < 4) {
 		__axl_log (LOG_DOMAIN, AXL_LEVEL_DEBUG, "unable to detect codification, stream received doesn't have enough content to parse");
+		axl_error_new (-1, "unable to detect encoding format, not enough content found", NULL, error);
 		return axl_false;
 	} /* end if */
 
-- 
2.43.0


From fedd047d80457ee2eb2bf4aa8a839f2da8d82078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:35 +0000
Subject: [PATCH 49/51] fix: babel ignored the encoding detected when the
 document does not declare one

---
 babel/axl_babel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babel/axl_babel.c b/babel/axl_babel.c
index cd0b5df..1cf6b57 100644
--- a/babel/axl_babel.c
+++ b/babel/axl_babel.c
@@ -404,7 +404,7 @@ axl_bool axl_babel_configure_encoding (axlStream  * stream,
 	/* check case were a encoding was detected (the entity content
 	 * is encoded as detected due to marks or other means) */
 	if (detected && encoding == NULL)
-		detected = encoding;
+		encoding = detected;
 
 	/* check encoding found (either detected or defined) */
 	if (axl_cmp (encoding, "iso88591")) {
-- 
2.43.0


From 1c53db59d3507683fb3595edfe4a567585d63fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 50/51] fix: several item and node functions crashed, or lost
 content, receiving null references

---
 src/axl_node.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/axl_node.c b/src/axl_node.c
index acab4bb..224c163 100644
--- a/src/axl_node.c
+++ b/src/axl_node.c
@@ -3403,6 +3403,9 @@ void      axl_node_set_child (axlNode * parent, axlNode * child)
 void      axl_node_set_child_after    (axlNode * reference,
 				       axlNode * child)
 {
+	axl_return_if_fail (reference);
+	axl_return_if_fail (child);
+
 	/* call to the item implementation */
 	axl_item_set_after (reference->holder, ITEM_NODE, child);
 
@@ -4232,6 +4235,9 @@ void      axl_node_transfer_childs          (axlNode * old_parent,
 {
 	axlItem * item;
 	axlItem * item_aux;
+
+	axl_return_if_fail (old_parent);
+	axl_return_if_fail (new_parent);
 	
 	/* get the first child for the old parent */
 	item = old_parent->first;
@@ -5905,6 +5911,8 @@ axlItem     * axl_item_new             (AxlItemType type,
 	axlNode        * node;
 	axlNodeContent * content;
 
+	axl_return_val_if_fail (data, NULL);
+
 	/* allocate an item type */
 	item         = axl_new (axlItem, 1);
 	item->type   = type;
@@ -5967,6 +5975,8 @@ axlItem     * axl_item_new_ref         (AxlItemType type,
 	axlNode        * node;
 	axlNodeContent * content;
 
+	axl_return_val_if_fail (data, NULL);
+
 	/* allocate an item type */
 	item         = axl_new (axlItem, 1);
 	item->type   = type;
@@ -6372,6 +6382,9 @@ void axl_item_set_child (axlNode * parent, AxlItemType type, axlPointer data)
 {
 	axlItem * item;
 
+	axl_return_if_fail (parent);
+	axl_return_if_fail (data);
+
 	/* prepare the item to be added to the xml document */
 	item = __axl_item_common_configure (parent, type, data);
 
@@ -6398,6 +6411,9 @@ void          axl_item_set_after       (axlItem * item,
 {
 	axlItem * new_item = NULL;
 
+	axl_return_if_fail (item);
+	axl_return_if_fail (data);
+
 	/* prepare the item to be added to the xml document */
 	new_item = __axl_item_common_configure (item->parent, type, data);
 
@@ -6640,6 +6656,9 @@ void          axl_item_transfer_childs_after (axlNode * old_parent,
 	axlItem * item;
 	axlItem * item_aux;
 
+	axl_return_if_fail (old_parent);
+	axl_return_if_fail (item_ref);
+
 	/* get the first child for the old parent */
 	item = old_parent->first;
 
-- 
2.43.0


From 8e3996a9e5ee6f5fd60fc097aced0de5a40160f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:25 +0000
Subject: [PATCH 51/51] fix: axl_stream_cmp read past two empty strings

---
 src/axl_stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/axl_stream.c b/src/axl_stream.c
index be118ca..f34357e 100644
--- a/src/axl_stream.c
+++ b/src/axl_stream.c
@@ -2039,7 +2039,7 @@ axl_bool        axl_stream_cmp             (const char * chunk1, const char * ch
 	/* report current comparation status */
 	if ((chunk1[0] == chunk2[0])) {
 		if ((size == 1) ||
-		    (axl_memcmp (chunk1 + 1, chunk2 + 1, size -1))) {
+		    (chunk1[0] != 0 && axl_memcmp (chunk1 + 1, chunk2 + 1, size -1))) {
 			return axl_true;
 		} /* end if */
 	} /* end if */
-- 
2.43.0


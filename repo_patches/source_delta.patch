From 2abcffab3e88e4baf89fae2ad81ec4750ecbd01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 01/15] fix: resume must scan from the last checkpoint group,
 not past it

With one user page per checkpoint group (256-byte pages, or 2-page
blocks), next_upage() of the last group's start is already in the next
group. When that was the last group of a block, find_head() went on to
examine the following block, skipped it whole, and could pass the tail
without noticing.
---
 dhara/journal.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 87743c3..41e541a 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -368,9 +368,7 @@ static int find_root(struct dhara_journal *j, dhara_page_t start,
 static int find_head(struct dhara_journal *j, dhara_page_t start,
 		     dhara_error_t *err)
 {
-	j->head = next_upage(j, start);
-	if (!j->head)
-		roll_stats(j);
+	j->head = start;
 
 	/* Starting from the last good checkpoint, find either:
 	 *
-- 
2.43.0


From 5a55ad52e8cd2b63805eca4a033517e22fcfaac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 02/15] fix: copy_sector must look up the source after garbage
 collection

The source page was looked up once, before the garbage collection that
the write does first. With a large gc_ratio and small blocks a single
call can collect its way past the spare blocks, so that the block which
held the source has been erased by the time it is copied.
---
 dhara/map.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/dhara/map.c b/dhara/map.c
index 48ec45e..80cb068 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -405,7 +405,31 @@ int dhara_map_copy_sector(struct dhara_map *m, dhara_sector_t src,
 		return -1;
 	}
 
-	return dhara_map_copy_page(m, p, dst, err);
+	for (;;) {
+		uint8_t meta[DHARA_META_SIZE];
+		const dhara_sector_t old_count = m->count;
+
+		if (prepare_write(m, dst, meta, err) < 0)
+			return -1;
+
+		/* Garbage collection may have moved the source page and
+		 * recycled the block it was in, so find it again.
+		 */
+		if (dhara_map_find(m, src, &p, err) < 0) {
+			m->count = old_count;
+			return -1;
+		}
+
+		if (!dhara_journal_copy(&m->journal, p, meta, &my_err))
+			break;
+
+		m->count = old_count;
+
+		if (try_recover(m, my_err, err) < 0)
+			return -1;
+	}
+
+	return 0;
 }
 
 static int try_delete(struct dhara_map *m, dhara_sector_t s,
-- 
2.43.0


From 1726211bdba1ff08cf1e9dfb4eafe57633452647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 03/15] fix: a program failure on an empty journal must not
 start recovery

There's no root to enumerate up to, so the recoverable page list was
garbage. Nothing needs to be recovered, but the failed block may still
hold the last checkpoint, so keep it until the next one is written.
---
 dhara/journal.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dhara/journal.c b/dhara/journal.c
index 41e541a..8037c8b 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -657,6 +657,15 @@ static void restart_recovery(struct dhara_journal *j, dhara_page_t old_head)
 	else
 		j->flags |= DHARA_JOURNAL_F_BAD_META;
 
+	/* If the journal was empty, then there's still nothing to
+	 * recover.
+	 */
+	if (j->recover_next == DHARA_PAGE_NONE) {
+		j->root = DHARA_PAGE_NONE;
+		j->tail = j->head;
+		return;
+	}
+
 	/* Start recovery again. Reset the source enumeration to
 	 * the start of the original bad block, and reset the
 	 * destination enumeration to the newly found good
@@ -737,6 +746,20 @@ static int recover_from(struct dhara_journal *j,
 		return 0;
 	}
 
+	/* If the journal is empty, there are no pages to recover. But
+	 * the failed block might still hold the last checkpoint, so we
+	 * can't mark it bad until we've reached the next one.
+	 */
+	if (j->root == DHARA_PAGE_NONE) {
+		j->recover_root = old_head;
+		j->recover_next = DHARA_PAGE_NONE;
+		j->tail = j->head;
+		j->flags |= DHARA_JOURNAL_F_RECOVERY |
+			    DHARA_JOURNAL_F_ENUM_DONE;
+		dhara_set_error(err, DHARA_E_RECOVER);
+		return -1;
+	}
+
 	j->recover_root = j->root;
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
-- 
2.43.0


From 32f755ddd36d939454347fc39e5fe5e2f898c225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 04/15] fix: retry the user page if its checkpoint fails on an
 aligned page

With one user page per checkpoint, the first checkpoint in a block
failing was reported as success, and the user page was lost.
---
 dhara/journal.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 8037c8b..5755da1 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -793,6 +793,9 @@ static void finish_recovery(struct dhara_journal *j)
 	clear_recovery(j);
 }
 
+/* Returns 0 on success, -1 if an error occurs, or 1 if the user page has
+ * been lost, and the operation should be retried immediately.
+ */
 static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		     dhara_error_t *err)
 {
@@ -816,17 +819,18 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		return 0;
 	}
 
-	/* We don't need to check for immediate recover, because that'll
-	 * never happen -- we're not block-aligned.
-	 */
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
 	hdr_set_tail(j->page_buf, j->tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
+	/* If there's only one user page per checkpoint, we might be
+	 * block-aligned. There's nothing to recover in that case, but
+	 * the user page we just wrote needs to be written again.
+	 */
 	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0)
-		return recover_from(j, my_err, err);
+		return recover_from(j, my_err, err) < 0 ? -1 : 1;
 
 	j->flags &= ~DHARA_JOURNAL_F_DIRTY;
 
@@ -855,8 +859,14 @@ int dhara_journal_enqueue(struct dhara_journal *j,
 	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
 		if (!(prepare_head(j, &my_err) ||
 		      (data && dhara_nand_prog(j->nand, j->head, data,
-					       &my_err))))
-			return push_meta(j, meta, err);
+					       &my_err)))) {
+			const int ret = push_meta(j, meta, err);
+
+			if (ret <= 0)
+				return ret;
+
+			continue;
+		}
 
 		if (recover_from(j, my_err, err) < 0)
 			return -1;
@@ -875,8 +885,14 @@ int dhara_journal_copy(struct dhara_journal *j,
 
 	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
 		if (!(prepare_head(j, &my_err) ||
-		      dhara_nand_copy(j->nand, p, j->head, &my_err)))
-			return push_meta(j, meta, err);
+		      dhara_nand_copy(j->nand, p, j->head, &my_err))) {
+			const int ret = push_meta(j, meta, err);
+
+			if (ret <= 0)
+				return ret;
+
+			continue;
+		}
 
 		if (recover_from(j, my_err, err) < 0)
 			return -1;
-- 
2.43.0


From 15b7ca32ac99ce759ebb4c120274f9d299c39385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 05/15] fix: don't leave the tail in a block which has been
 recovered

The metadata for the pages left behind may never have been written, so
garbage collection would get stuck on a page it can't read.
---
 dhara/journal.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 5755da1..b224eb2 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -789,7 +789,6 @@ static void finish_recovery(struct dhara_journal *j)
 		dhara_nand_mark_bad(j->nand,
 			j->recover_meta >> j->nand->log2_ppb);
 
-	/* Was the tail on this page? Skip it forward */
 	clear_recovery(j);
 }
 
@@ -800,6 +799,7 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		     dhara_error_t *err)
 {
 	const dhara_page_t old_head = j->head;
+	dhara_page_t tail = j->tail;
 	dhara_error_t my_err;
 	const size_t offset =
 		hdr_user_offset(j->head & ((1 << j->log2_ppc) - 1));
@@ -819,9 +819,18 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		return 0;
 	}
 
+	/* If this checkpoint completes a recovery, nothing in the failed
+	 * block will be needed once it's written. Was the tail on this
+	 * block? Skip it forward.
+	 */
+	if ((j->flags & DHARA_JOURNAL_F_ENUM_DONE) &&
+	    align_eq(tail, j->recover_root, j->nand->log2_ppb))
+		tail = next_block(j->nand, tail >> j->nand->log2_ppb) <<
+				j->nand->log2_ppb;
+
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
-	hdr_set_tail(j->page_buf, j->tail);
+	hdr_set_tail(j->page_buf, tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
@@ -834,6 +843,7 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 
 	j->flags &= ~DHARA_JOURNAL_F_DIRTY;
 
+	j->tail = tail;
 	j->root = old_head;
 	j->head = next_upage(j, j->head);
 
-- 
2.43.0


From 84af51f2f67757c4662b5ce1703628a68f46364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 06/15] fix: an interrupted bad-block recovery must be picked
 up again

If a read error interrupted recovery, the page being rescued was
skipped when recovery was next continued, and new data could be added
to the journal before recovery had completed.
---
 dhara/journal.c |  6 ++++++
 dhara/map.c     | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/dhara/journal.c b/dhara/journal.c
index b224eb2..672d4c3 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -590,6 +590,12 @@ void dhara_journal_clear(struct dhara_journal *j)
 	j->root = DHARA_PAGE_NONE;
 	j->flags |= DHARA_JOURNAL_F_DIRTY;
 
+	/* There's nothing left to recover */
+	if (dhara_journal_in_recovery(j)) {
+		j->recover_next = DHARA_PAGE_NONE;
+		j->flags |= DHARA_JOURNAL_F_ENUM_DONE;
+	}
+
 	hdr_clear_user(j->page_buf, j->nand->log2_page_size);
 }
 
diff --git a/dhara/map.c b/dhara/map.c
index 80cb068..9e862dc 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -289,6 +289,15 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 
 		if (ret < 0) {
 			if (my_err != DHARA_E_RECOVER) {
+				/* We might be asked to continue later.
+				 * Don't skip this page when we do.
+				 */
+				if (p != DHARA_PAGE_NONE) {
+					m->journal.recover_next = p;
+					m->journal.flags &=
+						~DHARA_JOURNAL_F_ENUM_DONE;
+				}
+
 				dhara_set_error(err, my_err);
 				return -1;
 			}
@@ -305,6 +314,14 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 	return 0;
 }
 
+/* If a recovery was cut short by some other error, then it has to be
+ * completed before anything else is written.
+ */
+static int finish_recovery(struct dhara_map *m, dhara_error_t *err)
+{
+	return try_recover(m, DHARA_E_RECOVER, err);
+}
+
 static int auto_gc(struct dhara_map *m, dhara_error_t *err)
 {
 	int i;
@@ -348,6 +365,9 @@ static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
 int dhara_map_write(struct dhara_map *m, dhara_sector_t dst,
 		    const uint8_t *data, dhara_error_t *err)
 {
+	if (finish_recovery(m, err) < 0)
+		return -1;
+
 	for (;;) {
 		uint8_t meta[DHARA_META_SIZE];
 		dhara_error_t my_err;
@@ -371,6 +391,9 @@ int dhara_map_write(struct dhara_map *m, dhara_sector_t dst,
 int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 			dhara_sector_t dst, dhara_error_t *err)
 {
+	if (finish_recovery(m, err) < 0)
+		return -1;
+
 	for (;;) {
 		uint8_t meta[DHARA_META_SIZE];
 		dhara_error_t my_err;
@@ -397,6 +420,9 @@ int dhara_map_copy_sector(struct dhara_map *m, dhara_sector_t src,
 	dhara_error_t my_err;
 	dhara_page_t p;
 
+	if (finish_recovery(m, err) < 0)
+		return -1;
+
 	if (dhara_map_find(m, src, &p, &my_err) < 0) {
 		if (my_err == DHARA_E_NOT_FOUND)
 			return dhara_map_trim(m, dst, err);
@@ -491,6 +517,9 @@ static int try_delete(struct dhara_map *m, dhara_sector_t s,
 
 int dhara_map_trim(struct dhara_map *m, dhara_sector_t s, dhara_error_t *err)
 {
+	if (finish_recovery(m, err) < 0)
+		return -1;
+
 	for (;;) {
 		dhara_error_t my_err;
 
@@ -509,6 +538,9 @@ int dhara_map_trim(struct dhara_map *m, dhara_sector_t s, dhara_error_t *err)
 
 int dhara_map_sync(struct dhara_map *m, dhara_error_t *err)
 {
+	if (finish_recovery(m, err) < 0)
+		return -1;
+
 	while (!dhara_journal_is_clean(&m->journal)) {
 		dhara_page_t p = dhara_journal_peek(&m->journal);
 		dhara_error_t my_err;
@@ -534,6 +566,9 @@ int dhara_map_gc(struct dhara_map *m, dhara_error_t *err)
 	if (!m->count)
 		return 0;
 
+	if (finish_recovery(m, err) < 0)
+		return -1;
+
 	for (;;) {
 		dhara_page_t tail = dhara_journal_peek(&m->journal);
 		dhara_error_t my_err;
-- 
2.43.0


From 3378fce33b5723c65945ae7133650a8e4b6a9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 07/15] fix: don't dump metadata which doesn't belong to the
 root's group

After resuming on a partially programmed checkpoint group, a failure on
the first program caused an empty metadata page to be used in place of
the one belonging to the last checkpoint.
---
 dhara/journal.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 672d4c3..cb62a8e 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -770,8 +770,12 @@ static int recover_from(struct dhara_journal *j,
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
 
-	/* Are we holding buffered metadata? Dump it first. */
+	/* Are we holding buffered metadata? Dump it first. There won't
+	 * be any if we've resumed on a partially programmed group, and
+	 * haven't yet managed to add anything to it.
+	 */
 	if (!is_aligned(old_head, j->log2_ppc) &&
+	    align_eq(old_head, j->root, j->log2_ppc) &&
 	    dump_meta(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From c20518a7394bb0ec81a096b11996123107b75b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 08/15] fix: recover pages with dumped metadata before anything
 else

Otherwise, a power failure following a checkpoint written in the middle
of a recovery leaves the tree referring to pages whose metadata can't
be found any more, and synced sectors are lost.
---
 dhara/map.c | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/dhara/map.c b/dhara/map.c
index 9e862dc..5ba2b61 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -266,11 +266,33 @@ static int pad_queue(struct dhara_map *m, dhara_error_t *err)
 	return dhara_journal_copy(&m->journal, p, root_meta, err);
 }
 
+/* The metadata for the pages following the last checkpoint in a failed
+ * block is unreachable after a restart, so these pages need to be
+ * recovered before the first new checkpoint is written. Together with
+ * the dumped metadata, they'll always fit into one checkpoint group.
+ */
+static int recover_buffered(struct dhara_map *m, dhara_error_t *err)
+{
+	const struct dhara_journal *j = &m->journal;
+	const dhara_page_t root = j->recover_root;
+	dhara_page_t p;
+
+	if (j->recover_meta == DHARA_PAGE_NONE)
+		return 0;
+
+	for (p = root & ~((1 << j->log2_ppc) - 1); p <= root; p++)
+		if (raw_gc(m, p, err) < 0)
+			return -1;
+
+	return 0;
+}
+
 /* Attempt to recover the journal */
 static int try_recover(struct dhara_map *m, dhara_error_t cause,
 		       dhara_error_t *err)
 {
 	int restart_count = 0;
+	int have_buffered = 0;
 
 	if (cause != DHARA_E_RECOVER) {
 		dhara_set_error(err, cause);
@@ -278,14 +300,21 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 	}
 
 	while (dhara_journal_in_recovery(&m->journal)) {
-		dhara_page_t p = dhara_journal_next_recoverable(&m->journal);
+		dhara_page_t p = DHARA_PAGE_NONE;
 		dhara_error_t my_err;
 		int ret;
 
-		if (p == DHARA_PAGE_NONE)
-			ret = pad_queue(m, &my_err);
-		else
-			ret = raw_gc(m, p, &my_err);
+		if (!have_buffered) {
+			ret = recover_buffered(m, &my_err);
+			have_buffered = !ret;
+		} else {
+			p = dhara_journal_next_recoverable(&m->journal);
+
+			if (p == DHARA_PAGE_NONE)
+				ret = pad_queue(m, &my_err);
+			else
+				ret = raw_gc(m, p, &my_err);
+		}
 
 		if (ret < 0) {
 			if (my_err != DHARA_E_RECOVER) {
@@ -308,6 +337,7 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 			}
 
 			restart_count++;
+			have_buffered = 0;
 		}
 	}
 
-- 
2.43.0


From 3afafd9da4d261fff9621f8a60fe371c34bbd38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 09/15] fix: don't let the head catch the tail after skipping
 bad blocks

With one user page per block, the last good block before the tail could
be used up if it was preceded by a bad block, leaving head == tail.
---
 dhara/journal.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index cb62a8e..9f0f876 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -620,24 +620,24 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 /* Make sure the head pointer is on a ready-to-program page. */
 static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 {
-	const dhara_page_t next = next_upage(j, j->head);
 	int i;
 
-	/* We can't write if doing so would cause the head pointer to
-	 * roll onto the same block as the last-synced tail.
-	 */
-	if (align_eq(next, j->tail_sync, j->nand->log2_ppb) &&
-	    !align_eq(next, j->head, j->nand->log2_ppb)) {
-		dhara_set_error(err, DHARA_E_JOURNAL_FULL);
-		return -1;
-	}
-
-	j->flags |= DHARA_JOURNAL_F_DIRTY;
-	if (!is_aligned(j->head, j->nand->log2_ppb))
-		return 0;
-
 	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
 		const dhara_block_t blk = j->head >> j->nand->log2_ppb;
+		const dhara_page_t next = next_upage(j, j->head);
+
+		/* We can't write if doing so would cause the head pointer to
+		 * roll onto the same block as the last-synced tail.
+		 */
+		if (align_eq(next, j->tail_sync, j->nand->log2_ppb) &&
+		    !align_eq(next, j->head, j->nand->log2_ppb)) {
+			dhara_set_error(err, DHARA_E_JOURNAL_FULL);
+			return -1;
+		}
+
+		j->flags |= DHARA_JOURNAL_F_DIRTY;
+		if (!is_aligned(j->head, j->nand->log2_ppb))
+			return 0;
 
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
-- 
2.43.0


From b2318a98422b2a0048197e59ebd280824dcd8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 10/15] fix: peek must not return the head of an empty journal

If only bad blocks remain between the tail and the head, peek returned
the (unwritten) page at the head.
---
 dhara/journal.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 9f0f876..ce4101f 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -543,8 +543,13 @@ dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 			    !dhara_nand_is_bad(j->nand, blk)) {
 				j->tail = blk << j->nand->log2_ppb;
 
-				if (j->tail == j->head)
+				/* There may have been nothing but bad
+				 * blocks ahead of us.
+				 */
+				if (j->tail == j->head) {
 					j->root = DHARA_PAGE_NONE;
+					return DHARA_PAGE_NONE;
+				}
 
 				return j->tail;
 			}
-- 
2.43.0


From 043f1ab936c5125e66971c4fea19ffacc2861615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 11/15] fix: keep buffered metadata when there's no room to
 dump it

If a page of a partly filled group failed, and dumping the metadata of
that group failed as well (no good block left to go to), the head had
already left the group. Metadata which exist only in the page buffer
were then looked for on the chip, and the sectors of the group read as
unmapped, or as something else. Go back to where we were.
---
 dhara/journal.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index ce4101f..3c2d0e6 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -733,6 +733,9 @@ static int recover_from(struct dhara_journal *j,
 			dhara_error_t *err)
 {
 	const dhara_page_t old_head = j->head;
+	const uint8_t old_epoch = j->epoch;
+	const dhara_block_t old_bb_current = j->bb_current;
+	const dhara_block_t old_bb_last = j->bb_last;
 
 	if (write_err != DHARA_E_BAD_BLOCK) {
 		dhara_set_error(err, write_err);
@@ -781,8 +784,16 @@ static int recover_from(struct dhara_journal *j,
 	 */
 	if (!is_aligned(old_head, j->log2_ppc) &&
 	    align_eq(old_head, j->root, j->log2_ppc) &&
-	    dump_meta(j, err) < 0)
+	    dump_meta(j, err) < 0) {
+		/* We still depend on the buffered metadata, so stay with
+		 * the group that it belongs to.
+		 */
+		j->head = old_head;
+		j->epoch = old_epoch;
+		j->bb_current = old_bb_current;
+		j->bb_last = old_bb_last;
 		return -1;
+	}
 
 	j->flags |= DHARA_JOURNAL_F_RECOVERY;
 	dhara_set_error(err, DHARA_E_RECOVER);
-- 
2.43.0


From 7707dcf9fffbbe647101634103f42436401a077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 12/15] fix: count a bad block only when it's skipped

On a full journal, the head can't skip the bad block it stands on, but
each further call counted the block again. The capacity shrank with
every refused call, and finally wrapped around to a huge number.
---
 dhara/journal.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 3c2d0e6..632e993 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -615,6 +615,7 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 		return -1;
 	}
 
+	j->bb_current++;
 	j->head = next << j->nand->log2_ppb;
 	if (!j->head)
 		roll_stats(j);
@@ -647,7 +648,6 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
 
-		j->bb_current++;
 		if (skip_block(j, err) < 0)
 			return -1;
 	}
@@ -717,7 +717,6 @@ static int dump_meta(struct dhara_journal *j, dhara_error_t *err)
 			return -1;
 		}
 
-		j->bb_current++;
 		dhara_nand_mark_bad(j->nand, j->head >> j->nand->log2_ppb);
 
 		if (skip_block(j, err) < 0)
@@ -743,7 +742,6 @@ static int recover_from(struct dhara_journal *j,
 	}
 
 	/* Advance to the next free page */
-	j->bb_current++;
 	if (skip_block(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From 4e997f3e4ab24b129b7d0c16e877a667cce29d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 13/15] fix: retire a failed empty block even if there's no
 block to go to

If the first page of a block or its erase failed, and the next block was
taken, the failed block wasn't marked bad. It was then erased again by
the next call, and again.
---
 dhara/journal.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 632e993..5d3405d 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -741,9 +741,16 @@ static int recover_from(struct dhara_journal *j,
 		return -1;
 	}
 
-	/* Advance to the next free page */
-	if (skip_block(j, err) < 0)
+	/* Advance to the next free page. If there's nowhere to go, then
+	 * a block with nothing in it can be retired nevertheless.
+	 */
+	if (skip_block(j, err) < 0) {
+		if (is_aligned(old_head, j->nand->log2_ppb))
+			dhara_nand_mark_bad(j->nand,
+				old_head >> j->nand->log2_ppb);
+
 		return -1;
+	}
 
 	/* Are we already in the middle of a recovery? */
 	if (dhara_journal_in_recovery(j)) {
-- 
2.43.0


From 3ff4b8e635d8b481e2ecb41a6c57bd1203dbf6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 14/15] fix: don't copy a filler page as padding

If the root is filler (the map is empty), there is no page to copy. The
page might never have been programmed, and on a chip with no good block
left to go to it may even be the one that failed before, which can't be
read: padding then failed with an ECC error for ever.
---
 dhara/map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dhara/map.c b/dhara/map.c
index 5ba2b61..4f18c82 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -263,6 +263,10 @@ static int pad_queue(struct dhara_map *m, dhara_error_t *err)
 	if (dhara_journal_read_meta(&m->journal, p, root_meta, err) < 0)
 		return -1;
 
+	/* The root might be filler too. There's no data to copy then. */
+	if (meta_get_id(root_meta) == DHARA_SECTOR_NONE)
+		return dhara_journal_enqueue(&m->journal, NULL, NULL, err);
+
 	return dhara_journal_copy(&m->journal, p, root_meta, err);
 }
 
-- 
2.43.0


From 99454da2959a47dd07262b48b05391eacb2a6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:07 +0000
Subject: [PATCH 15/15] fix: don't truncate the page index in hdr_user_offset

---
 dhara/journal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 5d3405d..aedcda6 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -86,7 +86,7 @@ static inline void hdr_clear_user(uint8_t *buf, uint8_t log2_page_size)
 }
 
 /* Obtain pointers to user data */
-static inline size_t hdr_user_offset(uint8_t which)
+static inline size_t hdr_user_offset(dhara_page_t which)
 {
 	return DHARA_HEADER_SIZE + DHARA_COOKIE_SIZE +
 		which * DHARA_META_SIZE;
-- 
2.43.0


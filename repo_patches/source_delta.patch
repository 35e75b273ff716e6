From 8b41aa8b69c6cfe76b26f3f5fbe7d96059432c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:47 +0000
Subject: [PATCH 01/73] fix: p: combined with other search keys must not
 discard their matches

match_substring_in_paths() assigned to the hit vector instead of adding to it,
so e.g. 'tp:word' lost every message matching only in the To: header.
---
 search.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/search.c b/search.c
index 27b02b8..30d7cc7 100644
--- a/search.c
+++ b/search.c
@@ -315,8 +315,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
         token = db->data + db->mbox_paths_table[mbix];
         break;
       case DB_MSG_DEAD:
-        hits[i] = 0; /* never match on dead paths */
-        goto next_message;
+        goto next_message; /* never match on dead paths */
     }
 
     assert(token);
@@ -325,19 +324,19 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
       /* Optimise common cases for few errors to allow optimizer to keep bitmaps
        * in registers */
       case 0:
-        hits[i] = substring_match_0(a, hit, left_anchor, token);
+        hits[i] |= substring_match_0(a, hit, left_anchor, token);
         break;
       case 1:
-        hits[i] = substring_match_1(a, hit, left_anchor, token);
+        hits[i] |= substring_match_1(a, hit, left_anchor, token);
         break;
       case 2:
-        hits[i] = substring_match_2(a, hit, left_anchor, token);
+        hits[i] |= substring_match_2(a, hit, left_anchor, token);
         break;
       case 3:
-        hits[i] = substring_match_3(a, hit, left_anchor, token);
+        hits[i] |= substring_match_3(a, hit, left_anchor, token);
         break;
       default:
-        hits[i] = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
+        hits[i] |= substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
         break;
     }
 next_message:
-- 
2.43.0


From 8603f425d299fbb65533b0f8b6f2c26acc17fb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:44 +0000
Subject: [PATCH 02/73] fix: relative dates of 25 years or more overflowed an
 int

'd:70y-' and the like multiplied days out in an int and searched from a
date in the future instead (or hit undefined behaviour).
---
 dates.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dates.c b/dates.c
index e2bbf31..0bdb40d 100644
--- a/dates.c
+++ b/dates.c
@@ -125,14 +125,16 @@ static int scan_date_expr(char *first, char *last, struct tm *start, struct tm *
   type = discover_type(first, last);
 
   if (type == DS_SCALED) {/*{{{*/
-    int v;
+    time_t v;
     char *p;
     time_t then;
 
     p = first;
     v = 0;
     while (isdigit(*p)) {
-      v = (v*10) + (*p - '0');
+      if (v < 1000000) { /* any further back makes no difference */
+        v = (v*10) + (*p - '0');
+      }
       p++;
     }
     switch(*p) {
-- 
2.43.0


From 395425623568d9b8e110dcd20b9a1bde00aedbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:44 +0000
Subject: [PATCH 03/73] fix: d:<period> must include the first day of the
 period

Message dates are stored as midnight and compared exclusively with the start
of the range, so 'd:20110101' never matched anything, 'd:2011' missed
January 1st, etc.
---
 dates.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dates.c b/dates.c
index 0bdb40d..3bd2f16 100644
--- a/dates.c
+++ b/dates.c
@@ -350,7 +350,9 @@ int scan_date_string(char *in, time_t *start, int *has_start, time_t *end, int *
     *has_start = *has_end = 1;
     status = scan_date_expr(in, nullchar, &start_tm, &end_tm);
     if (status) return status;
-    *start = mktime(&start_tm);
+    /* The start time is compared exclusively, but the first day belongs to the
+     * period. */
+    *start = mktime(&start_tm) - 1;
     *end = mktime(&end_tm);
     return 0;
   } else {
-- 
2.43.0


From a97ee1796f748a36ee79e17f0734baa7afe86563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 04/73] fix: z: sizes of 2 GiB and more overflowed

'z:1k-4096M' shifted an int by 20 bits, turning the bound into 0 or a negative
number, so that nothing (or everything) matched.
---
 search.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/search.c b/search.c
index 30d7cc7..effedc0 100644
--- a/search.c
+++ b/search.c
@@ -32,6 +32,7 @@
 #include <assert.h>
 #include <dirent.h>
 #include <errno.h>
+#include <limits.h>
 
 /* Lame fix for systems where NAME_MAX isn't defined after including the above
  * set of .h files (Solaris, FreeBSD so far).  Probably grossly oversized but
@@ -379,24 +380,27 @@ static void match_string_in_table2(struct read_db *db, struct toktable2_db *tt,
 /*}}}*/
 static int parse_size_expr(char *x)/*{{{*/
 {
-  int result;
+  long long result;
   int n;
 
-  if (1 == sscanf(x, "%d%n", &result, &n)) {
+  if (1 == sscanf(x, "%lld%n", &result, &n)) {
     x += n;
+    if (result > INT_MAX) result = INT_MAX;
     switch (*x) {
       case 'k':
       case 'K':
-        result <<= 10;
+        result *= 1024;
         break;
       case 'm':
       case 'M':
-        result <<= 20;
+        result *= 1024*1024;
         break;
       default:
         break;
     }
 
+    /* No message is bigger than this anyway */
+    if (result > INT_MAX) result = INT_MAX;
     return result;
   } else {
     fprintf(stderr, "Could not parse message size expression <%s>\n", x);
-- 
2.43.0


From 4eda11eea6520b51ec25cfbc88bae38e2ee79036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:50 +0000
Subject: [PATCH 05/73] fix: -t after a purge indexed past the end of the
 thread table

---
 search.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/search.c b/search.c
index effedc0..63feb56 100644
--- a/search.c
+++ b/search.c
@@ -1057,8 +1057,14 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
 
   if (show_threads) {/*{{{*/
     char *tids;
-    tids = new_array(char, db->n_msgs);
-    memset(tids, 0, db->n_msgs);
+    unsigned int n_tids = 0;
+    /* Thread numbers aren't renumbered when dead messages are purged, so they
+     * may exceed the number of messages. */
+    for (i=0; i<db->n_msgs; i++) {
+      if (db->tid_table[i] >= n_tids) n_tids = db->tid_table[i] + 1;
+    }
+    tids = new_array(char, n_tids);
+    memset(tids, 0, n_tids);
     for (i=0; i<db->n_msgs; i++) {
       if (hit3[i]) {
         tids[db->tid_table[i]] = 1;
-- 
2.43.0


From 48f4895cf508721d807de6561dac0b708c6c0e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:50 +0000
Subject: [PATCH 06/73] fix: -t must not pull in the threads of matches that no
 longer exist

---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 63feb56..e2ed473 100644
--- a/search.c
+++ b/search.c
@@ -1066,7 +1066,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
     tids = new_array(char, n_tids);
     memset(tids, 0, n_tids);
     for (i=0; i<db->n_msgs; i++) {
-      if (hit3[i]) {
+      if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {
         tids[db->tid_table[i]] = 1;
       }
     }
-- 
2.43.0


From 4d17dcda2a184c105e41a84c7e032091f90b1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:25 +0000
Subject: [PATCH 07/73] fix: sort=date misordered messages dated more than 68
 years apart

---
 search.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index e2ed473..6d36980 100644
--- a/search.c
+++ b/search.c
@@ -795,7 +795,10 @@ static int db_date_cmp(const void *va, const void *vb)
   const int *ap = (const int *) va;
   const int *bp = (const int *) vb;
 
-  return qsortdb->date_table[*ap] - qsortdb->date_table[*bp];
+  unsigned int a = qsortdb->date_table[*ap];
+  unsigned int b = qsortdb->date_table[*bp];
+
+  return (a > b) - (a < b);
 }
 
 static int do_search(struct read_db *db, char **args, char *output_path, int show_threads, enum folder_type ft, int verbose, const char *imap_pipe, const char *imap_server, const char *imap_username, const char *imap_password, int please_clear, int sort_by_date)/*{{{*/
-- 
2.43.0


From 1c72d5e5b74c0514f6ec0908d797bd6053a8a77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:35 +0000
Subject: [PATCH 08/73] fix: p: searches aborted when the database holds IMAP
 messages

---
 search.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search.c b/search.c
index 6d36980..a3da5e6 100644
--- a/search.c
+++ b/search.c
@@ -309,6 +309,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
     unsigned int mbix, msgix;
     switch (rd_msg_type(db, i)) {
       case DB_MSG_FILE:
+      case DB_MSG_IMAP:
         token = db->data + db->path_offsets[i];
         break;
       case DB_MSG_MBOX:
-- 
2.43.0


From c6972f352ef1a7e611538daf76f62e5148abeaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:49 +0000
Subject: [PATCH 09/73] fix: -a must not overwrite result folder entries or the
 mail they link to

---
 search.c | 145 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 105 insertions(+), 40 deletions(-)

diff --git a/search.c b/search.c
index a3da5e6..52b948b 100644
--- a/search.c
+++ b/search.c
@@ -32,6 +32,7 @@
 #include <assert.h>
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
 
 /* Lame fix for systems where NAME_MAX isn't defined after including the above
@@ -561,7 +562,7 @@ static void find_flag_matches_in_table(struct read_db *db, char *flag_expr, char
 }
 /*}}}*/
 
-static char *mk_maildir_path(int token, char *output_dir, int is_in_new,
+static char *mk_maildir_path(int token, int attempt, char *output_dir, int is_in_new,
     int is_seen, int is_replied, int is_flagged)/*{{{*/
 {
   char *result;
@@ -572,7 +573,11 @@ static char *mk_maildir_path(int token, char *output_dir, int is_in_new,
   result = new_array(char, len + 1 + sizeof(":2,FRS"));
   strcpy(result, output_dir);
   strcat(result, is_in_new ? "/new/" : "/cur/");
-  sprintf(uniq_buf, "123456789.%d.mairix", token);
+  if (attempt) {
+    sprintf(uniq_buf, "123456789.%d_%d.mairix", token, attempt);
+  } else {
+    sprintf(uniq_buf, "123456789.%d.mairix", token);
+  }
   strcat(result, uniq_buf);
   if (is_seen || is_replied || is_flagged) {
     strcat(result, ":2,");
@@ -615,14 +620,59 @@ static int looks_like_maildir_new_p(const char *p)/*{{{*/
   }
 }
 /*}}}*/
-static void create_symlink(char *link_target, char *new_link)/*{{{*/
+/* The functions that put a match into a maildir or MH result folder never
+ * touch an entry that is already there (with -a, it may be a link to one of the
+ * user's messages.)  They return 0 if the name is in use for something else, so
+ * that the caller has to try another one. */
+static int create_symlink(char *link_target, char *new_link)/*{{{*/
 {
-  if ((!do_hardlinks && symlink(link_target, new_link) < 0) || link(link_target, new_link)) {
+  if ((do_hardlinks ? link(link_target, new_link) : symlink(link_target, new_link)) < 0) {
+    struct stat target_sb, link_sb;
+    if ((errno == EEXIST) &&
+        ((stat(link_target, &target_sb) < 0) || (stat(new_link, &link_sb) < 0) ||
+         (target_sb.st_dev != link_sb.st_dev) || (target_sb.st_ino != link_sb.st_ino))) {
+      return 0;
+    }
     if (verbose) {
       perror("symlink");
       fprintf(stderr, "Failed path <%s> -> <%s>\n", link_target, new_link);
     }
   }
+  return 1;
+}
+/*}}}*/
+static int same_contents(const char *path, const char *header, const char *data, size_t len)/*{{{*/
+{
+  FILE *in;
+  size_t i, hlen = strlen(header);
+  int result = 1;
+
+  if (!(in = fopen(path, "rb"))) return 0;
+  for (i=0; result && (i < hlen + len); i++) {
+    int c = getc(in);
+    if (c != (unsigned char) ((i < hlen) ? header[i] : data[i - hlen])) result = 0;
+  }
+  if (result && (getc(in) != EOF)) result = 0;
+  fclose(in);
+  return result;
+}
+/*}}}*/
+static int write_copy(const char *path, const char *header, const char *data, size_t len)/*{{{*/
+{
+  FILE *out;
+  int fd = open(path, O_WRONLY | O_CREAT | O_EXCL, 0666);
+  if ((fd < 0) && (errno == EEXIST)) {
+    return same_contents(path, header, data, len);
+  }
+  if ((fd < 0) || !(out = fdopen(fd, "wb"))) {
+    fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", path, strerror(errno));
+    if (fd >= 0) close(fd);
+    return 1;
+  }
+  fputs(header, out);
+  fwrite(data, sizeof(char), len, out);
+  fclose(out);
+  return 1;
 }
 /*}}}*/
 static void mbox_terminate(const unsigned char *data, int len, FILE *out)/*{{{*/
@@ -663,15 +713,14 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
   return;
 }
 /*}}}*/
+struct output_file {
+  char *path;
+  int done; /* 0 if the name is in use for something else */
+};
 static void write_to_file(const char *data, size_t len, void *arg)/*{{{*/
 {
-  FILE *fp;
-  if (!(fp = fopen((char *)arg, "w"))) {
-    fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", (char *)arg, strerror(errno));
-    return;
-  }
-  fwrite(data, 1, len, fp);
-  fclose(fp);
+  struct output_file *out = (struct output_file *)arg;
+  out->done = write_copy(out->path, "", data, len);
 }
 /*}}}*/
 
@@ -738,30 +787,28 @@ static void append_mboxmsg_to_mbox(struct read_db *db, int msg_index, FILE *out)
   }
 }
 /*}}}*/
-static void try_copy_to_path(struct read_db *db, int msg_index, char *target_path)/*{{{*/
+static int try_copy_to_path(struct read_db *db, int msg_index, char *target_path)/*{{{*/
 {
   unsigned char *data;
   int mbox_len, msg_len;
   int mbi;
-  FILE *out;
   unsigned char *start;
+  int result = 1;
 
   get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);
 
   if (start) {
-    out = fopen(target_path, "wb");
-    if (out) {
-      fprintf(out, "X-source-folder: %s\n",
-              db->data + db->mbox_paths_table[mbi]);
-      fwrite(start, sizeof(char), msg_len?msg_len-1:0, out);
-      fclose(out);
-    }
+    char *mbox_path = db->data + db->mbox_paths_table[mbi];
+    char *header = new_array(char, strlen(mbox_path) + sizeof("X-source-folder: \n"));
+    sprintf(header, "X-source-folder: %s\n", mbox_path);
+    result = write_copy(target_path, header, (char *) start, msg_len?msg_len-1:0);
+    free(header);
   }
 
   if (data) {
     free_ro_mapping(data, mbox_len);
   }
-  return;
+  return result;
 }
 /*}}}*/
 static struct msg_src *setup_mbox_msg_src(char *filename, off_t start, size_t len)/*{{{*/
@@ -818,6 +865,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   int imap_tried = 0;
   struct imap_ll *imapc;
   int *results;
+  int attempt, done, mh_token = 0;
 
 #define GET_IMAP if (!imap_tried) {\
         imap_tried = 1;\
@@ -1107,25 +1155,33 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               int is_in_new;
               message_path = db->data + db->path_offsets[i];
               is_in_new = looks_like_maildir_new_p(message_path);
-              target_path = mk_maildir_path(i, output_path, is_in_new, is_seen, is_replied, is_flagged);
-              create_symlink(message_path, target_path);
-              free(target_path);
+              for (attempt = 0, done = 0; !done; attempt++) {
+                target_path = mk_maildir_path(i, attempt, output_path, is_in_new, is_seen, is_replied, is_flagged);
+                done = create_symlink(message_path, target_path);
+                free(target_path);
+              }
             }
             break;
           case DB_MSG_IMAP:
             {
-              char *target_path;
-              target_path = mk_maildir_path(i, output_path, 0, is_seen, is_replied, is_flagged);
               GET_IMAP;
-              if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
-              free(target_path);
+              for (attempt = 0, done = 0; imapc && !done; attempt++) {
+                struct output_file out;
+                out.path = mk_maildir_path(i, attempt, output_path, 0, is_seen, is_replied, is_flagged);
+                out.done = 1;
+                imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, &out);
+                done = out.done;
+                free(out.path);
+              }
             }
             break;
           case DB_MSG_MBOX:
             {
-              char *target_path = mk_maildir_path(i, output_path, !is_seen, is_seen, is_replied, is_flagged);
-              try_copy_to_path(db, i, target_path);
-              free(target_path);
+              for (attempt = 0, done = 0; !done; attempt++) {
+                char *target_path = mk_maildir_path(i, attempt, output_path, !is_seen, is_seen, is_replied, is_flagged);
+                done = try_copy_to_path(db, i, target_path);
+                free(target_path);
+              }
             }
             break;
         }
@@ -1138,24 +1194,33 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
         switch (rd_msg_type(db, i)) {
           case DB_MSG_FILE:
             {
-              char *target_path = mk_mh_path(ii, output_path);
-              create_symlink(db->data + db->path_offsets[i], target_path);
-              free(target_path);
+              for (done = 0; !done; ) {
+                char *target_path = mk_mh_path(mh_token++, output_path);
+                done = create_symlink(db->data + db->path_offsets[i], target_path);
+                free(target_path);
+              }
             }
             break;
           case DB_MSG_IMAP:
             {
-              char *target_path = mk_mh_path(ii, output_path);
               GET_IMAP;
-              if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
-              free(target_path);
+              for (done = 0; imapc && !done; ) {
+                struct output_file out;
+                out.path = mk_mh_path(mh_token++, output_path);
+                out.done = 1;
+                imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, &out);
+                done = out.done;
+                free(out.path);
+              }
             }
             break;
           case DB_MSG_MBOX:
             {
-              char *target_path = mk_mh_path(ii, output_path);
-              try_copy_to_path(db, i, target_path);
-              free(target_path);
+              for (done = 0; !done; ) {
+                char *target_path = mk_mh_path(mh_token++, output_path);
+                done = try_copy_to_path(db, i, target_path);
+                free(target_path);
+              }
             }
             break;
         }
-- 
2.43.0


From f197c3084a2c4abfefa1ff6026752d70d50607e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:09 +0000
Subject: [PATCH 10/73] fix: copies of mbox messages lost their last character
 when no blank line follows

---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 52b948b..531ac93 100644
--- a/search.c
+++ b/search.c
@@ -801,7 +801,9 @@ static int try_copy_to_path(struct read_db *db, int msg_index, char *target_path
     char *mbox_path = db->data + db->mbox_paths_table[mbi];
     char *header = new_array(char, strlen(mbox_path) + sizeof("X-source-folder: \n"));
     sprintf(header, "X-source-folder: %s\n", mbox_path);
-    result = write_copy(target_path, header, (char *) start, msg_len?msg_len-1:0);
+    /* Leave out the blank line that separates it from the next message, if there is one */
+    if ((msg_len >= 2) && (start[msg_len-1] == '\n') && (start[msg_len-2] == '\n')) --msg_len;
+    result = write_copy(target_path, header, (char *) start, msg_len);
     free(header);
   }
 
-- 
2.43.0


From e5603f3fd59b001b3a77faf00b797e1955bd875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:24 +0000
Subject: [PATCH 11/73] fix: folder patterns of 32 characters or more, or with
 an unclosed [, were misread

---
 glob.c | 111 +++++++++++++++++++++++++++++----------------------------
 1 file changed, 57 insertions(+), 54 deletions(-)

diff --git a/glob.c b/glob.c
index 67f423e..4eef263 100644
--- a/glob.c
+++ b/glob.c
@@ -27,11 +27,17 @@
 #include "mairix.h"
 
 
+/* The pattern is matched by simulating an NFA with one state per position in
+ * the pattern.  Each set of states is a bitmap of 'n_words' words. */
+#define WORD_BITS 32
+
 struct globber {
-  unsigned int pat[256];
-  unsigned int starpat;
-  unsigned int twostarpat;
-  unsigned int hit;
+  int n_words;
+  int hit;                      /* The final state */
+  unsigned int *pat[256];       /* States that move on given this character */
+  unsigned int *starpat;
+  unsigned int *twostarpat;
+  unsigned int *reg;            /* Work area for is_glob_match */
 };
 
 struct globber_array {
@@ -39,7 +45,12 @@ struct globber_array {
   struct globber **globs;
 };
 
-static const char *parse_charclass(const char *in, struct globber *result, unsigned int mask)/*{{{*/
+static void set_state(unsigned int *bitmap, int n)/*{{{*/
+{
+  bitmap[n / WORD_BITS] |= (1U << (n % WORD_BITS));
+}
+/*}}}*/
+static const char *parse_charclass(const char *in, struct globber *result, int n)/*{{{*/
 {
   int first = 1;
   int prev = -1;
@@ -47,7 +58,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
   while (*in) {
     if (*in == ']') {
       if (first) {
-        result->pat[(int)']'] |= mask;
+        set_state(result->pat[(int)']'], n);
       } else {
         return in;
       }
@@ -56,7 +67,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
       if ((prev < 0) || !in[1] || (in[1]==']')) {
         /* - at either end of string (or right after an earlier range) means
          * normal - */
-        result->pat['-'] |= mask;
+        set_state(result->pat['-'], n);
       } else {
         int next = in[1];
         int hi, lo;
@@ -69,7 +80,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
         }
         for (i=lo; i<=hi; i++) {
           int index = 0xff & i;
-          result->pat[index] |= mask;
+          set_state(result->pat[index], n);
         }
         /* require 1 extra increment */
         in++;
@@ -77,7 +88,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
       }
     } else {
       int index = 0xff & (int)*in;
-      result->pat[index] |= mask;
+      set_state(result->pat[index], n);
     }
     prev = *in;
     first = 0;
@@ -94,104 +105,96 @@ struct globber *make_globber(const char *wildstring)/*{{{*/
   const char *p;
   char c;
   int index;
-  unsigned int mask;
+  int n_words;
+  unsigned int *bitmaps;
 
   result = new(struct globber);
-  memset(&result->pat, 0x00, 256*sizeof(unsigned int));
-  memset(&result->starpat, 0x00, sizeof(unsigned int));
-  memset(&result->twostarpat, 0x00, sizeof(unsigned int));
-  mask = 0x1;
+  /* The pattern cannot need more states than its length plus the final one */
+  n_words = strlen(wildstring) / WORD_BITS + 1;
+  bitmaps = new_array(unsigned int, (256 + 3) * n_words);
+  memset(bitmaps, 0x00, (256 + 3) * n_words * sizeof(unsigned int));
+  for (i=0; i<256; i++) {
+    result->pat[i] = bitmaps + i * n_words;
+  }
+  result->starpat = bitmaps + 256 * n_words;
+  result->twostarpat = bitmaps + 257 * n_words;
+  result->reg = bitmaps + 258 * n_words;
+  result->n_words = n_words;
 
   n = 0;
   for (p=wildstring; *p; p++) {
-    mask = 1<<n;
     c = *p;
     switch (c) {
       case '*':/*{{{*/
         if (p[1] == '*') {
-          result->twostarpat |= mask;
+          set_state(result->twostarpat, n);
           p++;
         } else {
           /* Match zero or more of anything */
-          result->starpat |= mask;
+          set_state(result->starpat, n);
         }
         break;
 /*}}}*/
       case '[':/*{{{*/
-        p = parse_charclass(p, result, mask);
+        p = parse_charclass(p, result, n);
         n++;
+        /* Leave the terminator for the loop to find if there was no ']' */
+        if (!*p) p--;
         break;
 /*}}}*/
       case '?':/*{{{*/
         for (i=0; i<256; i++) {
-          result->pat[i] |= mask;
+          set_state(result->pat[i], n);
         }
         n++;
         break;
 /*}}}*/
       default:/*{{{*/
         index = 0xff & (int)c;
-        result->pat[index] |= mask;
+        set_state(result->pat[index], n);
         n++;
         break;
 /*}}}*/
     }
   }
 
-  result->hit = (1<<n);
+  result->hit = n;
   return result;
 
 }
 /*}}}*/
 void free_globber(struct globber *old)/*{{{*/
 {
+  free(old->pat[0]);
   free(old);
 }
 /*}}}*/
 
-#define DODEBUG 0
-
 int is_glob_match(struct globber *g, const char *s)/*{{{*/
 {
-  unsigned int reg;
-  unsigned int stars;
-  unsigned int twostars;
-  unsigned int stars2;
+  unsigned int *reg = g->reg;
+  int i;
   int index;
 
-  reg = 0x1;
+  memset(reg, 0x00, g->n_words * sizeof(unsigned int));
+  set_state(reg, 0);
   while (*s) {
+    unsigned int carry = 0;
     index = 0xff & (int) *s;
-#if DODEBUG
-    printf("*s=%c index=%02x old_reg=%08lx pat=%08lx //",
-           *s, index, reg, g->pat[index]);
-#endif
-    stars = (reg & g->starpat);
-    twostars = (reg & g->twostarpat);
-    if (index != '/') {
-      stars2 = stars | twostars;
-    } else {
-      stars2 = twostars;
+    for (i=0; i<g->n_words; i++) {
+      unsigned int stay, move;
+      stay = reg[i] & g->twostarpat[i];
+      if (index != '/') {
+        stay |= reg[i] & g->starpat[i];
+      }
+      move = reg[i] & g->pat[index][i];
+      reg[i] = (move << 1) | carry | stay;
+      carry = move >> (WORD_BITS - 1);
     }
-    reg &= g->pat[index];
-    reg <<= 1;
-    reg |= stars2;
-#if DODEBUG
-    printf(" new_reg=%08lx ", reg);
-    printf("starpat=%08lx stars=%08lx stars2=%08lx\n", g->starpat, stars, stars2);
-#endif
     s++;
   }
 
-#if DODEBUG
-  printf("reg=%08lx hit=%08lx\n", reg, g->hit);
-#endif
-  reg &= g->hit;
-  if (reg) {
-    return 1;
-  } else {
-    return 0;
-  }
+  return (reg[g->hit / WORD_BITS] >> (g->hit % WORD_BITS)) & 1;
 }
 /*}}}*/
 
-- 
2.43.0


From ad478bf9ccb98f03645ac1ec12841e224b9ba0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:26 +0000
Subject: [PATCH 12/73] fix: reading compressed mboxes used freed mappings and
 mishandled decompression errors

---
 rfc822.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index c3dcdfb..48157a5 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1319,13 +1319,14 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
   {
     report_error("stat", filename);
     *data = NULL;
+    *len = 0;
     return;
   }
 
 #if USE_GZIP_MBOX || USE_BZIP_MBOX || USE_XZ_MBOX
   if(cb == MAP_DECOMPRESS_IF_APPLICABLE && is_compressed(filename)) {
-    unsigned char *p;
-    size_t cur_read;
+    unsigned char *p = NULL;
+    int cur_read;
     struct ro_mapping *ro;
     FILE *tmpf;
 
@@ -1333,6 +1334,8 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     if (ro) {
       *data = ro->map;
       *len = ro->len;
+      /* The cache goes on owning the mapping */
+      data_alloc_type = ALLOC_NONE;
       return;
     }
 
@@ -1340,6 +1343,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
       fprintf(stderr, "Decompressing %s...\n", filename);
     }
 
+    zf = NULL;
     tmpf = tmpfile();
     if (!tmpf) {
       perror("tmpfile");
@@ -1352,7 +1356,11 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     }
     p = new_array(unsigned char, SIZE_STEP);
     cur_read = xx_zread(zf, p, SIZE_STEP);
-    if (fwrite(p, cur_read, 1, tmpf) != 1) {
+    if (cur_read < 0) {
+      fprintf(stderr, "failed decompressing %s\n", filename);
+      goto comp_error;
+    }
+    if (cur_read > 0 && fwrite(p, cur_read, 1, tmpf) != 1) {
       fprintf(stderr, "failed writing to temp file for %s\n", filename);
       goto comp_error;
     }
@@ -1371,8 +1379,15 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
         }
       }
     }
+    /* Everything must have reached the file before it is mapped */
+    if (fflush(tmpf) != 0) {
+      fprintf(stderr, "failed writing to temp file for %s\n", filename);
+      goto comp_error;
+    }
     free(p);
+    p = NULL;
     xx_zclose(zf);
+    zf = NULL;
     /* Urgh.  So.  The existence/use of (global) data_alloc_type kind of
      * prevents this function from being re-entrant.  However, by
      * setting data_alloc_type here, *after* xx_zopen/zread/zclose, the
@@ -1396,7 +1411,11 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 
 comp_error:
     *data = NULL;
-    *len = 0;
+    /* As for an uncompressed file that can't be read */
+    *len = sb.st_size;
+    free(p);
+    if (zf)
+      xx_zclose(zf);
     if (tmpf)
       fclose(tmpf);
     return;
-- 
2.43.0


From 958fb8eb49699caa2240648a5e4b117f083c813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:35 +0000
Subject: [PATCH 13/73] fix: quoted-printable decoding read past the end of the
 message

---
 rfc822.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 48157a5..6bea866 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -436,18 +436,14 @@ static void parse_content_type(struct nvp *ct_nvp, struct content_type_header *r
 }
 
 /*}}}*/
-static char *looking_at_ws_then_newline(char *start)/*{{{*/
+static char *looking_at_ws_then_newline(char *start, char *end)/*{{{*/
 {
   char *result;
-  result = start;
-  do {
+  for (result = start; result < end; result++) {
          if (*result == '\n')   return result;
     else if (!isspace(*(unsigned char *) result)) return NULL;
-    else                        result++;
-  } while (1);
-
-  /* Can't get here */
-  assert(0);
+  }
+  return NULL;
 }
 /*}}}*/
 
@@ -488,12 +484,13 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
             char *r;
             int val;
             q++;
-            r = looking_at_ws_then_newline(q);
+            r = looking_at_ws_then_newline(q, end_input);
             if (r) {
               q = r + 1; /* Point into next line */
               continue;
             }
             /* not that case. */
+            if (end_input - q < 2) break; /* truncated */
             val =  hex_to_val(*q++) << 4;
             val += hex_to_val(*q++);
             *p++ = val;
-- 
2.43.0


From 14e6cdfaccfa90f23c33fc21e280784073edb2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:56 +0000
Subject: [PATCH 14/73] fix: uuencoded bodies were decoded from the wrong place
 and past their end

---
 rfc822.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 6bea866..4dd0433 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -546,12 +546,14 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
         while (q < end_input && *q != '\n')
           q++;
         p = result;
-        while (q < end_input) { /* process line */
+        while (end_input - q > 1) { /* process line */
 #define DEC(c) (((c) - ' ') & 077)
-          int len = DEC(*q++);
+          int len;
+          q++; /* step over the newline */
+          len = DEC(*q++);
           if (len == 0)
             break;
-          for (; len > 0; q += 4, len -= 3) {
+          for (; len > 0 && end_input - q >= 4; q += 4, len -= 3) {
             if (len >= 3) {
               *p++ = DEC(q[0]) << 2 | DEC(q[1]) >> 4;
               *p++ = DEC(q[1]) << 4 | DEC(q[2]) >> 2;
-- 
2.43.0


From aa6250360fe9cc68bb1f7ad78820984025bd323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:51 +0000
Subject: [PATCH 15/73] fix: deeply nested messages overflowed the stack

---
 rfc822.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index 4dd0433..05b6d26 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -675,6 +675,9 @@ static void do_multipart(struct msg_src *src, char *input, int input_len,
     const char *boundary, struct attachment *atts,
     enum data_to_rfc822_error *error);
 
+/* No sane message has body parts nested this deep */
+#define MAX_NESTING 128
+
 /*{{{ do_body() */
 static void do_body(struct msg_src *src,
     char *body_start, int body_len,
@@ -686,6 +689,15 @@ static void do_body(struct msg_src *src,
   char *decoded_body;
   int decoded_body_len;
   const char *content_transfer_encoding;
+  static int depth = 0;
+
+  /* Every level of nesting takes stack and a copy of the data within it */
+  if (depth >= MAX_NESTING) {
+    fprintf(stderr, "Ignoring body parts nested more than %d deep in %s\n",
+        MAX_NESTING, format_msg_src(src));
+    return;
+  }
+
   content_transfer_encoding = NULL;
   if (cte_nvp) {
     content_transfer_encoding = nvp_first(cte_nvp);
@@ -702,7 +714,9 @@ static void do_body(struct msg_src *src,
     struct content_type_header ct;
     parse_content_type(ct_nvp, &ct);
     if (ct.major && !strcasecmp(ct.major, "multipart")) {
+      depth++;
       do_multipart(src, decoded_body, decoded_body_len, ct.boundary, atts, error);
+      depth--;
       /* Don't need decoded body any longer - copies have been taken if
        * required when handling multipart attachments. */
       free(decoded_body);
@@ -747,7 +761,9 @@ static void do_body(struct msg_src *src,
       }
 
       if (new_att->ct == CT_MESSAGE_RFC822) {
+        depth++;
         new_att->data.rfc822 = data_to_rfc822(src, decoded_body, decoded_body_len, error);
+        depth--;
         free(decoded_body); /* data no longer needed */
       } else {
         new_att->data.normal.len = decoded_body_len;
-- 
2.43.0


From 59748d38db4086ee90fe7588cad2b6fe790374fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:08 +0000
Subject: [PATCH 16/73] fix: huge error counts in approximate searches crashed
 the search

---
 search.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/search.c b/search.c
index 531ac93..53a3208 100644
--- a/search.c
+++ b/search.c
@@ -79,6 +79,9 @@ static void mark_hits_in_table2(struct read_db *db, struct toktable2_db *tt, int
    Curnow - I haven't looked at any related source (webglimpse, agrep etc) in
    writing this.
 */
+/* Longest substring that can be searched for */
+#define MAX_PATTERN_LEN 31
+
 static void build_match_vector(char *substring, unsigned long *a, unsigned long *hit)/*{{{*/
 {
   int len;
@@ -86,8 +89,8 @@ static void build_match_vector(char *substring, unsigned long *a, unsigned long
   int i;
 
   len = strlen(substring);
-  if (len > 31 || len == 0) {
-    fprintf(stderr, "Can't match patterns longer than 31 characters or empty\n");
+  if (len > MAX_PATTERN_LEN || len == 0) {
+    fprintf(stderr, "Can't match patterns longer than %d characters or empty\n", MAX_PATTERN_LEN);
     unlock_and_exit(2);
   }
   memset(a, 0xff, 256 * sizeof(unsigned long));
@@ -990,6 +993,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
       int negate;
       int had_orsep;
       int max_errors;
+      long n_errors;
 
       orsep = strchr(start_words, '/');
       andsep  = strchr(start_words, ',');
@@ -1041,7 +1045,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
       equal = strchr(word, '=');
       if (equal && (equal[1] == '\0' || isdigit(equal[1]))) {
         *equal = 0;
-        max_errors = atoi(equal + 1);
+        n_errors = strtol(equal + 1, NULL, 10);
+        /* With this many errors any word matches */
+        max_errors = (n_errors > MAX_PATTERN_LEN) ? MAX_PATTERN_LEN : n_errors;
         /* Extend this to do anchoring etc */
       } else {
         equal = NULL;
-- 
2.43.0


From 7b94d1005ffbcff98552a4fb6c52926e11589619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:17 +0000
Subject: [PATCH 17/73] fix: MAIRIX_MAILDIR_FOLDERS was looked up under a
 misspelt name

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index dfef26b..2a0573a 100644
--- a/mairix.c
+++ b/mairix.c
@@ -647,7 +647,7 @@ int main (int argc, char **argv)/*{{{*/
   }
 
   if (getenv("MAIRIX_MAILDIR_FOLDERS")) {
-    maildir_folders = getenv("MAIRIX_MAIDIR_FOLDERS");
+    maildir_folders = getenv("MAIRIX_MAILDIR_FOLDERS");
   }
 
   if (getenv("MAIRIX_MH_FOLDERS")) {
-- 
2.43.0


From 0cd5765215eeb224e807db6714fa09380807551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:26 +0000
Subject: [PATCH 18/73] fix: rc files with NUL bytes or a bare 'folders' line
 crashed the parser

---
 mairix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 2a0573a..55eecb3 100644
--- a/mairix.c
+++ b/mairix.c
@@ -150,6 +150,11 @@ static void add_folders(char **folders, char *extra_folders)/*{{{*/
 {
   /* note : extra_pointers is stale after this routine exits. */
 
+  if (!extra_folders) {
+    /* The line had no '=' */
+    return;
+  }
+
   if (!*folders) {
     *folders = extra_folders;
   } else {
@@ -232,7 +237,7 @@ static void parse_rc_file(char *name)/*{{{*/
       exit(2);
     }
 
-    if (line[len-1] == '\n') {
+    if (len > 0 && line[len-1] == '\n') {
       line[len-1] = '\0';
     }
 
-- 
2.43.0


From 75a1b68fee267d9b13db55973c7f97d03690c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:14 +0000
Subject: [PATCH 19/73] fix: a shortened mbox left entries for its lost
 messages that were later read uninitialised

---
 mbox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbox.c b/mbox.c
index 49e973a..5ea38cd 100644
--- a/mbox.c
+++ b/mbox.c
@@ -416,6 +416,8 @@ static void rescan_mbox(struct mbox *mb, char *va, size_t len)/*{{{*/
 
   /* Find the last message in the box that appears to be intact. */
   mb->n_old_msgs_valid = find_number_intact(mb, va, len);
+  /* Forget the rest, or they'd pass for indexed ones if they came back */
+  mb->n_msgs = mb->n_old_msgs_valid;
   mb->new_msgs = build_new_message_list(mb, va, len, &mb->n_new_msgs);
 }
 /*}}}*/
-- 
2.43.0


From a65dc6ece50ccaddf725f8373a34b7c664289475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:46 +0000
Subject: [PATCH 20/73] fix: the state of an empty match list was left
 uninitialised

---
 reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.c b/reader.c
index d04a75e..d7b91ea 100644
--- a/reader.c
+++ b/reader.c
@@ -89,7 +89,7 @@ int int_list_reader_read(struct int_list_reader *ilr, int *result) {
 
 void int_list_reader_copy(struct int_list_reader *ilr, struct matches *out) {
   const unsigned char *base = ilr->pos;
-  int size, index;
+  int size, index = 0;
   while (int_list_reader_read(ilr, &index));
   size = ilr->pos - base;
 
-- 
2.43.0


From 791ecdb532b5cc8a3f1bd1f7799a7bf246f1881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:46 +0000
Subject: [PATCH 21/73] fix: the date and flags of misformatted mbox messages
 were written uninitialised

---
 mbox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbox.c b/mbox.c
index 5ea38cd..74b8745 100644
--- a/mbox.c
+++ b/mbox.c
@@ -1006,6 +1006,7 @@ int add_mbox_messages(struct database *db)/*{{{*/
         maybe_grow_message_arrays(db);
         n = db->n_msgs;
         db->type[n] = MTY_MBOX;
+        memset(&db->msgs[n], 0, sizeof(struct msgpath));
         db->msgs[n].src.mbox.file_index = i;
         db->msgs[n].src.mbox.msg_index = j;
 
-- 
2.43.0


From cc575ce4c02f3b4fbb11cb22c644837aaad5caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:55 +0000
Subject: [PATCH 22/73] fix: changes to mboxes reached through symlinks were
 never noticed

---
 mbox.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbox.c b/mbox.c
index 74b8745..33e1ce3 100644
--- a/mbox.c
+++ b/mbox.c
@@ -837,6 +837,9 @@ void build_mbox_lists(struct database *db, const char *folder_base, /*{{{*/
         if (verbose) {
           printf("%s is a link - skipping\n", path);
         }
+      } else if (S_ISLNK(sb.st_mode) && stat(path, &sb) < 0) {
+        /* Dangling link.  For the others, it's changes to what they refer to
+         * that matter. */
       } else {
         extant_mboxen[n_extant].full_path = new_string(path);
         extant_mboxen[n_extant].mtime = sb.st_mtime;
-- 
2.43.0


From 0dbd5124b59f1085d83740b77e9a3a9c5a9e31f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:57 +0000
Subject: [PATCH 23/73] fix: message files that changed size within the same
 second were not reindexed

---
 db.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 3b37ace..b5dd72d 100644
--- a/db.c
+++ b/db.c
@@ -942,7 +942,8 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
           } else {
             switch (do_stat(sorted_paths + matched_index)) {
               case STAT_RESULT_FILE:
-                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) {
+                if ((sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) &&
+                    (sorted_paths[matched_index].src.mpf.size == db->msgs[i].src.mpf.size)) {
                   /* Treat stale files as though the path has changed. */
                   file_in_db[matched_index] = 1;
                   file_in_new_list[i] = 1;
-- 
2.43.0


From f845b770dee4a3e725025535336c2307529c4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:32 +0000
Subject: [PATCH 24/73] fix: a lock that vanished or could not be read was
 taken as acquired, and signals removed locks of others

---
 dotlock.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index a5b4ead..ac3ffc2 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -23,6 +23,7 @@
 #include "mairix.h"
 #include <sys/utsname.h>
 #include <sys/types.h>
+#include <errno.h>
 #include <pwd.h>
 #include <unistd.h>
 
@@ -36,7 +37,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   struct passwd *pw;
   int pid;
   int len;
-  char *tname;
+  char *tname, *name;
   struct stat sb;
   FILE *out;
 
@@ -51,11 +52,11 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   }
   pid = getpid();
   len = 1 + strlen(path) + 5;
-  lock_file_name = new_array(char, len);
-  sprintf(lock_file_name, "%s.lock", path);
+  name = new_array(char, len);
+  sprintf(name, "%s.lock", path);
 
   if (forced_unlock) {
-    unlock_database();
+    unlink(name);
     forced_unlock = 0;
   }
 
@@ -63,7 +64,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   /* add on max width of pid field (allow up to 32 bit pid_t) + 2 '.' chars */
   len += (10 + 2);
   tname = new_array(char, len);
-  sprintf(tname, "%s.%d.%s", lock_file_name, pid, uu.nodename);
+  sprintf(tname, "%s.%d.%s", name, pid, uu.nodename);
   out = fopen(tname, "w");
   if (!out) {
     fprintf(stderr, "Cannot open lock file %s for writing\n", tname);
@@ -72,7 +73,8 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   fprintf(out, "%d,%s,%s\n", pid, uu.nodename, pw->pw_name);
   fclose(out);
 
-  if (link(tname, lock_file_name) < 0) {
+  while (link(tname, name) < 0) {
+    int held = (errno == EEXIST);
     /* check if link count==2 */
     if (stat(tname, &sb) < 0) {
       fprintf(stderr, "Could not stat the lock file\n");
@@ -81,22 +83,32 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
     } else {
       if (sb.st_nlink != 2) {
         FILE *in;
-        in = fopen(lock_file_name, "r");
+        in = fopen(name, "r");
         if (in) {
-          char line[2048];
-          fgets(line, sizeof(line), in);
-          line[strlen(line)-1] = 0; /* strip trailing newline */
+          char line[2048] = "";
+          if (!fgets(line, sizeof(line), in)) line[0] = 0;
+          line[strcspn(line, "\n")] = 0; /* strip trailing newline */
           fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
           unlink(tname);
           exit(1);
         }
+        if (held && errno == ENOENT) {
+          /* The other process has finished meanwhile, so try again */
+          continue;
+        }
+        if (held) {
+          fprintf(stderr, "Database %s appears to be locked\n", path);
+          unlink(tname);
+          exit(1);
+        }
       } else {
         /* lock succeeded apparently */
       }
     }
-  } else {
-    /* lock succeeded apparently */
+    break;
   }
+  /* lock succeeded apparently.  Only now is the lock ours to remove again. */
+  lock_file_name = name;
   unlink(tname);
   free(tname);
   return;
-- 
2.43.0


From 3f4e35429f68cdbe5c1fae331411ae6d2702fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:09 +0000
Subject: [PATCH 25/73] fix: bad %-escapes in header parameters shifted a
 negative value

---
 nvp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nvp.c b/nvp.c
index 3cd99f5..3c67b39 100644
--- a/nvp.c
+++ b/nvp.c
@@ -274,8 +274,10 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 		if (*tempsrc == '%') {
 		    int val = -1;
 		    if (tempsrc[1] && tempsrc[2]) {
-			val = hex_to_val(*++tempsrc) << 4;
-			val |= hex_to_val(*++tempsrc);
+			int hi = hex_to_val(*++tempsrc);
+			int lo = hex_to_val(*++tempsrc);
+			if (hi >= 0 && lo >= 0)
+			    val = (hi << 4) | lo;
 		    }
 		    if (val < 0) {
 #ifdef TEST
-- 
2.43.0


From e185aa7c8e098a56450ee11ebb5e4586f56d4a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:03 +0000
Subject: [PATCH 26/73] fix: no warning was given when a matched mbox is empty
 or gone

---
 search.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 53a3208..cdb979f 100644
--- a/search.c
+++ b/search.c
@@ -747,7 +747,11 @@ static void get_validated_mbox_msg(struct read_db *db, int msg_index,/*{{{*/
 
   create_ro_mapping(db->data + db->mbox_paths_table[mbi], mbox_data, mbox_len,
       MAP_DECOMPRESS_IF_APPLICABLE);
-  if (!*mbox_data) return;
+  if (!*mbox_data) {
+    /* Gone, emptied or unreadable since it was indexed */
+    had_failed_checksum = 1;
+    return;
+  }
 
   start = *mbox_data + db->mtime_table[msg_index];
 
-- 
2.43.0


From 3835db7bfc2c0530e44c91dc8c837e3d62db0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:12 +0000
Subject: [PATCH 27/73] fix: stale mbox messages were passed as NULL to the
 IMAP result folder

---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index cdb979f..4bc8829 100644
--- a/search.c
+++ b/search.c
@@ -1404,7 +1404,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               unsigned char *start, *data;
               int mbox_len, msg_len, mbi;
               get_validated_mbox_msg(db, i, &mbi, &data, &mbox_len, &start, &msg_len);
-              imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              if (start) {
+                imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              }
               if (data) {
                 free_ro_mapping(data, mbox_len);
               }
-- 
2.43.0


From ea3b5945fcbfac49928402c7fb8040f0244701d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:24 +0000
Subject: [PATCH 28/73] fix: signals while the lock is taken or released left
 it behind or removed another's

---
 dotlock.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dotlock.c b/dotlock.c
index ac3ffc2..ffc1d4e 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -26,9 +26,23 @@
 #include <errno.h>
 #include <pwd.h>
 #include <unistd.h>
+#include <signal.h>
 
 static char *lock_file_name = NULL;
 
+/* The signals that unlock the database must not arrive between the creation or
+ * removal of the lock and the note of it in lock_file_name. */
+static void hold_signals(sigset_t *old)/*{{{*/
+{
+  sigset_t set;
+  sigemptyset(&set);
+  sigaddset(&set, SIGHUP);
+  sigaddset(&set, SIGINT);
+  sigaddset(&set, SIGQUIT);
+  sigprocmask(SIG_BLOCK, &set, old);
+}
+/*}}}*/
+
 /* This locking code was originally written for tdl */
 
 void lock_database(char *path, int forced_unlock)/*{{{*/
@@ -40,6 +54,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   char *tname, *name;
   struct stat sb;
   FILE *out;
+  sigset_t old_signals;
 
   if (uname(&uu) < 0) {
     perror("uname");
@@ -65,6 +80,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   len += (10 + 2);
   tname = new_array(char, len);
   sprintf(tname, "%s.%d.%s", name, pid, uu.nodename);
+  hold_signals(&old_signals);
   out = fopen(tname, "w");
   if (!out) {
     fprintf(stderr, "Cannot open lock file %s for writing\n", tname);
@@ -110,13 +126,18 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   /* lock succeeded apparently.  Only now is the lock ours to remove again. */
   lock_file_name = name;
   unlink(tname);
+  sigprocmask(SIG_SETMASK, &old_signals, NULL);
   free(tname);
   return;
 }
 /*}}}*/
 void unlock_database(void)/*{{{*/
 {
+  sigset_t old_signals;
+  hold_signals(&old_signals);
   if (lock_file_name) unlink(lock_file_name);
+  lock_file_name = NULL; /* from now on it may be another process's */
+  sigprocmask(SIG_SETMASK, &old_signals, NULL);
   return;
 }
 /*}}}*/
-- 
2.43.0


From d391537ca85b62e5b8aaa0e7c9892e772c0ab4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:55 +0000
Subject: [PATCH 29/73] fix: SIGTERM and SIGPIPE left the database locked

---
 dotlock.c | 1 +
 mairix.c  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dotlock.c b/dotlock.c
index ffc1d4e..ece0258 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -39,6 +39,7 @@ static void hold_signals(sigset_t *old)/*{{{*/
   sigaddset(&set, SIGHUP);
   sigaddset(&set, SIGINT);
   sigaddset(&set, SIGQUIT);
+  sigaddset(&set, SIGTERM);
   sigprocmask(SIG_BLOCK, &set, old);
 }
 /*}}}*/
diff --git a/mairix.c b/mairix.c
index 55eecb3..3ae0aa7 100644
--- a/mairix.c
+++ b/mairix.c
@@ -713,6 +713,8 @@ int main (int argc, char **argv)/*{{{*/
   signal(SIGHUP, handlesig);
   signal(SIGINT, handlesig);
   signal(SIGQUIT, handlesig);
+  signal(SIGTERM, handlesig);
+  signal(SIGPIPE, handlesig); /* output or IMAP connection closed by the other end */
 
   lock_database(database_path, do_forced_unlock);
 
-- 
2.43.0


From 94bac29c473d186551d06e5786f115c534291d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:25 +0000
Subject: [PATCH 30/73] fix: a signal could deadlock the process in exit()

---
 mairix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 3ae0aa7..82a354e 100644
--- a/mairix.c
+++ b/mairix.c
@@ -451,7 +451,9 @@ static void print_version(void)/*{{{*/
 /*}}}*/
 static void handlesig(int signo)/*{{{*/
 {
-  unlock_and_exit(7);
+  /* exit() can deadlock when the signal interrupts the C library */
+  unlock_database();
+  _exit(7);
 }
 /*}}}*/
 static void usage(void)/*{{{*/
-- 
2.43.0


From b5c6e4c5836a2c434ad1975d065317e78a5077b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:47 +0000
Subject: [PATCH 31/73] fix: words split over adjacent encoded-words were not
 joined

---
 rfc822.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index 05b6d26..c23e85b 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -297,8 +297,12 @@ static void decode_header_value(char *text){/*{{{*/
   /* rfc2047 decode, written by Mikael Ylikoski */
 
   char *s, *a, *b, *e, *p, *q;
+  char *gap; /* where the white space between two encoded-words was put */
+  int after_word = 0;
 
   for (p = q = s = text; (s = strstr(s, "=?")); s = e + 2) {
+    gap = (after_word && (strspn(q, " \t\r\n") == s - q)) ? p : NULL;
+    after_word = 0;
     if (p == q)
       p = q = s;
     else
@@ -316,6 +320,8 @@ static void decode_header_value(char *text){/*{{{*/
     /* have found an encoded-word */
     if (b - a != 2)
       continue; /* unknown encoding */
+    if (gap && strchr("qQbB", *a))
+      p = gap; /* adjacent encoded-words join up */
     if (*a == 'q' || *a == 'Q') {
       int val;
       q = b;
@@ -357,6 +363,7 @@ static void decode_header_value(char *text){/*{{{*/
       continue; /* unknown encoding */
     }
     q = e + 2;
+    after_word = 1;
   }
   if (p == q) return;
   while (*q != '\0')
-- 
2.43.0


From a6b4de0dabb5377ae2b734021e7d6bc947a7605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:47 +0000
Subject: [PATCH 32/73] fix: an RFC 2231 attachment name was glued to the plain
 name given with it

---
 nvp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvp.c b/nvp.c
index 3c67b39..8c76470 100644
--- a/nvp.c
+++ b/nvp.c
@@ -295,7 +295,7 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 		    *tempdst++ = *tempsrc;
 	    }
             *tempdst = 0;
-            if (current_action == GOT_NAMEVALUE_CSET)
+            if (last_action == GOT_NAMEVALUE_CSET)
               append_namevalue(result, &name, &value);
             else
               combine_namevalue(result, &name, &value);
-- 
2.43.0


From 65cdb07c50a505c1dd6e962d82a94e0c0a00a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:09 +0000
Subject: [PATCH 33/73] fix: attachment names with an RFC 2231 language tag or
 more than ten sections were not parsed

---
 nvp.nfa | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nvp.nfa b/nvp.nfa
index 0f2ccd9..61775ce 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -107,6 +107,12 @@ Block minor {
         -> out
 }
 
+Block language {
+    State in
+        NAME1 -> out
+        NAME1 -> in
+}
+
 Block namevalue {
     State in
         OWS ; <name:in->out> ; OWS ; [=] -> rhs_normal
@@ -114,6 +120,7 @@ Block namevalue {
         OWS ; <name:in->out> ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [0] ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [1-9A-Za-z] ; [*] ; OWS ; [=] -> rhs_charset_continue
+        OWS ; <name:in->out> ; [*] ; [1-9] ; <digits:in->out> ; [*] ; OWS ; [=] -> rhs_charset_continue
 
     State rhs_normal
         OWS ; <qvalue:in->out> ; OWS -> out_normal
@@ -127,6 +134,7 @@ Block namevalue {
     State rhs_charset
         OWS ; ['] ; ['] ; <value:in->out> ; OWS -> out_charset
         OWS ; <minor:in->out> ; ['] ; ['] ; <value:in->out> ; OWS -> out_charset
+        OWS ; <minor:in->out> ; ['] ; <language:in->out> ; ['] ; <value:in->out> ; OWS -> out_charset
 
     State rhs_charset_continue
         OWS ; <value:in->out> ; OWS -> out_charset_continue
-- 
2.43.0


From 7695e6ff0f262d72d6b334257117eacf1a036cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 34/73] fix: only the first stream of a bzip2 mbox with several
 was read

---
 rfc822.c | 67 ++++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 4 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index c23e85b..200bfe8 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1154,6 +1154,65 @@ static int is_compressed(const char *filename) {/*{{{*/
 }
 /*}}}*/
 
+#ifdef USE_BZIP_MBOX
+/* A bzip2 file may be several compressed streams one after the other (that's
+ * what appending to it and the parallel compressors give), but libbz2 stops at
+ * the end of each of them. */
+struct bzMulti {/*{{{*/
+  FILE *file;
+  BZFILE *stream;
+  int first;
+};
+/*}}}*/
+static struct bzMulti *bzm_open(const char *filename) {/*{{{*/
+  struct bzMulti *bzm = new(struct bzMulti);
+  int status;
+  bzm->first = 1;
+  bzm->file = fopen(filename, "rb");
+  if (bzm->file) {
+    bzm->stream = BZ2_bzReadOpen(&status, bzm->file, 0, 0, NULL, 0);
+    if (bzm->stream) return bzm;
+    fclose(bzm->file);
+  }
+  free(bzm);
+  return NULL;
+}
+/*}}}*/
+static int bzm_read(struct bzMulti *bzm, void *buf, int len) {/*{{{*/
+  int done = 0;
+  while (bzm->stream && done < len) {
+    char unused[BZ_MAX_UNUSED];
+    void *left;
+    int n_left, c, status;
+    done += BZ2_bzRead(&status, bzm->stream, (char *) buf + done, len - done);
+    if (status == BZ_OK) continue;
+    if (status == BZ_DATA_ERROR_MAGIC && !bzm->first) break; /* trailing garbage */
+    if (status != BZ_STREAM_END) return -1;
+
+    /* Go on with the next stream if there is one */
+    BZ2_bzReadGetUnused(&status, bzm->stream, &left, &n_left);
+    memcpy(unused, left, n_left);
+    BZ2_bzReadClose(&status, bzm->stream);
+    bzm->stream = NULL;
+    bzm->first = 0;
+    c = n_left ? EOF : getc(bzm->file);
+    if (c != EOF) ungetc(c, bzm->file);
+    if (n_left || c != EOF) {
+      bzm->stream = BZ2_bzReadOpen(&status, bzm->file, 0, 0, unused, n_left);
+      if (!bzm->stream) return -1;
+    }
+  }
+  return done;
+}
+/*}}}*/
+static void bzm_close(struct bzMulti *bzm) {/*{{{*/
+  int status;
+  if (bzm->stream) BZ2_bzReadClose(&status, bzm->stream);
+  fclose(bzm->file);
+  free(bzm);
+}
+/*}}}*/
+#endif
 struct zFile {/*{{{*/
   union {
     /* Both gzFile and BZFILE* are defined as void pointers
@@ -1163,7 +1222,7 @@ struct zFile {/*{{{*/
     gzFile gzf;
 #endif
 #ifdef USE_BZIP_MBOX
-    BZFILE *bzf;
+    struct bzMulti *bzf;
 #endif
 #ifdef USE_XZ_MBOX
     xzFile *xzf;
@@ -1186,7 +1245,7 @@ static struct zFile * xx_zopen(const char *filename, const char *mode) {/*{{{*/
 #endif
 #ifdef USE_BZIP_MBOX
     case COMPRESSION_BZIP:
-      zf->foo.bzf = BZ2_bzopen(filename, "rb");
+      zf->foo.bzf = bzm_open(filename);
       break;
 #endif
 #ifdef USE_XZ_MBOX
@@ -1216,7 +1275,7 @@ static void xx_zclose(struct zFile *zf) {/*{{{*/
 #endif
 #ifdef USE_BZIP_MBOX
     case COMPRESSION_BZIP:
-      BZ2_bzclose(zf->foo.bzf);
+      bzm_close(zf->foo.bzf);
       break;
 #endif
 #ifdef USE_XZ_MBOX
@@ -1240,7 +1299,7 @@ static int xx_zread(struct zFile *zf, void *buf, int len) {/*{{{*/
 #endif
 #ifdef USE_BZIP_MBOX
     case COMPRESSION_BZIP:
-      return BZ2_bzread(zf->foo.bzf, buf, len);
+      return bzm_read(zf->foo.bzf, buf, len);
       break;
 #endif
 #ifdef USE_XZ_MBOX
-- 
2.43.0


From 470c8ebf065a2a3235458dbd0dff7b893b322d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:43 +0000
Subject: [PATCH 35/73] fix: files that are no database passed for one if any
 magic byte matched

---
 reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.c b/reader.c
index d7b91ea..e59b159 100644
--- a/reader.c
+++ b/reader.c
@@ -205,8 +205,8 @@ struct read_db *open_db(char *filename)/*{{{*/
   result->data = data;
 
   /*{{{ Magic number check */
-  if (ucdata[0] == HEADER_MAGIC0 ||
-      ucdata[1] == HEADER_MAGIC1 ||
+  if (ucdata[0] == HEADER_MAGIC0 &&
+      ucdata[1] == HEADER_MAGIC1 &&
       ucdata[2] == HEADER_MAGIC2) {
     if (ucdata[3] != HEADER_MAGIC3) {
       fprintf(stderr, "Another version of this program produced the existing database!  Please rebuild.\n");
-- 
2.43.0


From 11c93afe443d253f696461882937f95e49db4508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:37 +0000
Subject: [PATCH 36/73] fix: untagged IMAP responses of one word crashed the
 client

---
 imap.c          | 1 +
 imapinterface.c | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/imap.c b/imap.c
index 6e3105e..32ce906 100644
--- a/imap.c
+++ b/imap.c
@@ -1048,6 +1048,7 @@ find_capability_list_in_untagged_response(struct imap_ll_tokenlist *l)
 	for (l = l->first; l; l = l->next) {
 		if (
 			((l->type) == TLTYPE_UNTAGGED) &&
+			(l->first) &&
 			((l->first->type) == TLTYPE_ATOM) &&
 			(0 == strcmp(l->first->leaf, "CAPABILITY"))
 		) return l->first->next;
diff --git a/imapinterface.c b/imapinterface.c
index 2dcb4a9..6a1efcc 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -105,10 +105,10 @@ long exists;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
-		if (l2->type != TLTYPE_ATOM) continue;
+		if ((!l2) || (l2->type != TLTYPE_ATOM)) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
-		if (l2->type != TLTYPE_LIST) continue;
+		if ((!l2) || (l2->type != TLTYPE_LIST)) continue;
 		uid = NULL;
 		deleted = 0;
 		for (l2 = l2->first; l2 && (l2->next); l2 = l2->next) {
@@ -216,10 +216,10 @@ const char *actual_uidvalidity, *got_uid, *got_raw;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
-		if (l2->type != TLTYPE_ATOM) continue;
+		if ((!l2) || (l2->type != TLTYPE_ATOM)) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
-		if (l2->type != TLTYPE_LIST) continue;
+		if ((!l2) || (l2->type != TLTYPE_LIST)) continue;
 		got_uid = got_raw = NULL;
 		for (l2 = l2->first; l2 && (l2->next); l2 = l2->next) {
 			if (l2->type != TLTYPE_ATOM) continue;
-- 
2.43.0


From 4220438ebf1b30d0cda89a93099eb6ec703f9607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:37 +0000
Subject: [PATCH 37/73] fix: an IMAP connection lost during login, COPY or
 APPEND crashed the client

---
 imap.c          | 3 +++
 imapinterface.c | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/imap.c b/imap.c
index 32ce906..da1c3af 100644
--- a/imap.c
+++ b/imap.c
@@ -837,6 +837,7 @@ imap_ll_append(struct imap_ll_tokenlist *list, struct imap_ll_tokenlist *item)
 const char *
 imap_ll_status(struct imap_ll_tokenlist *t)
 {
+	if (!t) return "BAD"; /* no response */
 	t = t->last->first;
 	if (!t) return "BAD";
 	if ((t->type) != TLTYPE_ATOM) return "BAD";
@@ -1045,6 +1046,7 @@ const char *close = NULL;
 static struct imap_ll_tokenlist *
 find_capability_list_in_untagged_response(struct imap_ll_tokenlist *l)
 {
+	if (!l) return NULL;
 	for (l = l->first; l; l = l->next) {
 		if (
 			((l->type) == TLTYPE_UNTAGGED) &&
@@ -1069,6 +1071,7 @@ struct imap_ll_tokenlist *cmd, *result;
 	);
 	result = imap_ll_command(ll, cmd, 10);
 	imap_ll_freeline(cmd);
+	if (!result) fprintf(stderr, "no response from IMAP server\n");
 	return result;
 }
 
diff --git a/imapinterface.c b/imapinterface.c
index 6a1efcc..72f3497 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -366,7 +366,7 @@ const char *actual_uidvalidity;
 
 	if (0 != strcmp(imap_ll_status(result), "OK")) {
 		fprintf(stderr, "unable to COPY message to folder \"%s\":\n", to_folder);
-		imap_ll_pprint(result, 0, stderr);
+		if (result) imap_ll_pprint(result, 0, stderr);
 	}
 	imap_ll_freeline(result);
 }
@@ -416,7 +416,7 @@ struct imap_ll_tokenlist *flags, *cmd, *result;
 
 	if (0 != strcmp(imap_ll_status(result), "OK")) {
 		fprintf(stderr, "unable to APPEND message to folder \"%s\":\n", folder);
-		imap_ll_pprint(result, 0, stderr);
+		if (result) imap_ll_pprint(result, 0, stderr);
 	}
 	imap_ll_freeline(result);
 }
-- 
2.43.0


From 99b3a9043df458f337104de961d53c0ef01c1d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:07 +0000
Subject: [PATCH 38/73] fix: backslashes in IMAP folder names and passwords
 were sent unescaped

---
 imap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imap.c b/imap.c
index da1c3af..cf65f74 100644
--- a/imap.c
+++ b/imap.c
@@ -548,6 +548,7 @@ char close = 0;
 				if (
 					(t->leaf[i] < 32) ||
 					(t->leaf[i] == 34) ||
+					(t->leaf[i] == 92) ||
 					(t->leaf[i] > 126)
 				) break;
 			}
-- 
2.43.0


From 73dd6c1e6154b6b385f427cf5eb825c3b2910512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:35 +0000
Subject: [PATCH 39/73] fix: large numbers from an IMAP server overflowed, and
 garbage after a literal count was taken as the literal

---
 imap.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/imap.c b/imap.c
index cf65f74..d2b25c7 100644
--- a/imap.c
+++ b/imap.c
@@ -220,6 +220,9 @@ struct imap_ll_tokenlist *t2, *next;
 	}
 }
 
+/* Numbers and the literals they announce stay well inside an int */
+#define MAX_LITERAL 2000000000
+
 #define MKPRETOKEN(alloc_size) { \
 	curtoken = malloc((alloc_size) + 1); \
 	if (!curtoken) { \
@@ -296,7 +299,7 @@ struct pollfd pfd;
 							/* wrong tag */
 							linestate = 3;
 						}
-					} else if ((cur >= '0') && (cur <= '9')) {
+					} else if ((cur >= '0') && (cur <= '9') && (recv_tag < MAX_LITERAL / 10)) {
 						recv_tag *= 10;
 						recv_tag += cur - '0';
 					} else {
@@ -377,9 +380,14 @@ token_extend:
 					/* literal count */
 					if (cur == 125) {
 						linestate = 7;
-					} else if ((cur >= '0') && (cur <= '9')) {
+					} else if ((cur >= '0') && (cur <= '9') && (recv_tag < MAX_LITERAL / 10)) {
 						recv_tag *= 10;
 						recv_tag += cur - '0';
+					} else if ((cur >= '0') && (cur <= '9')) {
+						fprintf(stderr, "imap_ll_waitline: literal too long\n");
+						if (curtoken) free(curtoken);
+						imap_ll_freeline(line);
+						return NULL;
 					} else {
 						linestate = 3;
 					}
@@ -389,7 +397,9 @@ token_extend:
 					if (cur == 13) break;
 					if (cur != 10) {
 						linestate = 3;
+						break;
 					}
+					if (curtoken) free(curtoken);
 					MKPRETOKEN(recv_tag);
 					if (recv_tag == 0) {
 						growlist(&node, mktoken(TLTYPE_STRING, curtoken, curtoken_now));
-- 
2.43.0


From 528644881915664ad4478f9360fa52662429866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:35 +0000
Subject: [PATCH 40/73] fix: backslash escapes in quoted strings from an IMAP
 server were not undone

---
 imap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index d2b25c7..dcfe875 100644
--- a/imap.c
+++ b/imap.c
@@ -245,6 +245,7 @@ char cur;
 struct imap_ll_tokenlist *line = NULL;
 struct imap_ll_tokenlist *node = NULL;
 int linestate = 0;
+int escaped = 0;
 int recv_tag = 0;
 char *curtoken = NULL;
 size_t curtoken_now = 0;
@@ -313,6 +314,7 @@ struct pollfd pfd;
 					/* looking for start of next "thing" */
 					if (cur == 34) {
 						linestate = 5;
+						escaped = 0;
 						MKPRETOKEN(50);
 					} else if (cur == 123) {
 						linestate = 6;
@@ -368,11 +370,15 @@ token_extend:
 					break;
 				case 5:
 					/* quoted string */
-					if (cur == 34) {
+					if ((cur == 34) && !escaped) {
 						growlist(&node, mktoken(TLTYPE_STRING, curtoken, curtoken_now));
 						curtoken = NULL;
 						linestate = 4;
+					} else if ((cur == 92) && !escaped) {
+						escaped = 1;
+						break;
 					} else {
+						escaped = 0;
 						goto token_extend;
 					}
 					break;
-- 
2.43.0


From 466c5f24ee42368f1b9a0d671f0c3d9838a3aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:35 +0000
Subject: [PATCH 41/73] fix: local matches were not delivered to an IMAP result
 folder yet to be created

---
 imapinterface.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/imapinterface.c b/imapinterface.c
index 72f3497..c131064 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -380,7 +380,6 @@ imap_append_new_message(
 {
 struct imap_ll_tokenlist *flags, *cmd, *result;
 
-	if (!imap_select(imapc, folder, -1, 1, NULL)) return;
 	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);
 	if (seen) {
 		imap_ll_append(flags, imap_ll_build(
-- 
2.43.0


From 7017fada41f22a5fe3ec15b72e7ac8f11465b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:15 +0000
Subject: [PATCH 42/73] fix: IMAP messages the server did not return were
 recorded as empty for good

---
 db.c            | 21 +++++++++++++++++++--
 imapinterface.c |  7 +++++--
 imapinterface.h |  3 ++-
 search.c        |  2 +-
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/db.c b/db.c
index b5dd72d..58f1855 100644
--- a/db.c
+++ b/db.c
@@ -693,11 +693,21 @@ static void scan_maildir_flags(struct msgpath *m)/*{{{*/
   }
 }
 /*}}}*/
+static void drop_new_message(struct database *db, int i)/*{{{*/
+{
+  /* Take message i, to which no token refers yet, out of the database again */
+  free(db->msgs[i].src.mpf.path);
+  --db->n_msgs;
+  memmove(&db->msgs[i], &db->msgs[i+1], (db->n_msgs - i) * sizeof(struct msgpath));
+  memmove(&db->type[i], &db->type[i+1], (db->n_msgs - i) * sizeof(enum message_type));
+}
+/*}}}*/
 static void scan_new_messages(struct database *db, int start_at, struct imap_ll *imapc)/*{{{*/
 {
   int i;
   for (i=start_at; i<db->n_msgs; i++) {
     struct rfc822 *msg = NULL;
+    int readable = 1;
     int len = strlen(db->msgs[i].src.mpf.path);
 
     if (len > 10 && !strcmp(db->msgs[i].src.mpf.path + len - 11, "/.gitignore"))
@@ -716,7 +726,7 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
-        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc);
+        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc, &readable);
         break;
     }
     if(msg)
@@ -726,8 +736,15 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
       tokenise_message(i, db, msg);
       free_rfc822(msg);
     }
-    else
+    else if (readable)
       fprintf(stderr, "Skipping %s (could not parse message)\n", db->msgs[i].src.mpf.path);
+    else
+    {
+      /* Not recorded, so that the next run tries again */
+      fprintf(stderr, "Skipping %s (could not read message)\n", db->msgs[i].src.mpf.path);
+      drop_new_message(db, i);
+      --i;
+    }
   }
 }
 /*}}}*/
diff --git a/imapinterface.c b/imapinterface.c
index c131064..44f5e0b 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -264,12 +264,15 @@ struct msg_src src;	/* assuming this is for error message presentation only! */
 }
 
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc)
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc, int *fetched_p)
 {
 struct make_rfc822_from_imap_s s;
+int fetched;
 
 	s.pseudopath = pseudopath;
-	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
+	s.r = NULL;
+	fetched = imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
+	if (fetched_p) *fetched_p = fetched;
 	return s.r;
 }
 
diff --git a/imapinterface.h b/imapinterface.h
index 71f7a4f..874e616 100644
--- a/imapinterface.h
+++ b/imapinterface.h
@@ -21,8 +21,9 @@ int imap_fetch_message_raw(
 	   data is no longer valid. */
 );
 
+/* *fetched_p tells whether the server returned the message */
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *);
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *, int *fetched_p);
 
 void imap_clear_folder(struct imap_ll *, const char *);
 void imap_append_new_message(struct imap_ll *, const char *folder, const unsigned char *data, size_t len, int seen, int answered, int flagged);
diff --git a/search.c b/search.c
index 4bc8829..d4d08e7 100644
--- a/search.c
+++ b/search.c
@@ -1320,7 +1320,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
               GET_IMAP;
-              parsed = imapc ? make_rfc822_from_imap(filename, imapc) : NULL;
+              parsed = imapc ? make_rfc822_from_imap(filename, imapc, NULL) : NULL;
             }
             break;
           case DB_MSG_MBOX:
-- 
2.43.0


From d1b283f5b7d4c1882b88fc19f82fdfb8afe2f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:15 +0000
Subject: [PATCH 43/73] fix: message files that could not be read were recorded
 as empty until they change

---
 db.c     | 2 +-
 mairix.h | 2 +-
 rfc822.c | 5 +++--
 search.c | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/db.c b/db.c
index 58f1855..fee6912 100644
--- a/db.c
+++ b/db.c
@@ -722,7 +722,7 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_FILE:
         if (verbose) fprintf(stderr, "Scanning <%s>\n", db->msgs[i].src.mpf.path);
-        msg = make_rfc822(db->msgs[i].src.mpf.path);
+        msg = make_rfc822(db->msgs[i].src.mpf.path, &readable);
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
diff --git a/mairix.h b/mairix.h
index b63bf46..7ee408c 100644
--- a/mairix.h
+++ b/mairix.h
@@ -332,7 +332,7 @@ void build_message_list(char *folder_base, char *folders, enum folder_type ft,
     struct msgpath_array *msgs, struct globber_array *omit_globs);
 
 /* In rfc822.c */
-struct rfc822 *make_rfc822(char *filename);
+struct rfc822 *make_rfc822(char *filename, int *readable);
 void free_rfc822(struct rfc822 *msg);
 enum data_to_rfc822_error {
   DTR8_OK,
diff --git a/rfc822.c b/rfc822.c
index 200bfe8..bbbda55 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1559,7 +1559,7 @@ static struct msg_src *setup_msg_src(char *filename)/*{{{*/
   return &result;
 }
 /*}}}*/
-struct rfc822 *make_rfc822(char *filename)/*{{{*/
+struct rfc822 *make_rfc822(char *filename, int *readable)/*{{{*/
 {
   int len;
   unsigned char *data;
@@ -1569,6 +1569,7 @@ struct rfc822 *make_rfc822(char *filename)/*{{{*/
 
   /* Don't process empty files */
   result = NULL;
+  if (readable) *readable = data || (len == 0 && access(filename, F_OK) == 0);
 
   if (data)
   {
@@ -1671,7 +1672,7 @@ int main (int argc, char **argv)/*{{{*/
     unlock_and_exit(2);
   }
 
-  msg = make_rfc822(argv[1]);
+  msg = make_rfc822(argv[1], NULL);
   show_rfc822(msg, 0);
   free_rfc822(msg);
 
diff --git a/search.c b/search.c
index d4d08e7..f3bac84 100644
--- a/search.c
+++ b/search.c
@@ -1310,7 +1310,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               printf("---------------------------------\n");
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
-              parsed = make_rfc822(filename);
+              parsed = make_rfc822(filename, NULL);
             }
             break;
           case DB_MSG_IMAP:
-- 
2.43.0


From b61a425c339384d31d4e29b52659ab8b23766275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:15 +0000
Subject: [PATCH 44/73] fix: the size of IMAP messages was not recorded, so z:
 searches compared leftover data

---
 db.c            | 4 ++--
 imapinterface.c | 6 +++++-
 imapinterface.h | 4 ++--
 search.c        | 2 +-
 writer.c        | 2 ++
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/db.c b/db.c
index fee6912..4034360 100644
--- a/db.c
+++ b/db.c
@@ -447,7 +447,7 @@ struct database *new_database_from_file(char *db_filename, int do_integrity_chec
         result->type[i] = MTY_IMAP;
         result->msgs[i].src.mpf.path = new_string(input->data + input->path_offsets[i]);
         result->msgs[i].src.mpf.mtime = 0;
-        result->msgs[i].src.mpf.size  = 0;
+        result->msgs[i].src.mpf.size  = input->size_table[i];
         break;
       case DB_MSG_MBOX:
         {
@@ -726,7 +726,7 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
-        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc, &readable);
+        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc, &readable, &db->msgs[i].src.mpf.size);
         break;
     }
     if(msg)
diff --git a/imapinterface.c b/imapinterface.c
index 44f5e0b..d8c9611 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -250,6 +250,7 @@ const char *actual_uidvalidity, *got_uid, *got_raw;
 struct make_rfc822_from_imap_s {
 	const char *pseudopath;
 	struct rfc822 *r;
+	size_t len;
 };
 
 static void
@@ -261,18 +262,21 @@ struct msg_src src;	/* assuming this is for error message presentation only! */
 	src.type = MS_FILE;
 	src.filename = (char *)(s->pseudopath);	/* XXX breaking "const" */
 	s->r = data_to_rfc822(&src, (char *)data /* XXX breaking "const" */, len, NULL);
+	s->len = len;
 }
 
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc, int *fetched_p)
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc, int *fetched_p, size_t *len_p)
 {
 struct make_rfc822_from_imap_s s;
 int fetched;
 
 	s.pseudopath = pseudopath;
 	s.r = NULL;
+	s.len = 0;
 	fetched = imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
 	if (fetched_p) *fetched_p = fetched;
+	if (len_p) *len_p = s.len;
 	return s.r;
 }
 
diff --git a/imapinterface.h b/imapinterface.h
index 874e616..e86a4b2 100644
--- a/imapinterface.h
+++ b/imapinterface.h
@@ -21,9 +21,9 @@ int imap_fetch_message_raw(
 	   data is no longer valid. */
 );
 
-/* *fetched_p tells whether the server returned the message */
+/* *fetched_p tells whether the server returned the message, *len_p its size */
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *, int *fetched_p);
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *, int *fetched_p, size_t *len_p);
 
 void imap_clear_folder(struct imap_ll *, const char *);
 void imap_append_new_message(struct imap_ll *, const char *folder, const unsigned char *data, size_t len, int seen, int answered, int flagged);
diff --git a/search.c b/search.c
index f3bac84..fd99d49 100644
--- a/search.c
+++ b/search.c
@@ -1320,7 +1320,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
               GET_IMAP;
-              parsed = imapc ? make_rfc822_from_imap(filename, imapc, NULL) : NULL;
+              parsed = imapc ? make_rfc822_from_imap(filename, imapc, NULL, NULL) : NULL;
             }
             break;
           case DB_MSG_MBOX:
diff --git a/writer.c b/writer.c
index 4b37274..0d85df1 100644
--- a/writer.c
+++ b/writer.c
@@ -358,6 +358,8 @@ static char *write_messages(struct database *db, struct write_map *map, unsigned
       case MTY_IMAP:
         slen = strlen(db->msgs[i].src.mpf.path);
         uidata[map->path_offset + i] = cdata - data;
+        uidata[map->mtime_offset + i] = 0;
+        uidata[map->size_offset + i] = db->msgs[i].src.mpf.size;
         uidata[map->date_offset + i] = db->msgs[i].date;
         uidata[map->tid_offset + i]  = db->msgs[i].tid;
         memcpy(cdata, db->msgs[i].src.mpf.path, 1 + slen); /* include trailing null */
-- 
2.43.0


From a08b80b45fbedf34721634117ea0a068133acc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:50 +0000
Subject: [PATCH 45/73] fix: an IMAP folder that could not be opened made the
 messages of the folder opened before it unfetchable

---
 imap.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/imap.c b/imap.c
index dcfe875..8b67324 100644
--- a/imap.c
+++ b/imap.c
@@ -1276,6 +1276,12 @@ long exists = 0;
 		return ll->selected_folder_uidvalidity;
 	}
 
+	/* whatever comes of the command, the server leaves the folder it has open */
+	if (ll->selected_folder) free(ll->selected_folder);
+	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
+	ll->selected_folder = NULL;
+	ll->selected_folder_uidvalidity = NULL;
+
 	command_name = need_write ? "SELECT" : "EXAMINE";
 	cmd = imap_ll_build(
 		TLTYPE_TAGGED,
@@ -1328,8 +1334,6 @@ long exists = 0;
 		return NULL;
 	}
 
-	if (ll->selected_folder) free(ll->selected_folder);
-	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
 	ll->selected_folder = malloc(foldername_len);
 	if (ll->selected_folder) {
 		memcpy(ll->selected_folder, foldername, foldername_len);
-- 
2.43.0


From 72af5733286629bdb580ca08106b9c09953f61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:36 +0000
Subject: [PATCH 46/73] fix: an mbox that could not be examined was recorded as
 empty until it changes

---
 rfc822.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index bbbda55..6e526f1 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1400,7 +1400,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
   {
     report_error("stat", filename);
     *data = NULL;
-    *len = 0;
+    *len = -1; /* not to be taken for an empty file */
     return;
   }
 
@@ -1569,7 +1569,7 @@ struct rfc822 *make_rfc822(char *filename, int *readable)/*{{{*/
 
   /* Don't process empty files */
   result = NULL;
-  if (readable) *readable = data || (len == 0 && access(filename, F_OK) == 0);
+  if (readable) *readable = data || (len == 0);
 
   if (data)
   {
-- 
2.43.0


From 9396767a03d8192c241002f056df735b7eaa9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:36 +0000
Subject: [PATCH 47/73] fix: an mbox that vanished or was cut during indexing
 aborted or crashed the whole run

---
 mbox.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/mbox.c b/mbox.c
index 33e1ce3..0cbdb12 100644
--- a/mbox.c
+++ b/mbox.c
@@ -932,7 +932,24 @@ int add_mbox_messages(struct database *db)/*{{{*/
         mb->check_all = grow_array(checksum_t, N, mb->check_all);
       }
 
-      va = NULL; /* lazy mmap */
+      for (here=mb->new_msgs; here->next; here=here->next) ;
+      create_ro_mapping(mb->path, &va, &valen, MAP_DECOMPRESS_IF_APPLICABLE);
+      if (!va || here->start + here->len > valen) {
+        /* Vanished or cut since it was scanned : do without its new messages,
+         * and make sure that the next run looks at it again. */
+        fprintf(stderr, "Couldn't create mapping of file %s\n", mb->path);
+        if (va) free_ro_mapping(va, valen);
+        for (here=mb->new_msgs; here; here=next) {
+          next = here->next;
+          free(here);
+        }
+        mb->new_msgs = NULL;
+        mb->n_msgs = mb->n_old_msgs_valid;
+        mb->current_mtime = 0;
+        mb->current_size = 0;
+        continue;
+      }
+
       for (j=mb->n_old_msgs_valid, here=mb->new_msgs; here; j++, here=next) {
         int n;
         int trials = 0;
@@ -944,16 +961,6 @@ int add_mbox_messages(struct database *db)/*{{{*/
 
         next = here->next;
 
-        if (!va) {
-          create_ro_mapping(mb->path, &va, &valen,
-              MAP_DECOMPRESS_IF_APPLICABLE);
-        }
-        if (!va) {
-          fprintf(stderr, "Couldn't create mapping of file %s\n", mb->path);
-          unlock_and_exit(1);
-        }
-
-
         /* Try to parse the next 'From' -to- 'From' chunk as an rfc822 message.
          * If we get an unterminated MIME encoding, coalesce the next chunk
          * onto the current one and try again.  Keep going until it works, or
@@ -1031,9 +1038,7 @@ int add_mbox_messages(struct database *db)/*{{{*/
         any_new = 1;
       }
       mb->n_msgs = j;
-      if (va) {
-        free_ro_mapping(va, valen);
-      }
+      free_ro_mapping(va, valen);
     }
   }
   return any_new;
-- 
2.43.0


From 703300c6eaf62c1dc7726af356f6c835afd236e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:31 +0000
Subject: [PATCH 48/73] fix: changes to an mbox message were missed if a later
 message was still in place

---
 mbox.c | 35 ++++++-----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/mbox.c b/mbox.c
index 0cbdb12..aa1a42d 100644
--- a/mbox.c
+++ b/mbox.c
@@ -136,36 +136,13 @@ static int message_is_intact(struct mbox *mb, int idx, char *va, size_t len)/*{{
 /*}}}*/
 static int find_number_intact(struct mbox *mb, char *va, size_t len)/*{{{*/
 {
-  /* Pick up the common obvious case first - where new messages have been appended to the
-     end of the mbox */
-  if (mb->n_msgs == 0) {
-    return 0;
-  } else if (message_is_intact(mb, mb->n_msgs - 1, va, len)) {
-    return mb->n_msgs; /* The lot */
-  } else if (!message_is_intact(mb, 0, va, len)) {
-    return 0; /* None of them. */
-  } else {
-    /* Looks like a deletion has occurred earlier in the file => binary chop
-       search to find the last message that's still valid.  Assume that
-       everything below a valid message is still valid itself (possibly
-       dangerous assumption, time will tell.) */
-
-    int l, m, h;
-    l = 0;
-    h = mb->n_msgs;
-    /* Loop invariant : always, message[l] is intact, message[h] isn't. */
-    while (l < h) {
-      m = (h + l) >> 1;
-      if (m==l) break;
-      if (message_is_intact(mb, m, va, len)) {
-        l = m;
-      } else {
-        h = m;
-      }
-    }
-    /* By loop invariant, message[l] is the highest valid one. */
-    return (l + 1);
+  /* Every message has to be looked at : a mail reader that rewrites an earlier
+     message, e.g. to update its flags, can leave the later ones in place. */
+  int n;
+  for (n = 0; n < mb->n_msgs; n++) {
+    if (!message_is_intact(mb, n, va, len)) break;
   }
+  return n;
 }
 /*}}}*/
 
-- 
2.43.0


From 852752c552b1dc91c9e2483b3239ff0ae8c2d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:21 +0000
Subject: [PATCH 49/73] fix: an mbox message that grew after it was indexed was
 never indexed completely

---
 mbox.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mbox.c b/mbox.c
index aa1a42d..bd56219 100644
--- a/mbox.c
+++ b/mbox.c
@@ -330,6 +330,13 @@ static struct message_list *build_new_message_list(struct mbox *mb, char *va, si
 
   result = here = NULL;
   N = mb->n_old_msgs_valid;
+  if (N > 0) {
+    off_t end = mb->start[N - 1] + mb->len[N - 1];
+    if ((end < len) && (find_next_separator(end, va, len) != end)) {
+      /* This one has grown since (e.g. it was still being delivered), so scan it again */
+      mb->n_old_msgs_valid = mb->n_msgs = --N;
+    }
+  }
   if (N == 0) {
     start_from = 0;
   } else {
-- 
2.43.0


From 874749b189575f827b92d8da14ace69cbc64825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:06 +0000
Subject: [PATCH 50/73] fix: matches that could not be written, and old results
 that could not be removed, passed for success

---
 search.c | 65 ++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/search.c b/search.c
index fd99d49..4e9e05b 100644
--- a/search.c
+++ b/search.c
@@ -623,6 +623,16 @@ static int looks_like_maildir_new_p(const char *p)/*{{{*/
   }
 }
 /*}}}*/
+/* Set if the result folder isn't what it should be since something couldn't be
+ * written or removed. */
+static int had_failed_output;
+
+static void report_failed_output(const char *what, const char *path, int error)/*{{{*/
+{
+  fprintf(stderr, "%s \"%s\": %s\n", what, path, strerror(error));
+  had_failed_output = 1;
+}
+/*}}}*/
 /* The functions that put a match into a maildir or MH result folder never
  * touch an entry that is already there (with -a, it may be a link to one of the
  * user's messages.)  They return 0 if the name is in use for something else, so
@@ -631,13 +641,17 @@ static int create_symlink(char *link_target, char *new_link)/*{{{*/
 {
   if ((do_hardlinks ? link(link_target, new_link) : symlink(link_target, new_link)) < 0) {
     struct stat target_sb, link_sb;
-    if ((errno == EEXIST) &&
-        ((stat(link_target, &target_sb) < 0) || (stat(new_link, &link_sb) < 0) ||
+    int error = errno;
+    int target_gone = (stat(link_target, &target_sb) < 0);
+    if ((error == EEXIST) &&
+        (target_gone || (stat(new_link, &link_sb) < 0) ||
          (target_sb.st_dev != link_sb.st_dev) || (target_sb.st_ino != link_sb.st_ino))) {
       return 0;
     }
+    if ((error != EEXIST) && !(do_hardlinks && target_gone)) {
+      report_failed_output("Cannot link matched message to", new_link, error);
+    }
     if (verbose) {
-      perror("symlink");
       fprintf(stderr, "Failed path <%s> -> <%s>\n", link_target, new_link);
     }
   }
@@ -660,6 +674,21 @@ static int same_contents(const char *path, const char *header, const char *data,
   return result;
 }
 /*}}}*/
+static int close_output(FILE *out, const char *path)/*{{{*/
+{
+  int failed = (fflush(out) < 0) || ferror(out);
+  int error = errno;
+  if (fclose(out) < 0 && !failed) {
+    failed = 1;
+    error = errno;
+  }
+  if (failed) {
+    report_failed_output("Cannot write matched messages to", path, error);
+    return -1;
+  }
+  return 0;
+}
+/*}}}*/
 static int write_copy(const char *path, const char *header, const char *data, size_t len)/*{{{*/
 {
   FILE *out;
@@ -668,13 +697,15 @@ static int write_copy(const char *path, const char *header, const char *data, si
     return same_contents(path, header, data, len);
   }
   if ((fd < 0) || !(out = fdopen(fd, "wb"))) {
-    fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", path, strerror(errno));
+    report_failed_output("Cannot write matched message to", path, errno);
     if (fd >= 0) close(fd);
     return 1;
   }
   fputs(header, out);
   fwrite(data, sizeof(char), len, out);
-  fclose(out);
+  if (close_output(out, path) < 0) {
+    unlink(path);
+  }
   return 1;
 }
 /*}}}*/
@@ -1245,7 +1276,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
         out = fopen(output_path, "ab");
         if (!out) {
           fprintf(stderr, "Cannot open output folder %s\n", output_path);
-          unlock_and_exit(1);
+          unlock_and_exit(2);
         }
 
         for (ii=0; ii<n_hits; ii++) {
@@ -1269,7 +1300,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               break;
           }
         }
-        fclose(out);
+        close_output(out, output_path);
       }
 
       break;
@@ -1429,7 +1460,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   if ((ft != FT_RAW) && (ft != FT_EXCERPT)) {
     printf("Matched %d messages\n", n_hits);
   }
-  fflush(stdout);
+  if (((fflush(stdout) < 0) || ferror(stdout)) && ((ft == FT_RAW) || (ft == FT_EXCERPT))) {
+    report_failed_output("Cannot write", "standard output", errno);
+  }
 
   if (had_failed_checksum) {
     fprintf(stderr,
@@ -1438,6 +1471,10 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
             "You may need to run mairix in indexing mode then repeat your search.\n");
   }
 
+  if (had_failed_output) {
+    return 2;
+  }
+
   /* Return error code 1 to the shell if no messages were matched. */
   return (n_hits == 0) ? 1 : 0;
 }
@@ -1529,12 +1566,14 @@ static void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/
         if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {
           /* FIXME : Can you unlink from a directory while doing a readdir loop over it? */
           if (unlink(fpath) < 0) {
-            fprintf(stderr, "Unlinking %s failed\n", fpath);
+            report_failed_output("Cannot remove", fpath, errno);
           }
         }
       }
     }
     closedir(d);
+  } else {
+    report_failed_output("Cannot clear", sdir, errno);
   }
 
   free(fpath);
@@ -1565,13 +1604,15 @@ static void clear_mh_folder(char *path)/*{{{*/
           if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {
             /* FIXME : Can you unlink from a directory while doing a readdir loop over it? */
             if (unlink(fpath) < 0) {
-              fprintf(stderr, "Unlinking %s failed\n", fpath);
+              report_failed_output("Cannot remove", fpath, errno);
             }
           }
         }
       }
     }
     closedir(d);
+  } else {
+    report_failed_output("Cannot clear", path, errno);
   }
 
   free(fpath);
@@ -1579,7 +1620,9 @@ static void clear_mh_folder(char *path)/*{{{*/
 /*}}}*/
 static void clear_mbox_folder(char *path)/*{{{*/
 {
-  unlink(path);
+  if ((unlink(path) < 0) && (errno != ENOENT)) {
+    report_failed_output("Cannot clear", path, errno);
+  }
 }
 /*}}}*/
 
-- 
2.43.0


From 79765c1cbbf1c839fdb799a01c6492b88f47886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:06 +0000
Subject: [PATCH 51/73] fix: running out of space while the database grows
 crashed the indexer and destroyed the database

---
 writer.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/writer.c b/writer.c
index 0d85df1..7697c24 100644
--- a/writer.c
+++ b/writer.c
@@ -30,6 +30,7 @@
 #include <fcntl.h>
 #include <unistd.h>
 #include <assert.h>
+#include <errno.h>
 #include <sys/mman.h>
 
 struct write_map_toktable {/*{{{*/
@@ -104,14 +105,22 @@ static void create_rw_mapping(char *filename, size_t len, int *out_fd, char **ou
   }
 
   if (sb.st_size < len) {
-    /* Extend */
-    if (lseek(fd, len - 1, SEEK_SET) < 0) {
-      report_error("lseek", filename);
-      unlock_and_exit(2);
-    }
-    if (write(fd, "\000", 1) < 0) {
-      report_error("write", filename);
-      unlock_and_exit(2);
+    /* Extend.  All the space is allocated before anything that is in the file
+     * already gets changed, since running out of it can't be handled later. */
+    static const char zeroes[65536];
+    off_t pos = sb.st_size;
+    while (pos < len) {
+      size_t chunk = (len - pos < sizeof(zeroes)) ? (len - pos) : sizeof(zeroes);
+      ssize_t done = pwrite(fd, zeroes, chunk, pos);
+      if (done < 0) {
+        if (errno == EINTR) continue;
+        report_error("write", filename);
+        if ((sb.st_size > 0) ? (ftruncate(fd, sb.st_size) < 0) : (unlink(filename) < 0)) {
+          report_error("restore", filename);
+        }
+        unlock_and_exit(2);
+      }
+      pos += done;
     }
   } else if (sb.st_size > len) {
     /* Truncate */
-- 
2.43.0


From 4f9eb0824692cf20f3eb5d0e2d738b92ce45d075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:00 +0000
Subject: [PATCH 52/73] fix: an attachment named by a Content-Type Name
 parameter not in lower case was not found by name

---
 rfc822.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 6e526f1..6a9ff4c 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -742,7 +742,7 @@ static void do_body(struct msg_src *src,
         } else {
           /* Some messages have name=... in content-type: instead of
            * filename=... in content-disposition. */
-          lookup = nvp_lookup(ct_nvp, "name");
+          lookup = nvp_lookupcase(ct_nvp, "name");
           if (lookup) {
             new_att->filename = new_string(lookup);
           } else {
-- 
2.43.0


From 92dd2adfbef70849e7454e68cfd999a1e1594dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 53/73] fix: flags were taken from the name of a message's
 folder when it contains ":2,"

---
 db.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 4034360..303ea24 100644
--- a/db.c
+++ b/db.c
@@ -676,7 +676,7 @@ static void scan_maildir_flags(struct msgpath *m)/*{{{*/
   m->replied = 0;
   m->flagged = 0;
   for (p=start; *p; p++) {}
-  for (p--; (p >= start) && ((*p) != ':'); p--) {}
+  for (p--; (p >= start) && ((*p) != ':') && ((*p) != '/'); p--) {}
   if (p >= start) {
     if (!strncmp(p, ":2,", 3)) {
       p += 3;
-- 
2.43.0


From bc4e9e65d7f5412fc62713f95ec235a72a965791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 54/73] fix: an mbox separator whose address has a one-letter
 host was not recognised

---
 fromcheck.nfa | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fromcheck.nfa b/fromcheck.nfa
index 97bce23..fa8add4 100644
--- a/fromcheck.nfa
+++ b/fromcheck.nfa
@@ -91,7 +91,7 @@ BLOCK email {
 
     STATE start_of_domain
         LEFTSQUARE -> dotted_quad
-        DOMAIN -> after_at
+        DOMAIN -> after_at, out
 
     STATE dotted_quad
         DIGIT | PERIOD -> dotted_quad
-- 
2.43.0


From a9276d92c05a607c2ab9ec9752170e694c019af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:50 +0000
Subject: [PATCH 55/73] fix: search results could be written over the messages
 inside an indexed folder

---
 mairix.c | 63 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/mairix.c b/mairix.c
index 82a354e..62d46c3 100644
--- a/mairix.c
+++ b/mairix.c
@@ -79,6 +79,58 @@ static enum filetype classify_file(char *name)/*{{{*/
   }
 }
 /*}}}*/
+/*{{{ same_file */
+/* returns 1 iff PATH/SUB is the file or directory OTHER */
+static int same_file(const char *path, const char *sub, const struct stat *other)
+{
+  struct stat sb;
+  char *full;
+  int status;
+
+  full = new_array(char, strlen(path) + strlen(sub) + 1);
+  strcpy(full, path);
+  strcat(full, sub);
+  status = stat(full, &sb);
+  free(full);
+  return (status == 0) && (sb.st_dev == other->st_dev) && (sb.st_ino == other->st_ino);
+}
+/*}}}*/
+/*{{{ clashes_with_messages */
+/* returns 1 iff COMPLETE_MFOLDER is the directory SRC/SUB, where the messages
+   of an indexed folder live, or if it is, or would become, one of the messages
+   in there, or if it's a maildir whose own messages would go there. */
+static int clashes_with_messages(const char *complete_mfolder, const char *src,
+    const char *sub, enum folder_type ft)
+{
+  struct stat src_sb, mfolder_sb;
+  char *path, *name;
+  int result;
+
+  path = new_array(char, strlen(src) + strlen(sub) + 1);
+  strcpy(path, src);
+  strcat(path, sub);
+  result = stat(path, &src_sb);
+  free(path);
+  if (result != 0)
+    return 0;
+  if (same_file(complete_mfolder, "", &src_sb) ||
+      same_file(complete_mfolder, "/cur", &src_sb) ||
+      same_file(complete_mfolder, "/new", &src_sb))
+    return 1;
+  if (stat(complete_mfolder, &mfolder_sb) == 0 && S_ISDIR(mfolder_sb.st_mode))
+    return 0; /* at most a folder nested in the indexed one, which is fine */
+  path = realpath(complete_mfolder, NULL);
+  if (!path) path = new_string(complete_mfolder);
+  name = path + strlen(path);
+  while (name > path && name[-1] == '/') *--name = 0;
+  while (name > path && name[-1] != '/') name--;
+  result = (ft == FT_MAILDIR) || valid_mh_filename_p(name);
+  *name = 0;
+  result = result && same_file(path, ".", &src_sb);
+  free(path);
+  return result;
+}
+/*}}}*/
 /*{{{ member of*/
 /* returns 1 iff COMPLETE_MFOLDER (i.e. the match folder with
    folder_base prepended if needed) matches one of the FOLDERS after
@@ -117,6 +169,15 @@ int member_of (const char *complete_mfolder,
     /* if the complete path names are the same, definitely a match */
     if (strcmp (complete_mfolder, paths[i]) == 0)
       return 1;
+    /* also a match if the results would end up among the messages in the
+       folder */
+    if (ft == FT_MAILDIR &&
+        (clashes_with_messages(complete_mfolder, paths[i], "/cur", ft) ||
+         clashes_with_messages(complete_mfolder, paths[i], "/new", ft) ||
+         clashes_with_messages(complete_mfolder, paths[i], "/tmp", ft)))
+      return 1;
+    if (ft == FT_MH && clashes_with_messages(complete_mfolder, paths[i], "", ft))
+      return 1;
     /* also a match if they point to the same file or directory but
        via different routes (e.g. absolute path for one but path with
        ../.. for the other), so check inode numbers */
@@ -125,6 +186,8 @@ int member_of (const char *complete_mfolder,
     if (stat (complete_mfolder, &mfolder_sb) != 0 ||
         stat (paths[i], &src_folder_sb) != 0)
       continue;
+    if (mfolder_sb.st_dev != src_folder_sb.st_dev)
+      continue;
     if (mfolder_sb.st_ino == src_folder_sb.st_ino)
       return 1;
   }
-- 
2.43.0


From c6809b2a61d671525b87131bfded55b155d1ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 56/73] fix: an attachment without a Content-Type was not found
 by name

---
 rfc822.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 6a9ff4c..8eb5095 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -781,8 +781,13 @@ static void do_body(struct msg_src *src,
   } else {
     /* Treat as text/plain {{{*/
     struct attachment *new_att;
+    const char *disposition = cd_nvp ? nvp_first(cd_nvp) : NULL;
+    const char *lookup = NULL;
+    if (disposition && !strcasecmp(disposition, "attachment")) {
+      lookup = nvp_lookupcase(cd_nvp, "filename");
+    }
     new_att = new(struct attachment);
-    new_att->filename = NULL;
+    new_att->filename = lookup ? new_string(lookup) : NULL;
     new_att->ct = CT_TEXT_PLAIN;
     new_att->data.normal.len = decoded_body_len;
     /* Add null termination on the end */
-- 
2.43.0


From 28aef6a6e2ec3aa675c853a09429eb28030c9339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 57/73] fix: a multipart boundary followed by blanks was not
 recognised

---
 rfc822.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 8eb5095..25c9a5a 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -917,11 +917,16 @@ static void do_multipart(struct msg_src *src,
       boundary_ok = 1;
       if ((b1 > input) && (*(b1-1) != '\n'))
         boundary_ok = 0;
-      if (!looking_at_end_boundary && (b1 + boundary_len + 3 < be) && !(
-          ((b1 + boundary_len + 2 < input + input_len) && (*(b1 + boundary_len + 2) == '\n')) ||
-          ((b1 + boundary_len + 3 < input + input_len) && (*(b1 + boundary_len + 2) == '\r') && (*(b1 + boundary_len + 3) == '\n'))
-      ))
-        boundary_ok = 0;
+      if (!looking_at_end_boundary) {
+        /* Blanks may have been added to the end of the line in transit */
+        char *after = b1 + boundary_len + 2;
+        while ((after < be) && ((*after == ' ') || (*after == '\t'))) after++;
+        if ((after + 1 < be) && !(
+            (after[0] == '\n') ||
+            ((after[0] == '\r') && (after[1] == '\n'))
+        ))
+          boundary_ok = 0;
+      }
       if (!boundary_ok) {
         char *eol = strchr(b1, '\n');
         if (!eol) {
-- 
2.43.0


From 33c4370d6245f8373b7618630b737a4dd0be014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:17 +0000
Subject: [PATCH 58/73] fix: IMAP search results could be written over an
 indexed IMAP folder

---
 mairix.c | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/mairix.c b/mairix.c
index 62d46c3..dacc314 100644
--- a/mairix.c
+++ b/mairix.c
@@ -198,6 +198,40 @@ int member_of (const char *complete_mfolder,
   return 0;
 }
 /*}}}*/
+/*{{{ imap_member_of */
+/* returns 1 iff MFOLDER, a folder on the IMAP server, is one of the indexed
+   FOLDERS there. */
+static int imap_member_of(const char *mfolder, const char *folders,
+    struct globber_array *omit_globs)
+{
+  char **names;
+  int n_names, i;
+  int result = 0;
+
+  if (!folders)
+    return 0;
+  split_on_colons(folders, &n_names, &names);
+  for (i=0; i<n_names; i++) {
+    if (is_globber_array_match(omit_globs, names[i]))
+      continue;
+    if (strcmp(mfolder, names[i]) == 0 ||
+        (strcasecmp(mfolder, "INBOX") == 0 && strcasecmp(names[i], "INBOX") == 0))
+      result = 1;
+  }
+  free_string_array(n_names, &names);
+  return result;
+}
+/*}}}*/
+static void refuse_mfolder(const char *mfolder)/*{{{*/
+{
+  fprintf (stderr,
+      "You asked search results to go to the folder '%s'.\n"
+      "That folder appears to be one of the indexed mail folders!\n"
+      "For your own good, I refuse to output search results to an indexed mail folder.\n",
+      mfolder);
+  unlock_and_exit(3);
+}
+/*}}}*/
 static char *copy_value(char *text)/*{{{*/
 {
   char *p;
@@ -826,18 +860,15 @@ int main (int argc, char **argv)/*{{{*/
       case FT_EXCERPT:
         break;
       case FT_IMAP:
-        /* the same check as below could be implemented in the future */
+        if (imap_member_of(mfolder, imap_folders, omit_globs)) {
+          refuse_mfolder(mfolder);
+        }
         break;
       default:
         if ((member_of(complete_mfolder,folder_base, maildir_folders, FT_MAILDIR, omit_globs)||
              member_of (complete_mfolder, folder_base, mh_folders, FT_MH, omit_globs) ||
              member_of (complete_mfolder, folder_base, mboxen, FT_MBOX, omit_globs))) {
-          fprintf (stderr,
-              "You asked search results to go to the folder '%s'.\n"
-              "That folder appears to be one of the indexed mail folders!\n"
-              "For your own good, I refuse to output search results to an indexed mail folder.\n",
-              mfolder);
-          unlock_and_exit(3);
+          refuse_mfolder(mfolder);
         }
     }
 
-- 
2.43.0


From b4f5b7b717b262529878c28e1f3251146dac505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:48 +0000
Subject: [PATCH 59/73] fix: a lock that is a dangling symlink was waited for
 in a busy loop

---
 dotlock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotlock.c b/dotlock.c
index ece0258..099d625 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -109,7 +109,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
           unlink(tname);
           exit(1);
         }
-        if (held && errno == ENOENT) {
+        if (held && errno == ENOENT && lstat(name, &sb) < 0) {
           /* The other process has finished meanwhile, so try again */
           continue;
         }
-- 
2.43.0


From 9e90fc86eeb6c59bbccc9db19ef7a0da5e22c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:45 +0000
Subject: [PATCH 60/73] fix: text after a null character in a message was not
 indexed

---
 db.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/db.c b/db.c
index 303ea24..cd9ceec 100644
--- a/db.c
+++ b/db.c
@@ -612,6 +612,16 @@ static void tokenise_html_string(int file_index, unsigned int hash_key, struct t
   }
 }
 /*}}}*/
+static char *text_without_nulls(struct attachment *a)/*{{{*/
+{
+  /* A null character within the text mustn't hide what comes after it */
+  int i;
+  for (i=0; i<a->data.normal.len; i++) {
+    if (!a->data.normal.bytes[i]) a->data.normal.bytes[i] = ' ';
+  }
+  return a->data.normal.bytes;
+}
+/*}}}*/
 void tokenise_message(int file_index, struct database *db, struct rfc822 *msg)/*{{{*/
 {
   struct attachment *a;
@@ -634,10 +644,10 @@ void tokenise_message(int file_index, struct database *db, struct rfc822 *msg)/*
   for (a=msg->atts.next; a!=&msg->atts; a=a->next) {
     switch (a->ct) {
       case CT_TEXT_PLAIN:
-        tokenise_string(file_index, db->hash_key, db->body, a->data.normal.bytes, 1);
+        tokenise_string(file_index, db->hash_key, db->body, text_without_nulls(a), 1);
         break;
       case CT_TEXT_HTML:
-        tokenise_html_string(file_index, db->hash_key, db->body, a->data.normal.bytes);
+        tokenise_html_string(file_index, db->hash_key, db->body, text_without_nulls(a));
         break;
       case CT_MESSAGE_RFC822:
         /* Just recurse for now - maybe we should have separate token tables
-- 
2.43.0


From a19fd2a179d5d5824882c097d492b67ae1e9d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:35 +0000
Subject: [PATCH 61/73] fix: attachment headers with 8-bit characters, quoted
 characters or empty strings were not understood

---
 nvp.c   | 13 +++++++++++--
 nvp.nfa |  6 +++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/nvp.c b/nvp.c
index 8c76470..211c3bb 100644
--- a/nvp.c
+++ b/nvp.c
@@ -108,6 +108,7 @@ static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
     if (n->type == NVP_NAMEVALUE) {
       if (!strcmp(n->lhs, *name)) {
         char *new_rhs;
+        if (!*value) return; /* "" */
         new_rhs = new_array(char, strlen(n->rhs) + strlen(*value) + 1);
         strcpy(new_rhs, n->rhs);
         strcat(new_rhs, *value);
@@ -219,8 +220,14 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 #endif
             break;
           case COPY_TO_VALUE:
-            free(value);
-            value = newstring;
+            if (value) {
+              /* The piece after a quoted character */
+              value = grow_array(char, strlen(value) + strlen(newstring) + 1, value);
+              strcat(value, newstring);
+              free(newstring);
+            } else {
+              value = newstring;
+            }
 #ifdef VERBOSE_TEST
             fprintf(stderr, "  COPY_TO_VALUE \"%s\"\n", value);
 #endif
@@ -309,6 +316,8 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
         /* Clear last_action so we don't repeat the action if we
            get another terminator immediately. */
         last_action = GOT_NOTHING;
+        free(value);
+        value = NULL;
         break;
       case GOT_NOTHING:
         break;
diff --git a/nvp.nfa b/nvp.nfa
index 61775ce..5b45862 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -20,7 +20,7 @@
 # =======================================================================
 
 Tokens EOS
-Abbrev VALUE = [\041-~]~[\\";]
+Abbrev VALUE = [\041-~\200-\377]~[\\";]
 Abbrev QVALUE = VALUE | [\011\040;] | <escape:in->out>
 Abbrev NAME1 = [0-9a-zA-Z_\-]
 Abbrev MINOR = NAME1 | [\.\-+]
@@ -32,8 +32,7 @@ Abbrev OWS = <optwhite:in->out>
 
 Block escape {
     State in
-        [\\] ; [\\] -> out
-        [\\] ; ["]  -> out
+        [\\] ; [\011\040-~\200-\377] -> out
 }
 
 Block optwhite {
@@ -81,6 +80,7 @@ Block qvalue {
 
     State qv0
         QVALUE -> qv1
+        ["] -> out
 
     State qv1
         = COPY_TO_VALUE
-- 
2.43.0


From 0185de3364aae09ad21e3f29032f12b081d6ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:44 +0000
Subject: [PATCH 62/73] fix: crash when there is no home directory to expand ~/
 to

---
 expandstr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expandstr.c b/expandstr.c
index c1b3253..f8fdf0d 100644
--- a/expandstr.c
+++ b/expandstr.c
@@ -48,6 +48,10 @@ static int home_dir_len(void)/*{{{*/
     return strlen(lookup);
   }
   foo = getpwuid(getuid());
+  if (!foo) {
+    fprintf(stderr, "Cannot determine home directory\n");
+    exit(2);
+  }
   return strlen(foo->pw_dir);
 }
 /*}}}*/
-- 
2.43.0


From 8d825f061206e7bc186dc1a2a60fb9d8d74b7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 63/73] fix: dfasyn took ? _ and other characters as members of
 negated character classes

---
 dfasyn/charclass.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dfasyn/charclass.c b/dfasyn/charclass.c
index 0c720bc..aa08710 100644
--- a/dfasyn/charclass.c
+++ b/dfasyn/charclass.c
@@ -38,28 +38,31 @@ static char *strings[256];
 
 static void set_bit(unsigned long *bitmap, int entry)/*{{{*/
 {
-  int i, j, mask;
+  int i, j;
+  unsigned long mask;
   i = (entry >> 5);
   j = entry & 31;
-  mask = 1<<j;
+  mask = 1UL<<j;
   bitmap[i] |= mask;
 }
 /*}}}*/
 static void clear_bit(unsigned long *bitmap, int entry)/*{{{*/
 {
-  int i, j, mask;
+  int i, j;
+  unsigned long mask;
   i = (entry >> 5);
   j = entry & 31;
-  mask = 1<<j;
+  mask = 1UL<<j;
   bitmap[i] &= ~mask;
 }
 /*}}}*/
 int cc_test_bit(const unsigned long *bitmap, int entry)/*{{{*/
 {
-  int i, j, mask;
+  int i, j;
+  unsigned long mask;
   i = (entry >> 5);
   j = entry & 31;
-  mask = 1<<j;
+  mask = 1UL<<j;
   return (bitmap[i] & mask) ? 1 : 0;
 }
 /*}}}*/
-- 
2.43.0


From 3657c6ae9310c886292e006011282113fe47fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 64/73] fix: dfasyn failed on character classes without
 characters

---
 dfasyn/charclass.c |  5 +++--
 dfasyn/states.c    | 10 ++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/dfasyn/charclass.c b/dfasyn/charclass.c
index aa08710..c93da49 100644
--- a/dfasyn/charclass.c
+++ b/dfasyn/charclass.c
@@ -285,7 +285,8 @@ void split_charclasses(const Block *b)/*{{{*/
 
   for (i=0; i<256; i++) mapping[i] = -1;
 
-  do {
+  any_left = (find_lowest_bit_set(cc_union) >= 0);
+  while (any_left) {
     int first_char;
     int i;
     unsigned long pos[ULONGS_PER_CC], neg[ULONGS_PER_CC];
@@ -321,7 +322,7 @@ void split_charclasses(const Block *b)/*{{{*/
         break;
       }
     }
-  } while (any_left);
+  }
 
   /* Build group bitmaps */
   for (elt=cc_list; elt; elt=elt->next) {
diff --git a/dfasyn/states.c b/dfasyn/states.c
index 791f62b..a3fd036 100644
--- a/dfasyn/states.c
+++ b/dfasyn/states.c
@@ -271,8 +271,8 @@ void expand_charclass_transitions(Block *b)/*{{{*/
   int i;
   for (i=0; i<b->nstates; i++) {
     State *s = b->states[i];
-    TransList *tl;
-    for (tl=s->transitions; tl; tl=tl->next) {
+    TransList *tl, **ptl;
+    for (ptl=&s->transitions; (tl=*ptl); ) {
       if (tl->type == TT_CHARCLASS) {
         int i, first;
         CharClass *cc = tl->x.char_class;
@@ -295,7 +295,13 @@ void expand_charclass_transitions(Block *b)/*{{{*/
             first = 0;
           }
         }
+        if (first) {
+          /* No character is in the class : the transition can never be taken */
+          *ptl = tl->next;
+          continue;
+        }
       }
+      ptl = &tl->next;
     }
   }
 }
-- 
2.43.0


From b47beb0d9adbdd4fe9bad0b25eed309cdbe103f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 65/73] fix: dfasyn used freed memory with more than 32
 abbreviations

---
 dfasyn/abbrevs.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dfasyn/abbrevs.c b/dfasyn/abbrevs.c
index 9bc2c70..ba5a3cf 100644
--- a/dfasyn/abbrevs.c
+++ b/dfasyn/abbrevs.c
@@ -24,14 +24,14 @@
 
 #include "dfasyn.h"
 
-static struct Abbrev *abbrevtable=NULL;
+static struct Abbrev **abbrevtable=NULL;
 static int nabbrevs = 0;
 static int maxabbrevs = 0;
 
 static void grow_abbrevs(void)/*{{{*/
 {
   maxabbrevs += 32;
-  abbrevtable = resize_array(struct Abbrev, abbrevtable, maxabbrevs);
+  abbrevtable = resize_array(struct Abbrev *, abbrevtable, maxabbrevs);
 }
 /*}}}*/
 struct Abbrev * create_abbrev(const char *name, struct StimulusList *stimuli)/*{{{*/
@@ -40,7 +40,7 @@ struct Abbrev * create_abbrev(const char *name, struct StimulusList *stimuli)/*{
   if (nabbrevs == maxabbrevs) {
     grow_abbrevs();
   }
-  result = abbrevtable + (nabbrevs++);
+  result = abbrevtable[nabbrevs++] = new(struct Abbrev);
   result->lhs = new_string(name);
   result->stimuli = stimuli;
   return result;
@@ -54,9 +54,9 @@ struct Abbrev * lookup_abbrev(char *name)/*{{{*/
   /* Scan table in reverse order.  If a name has been redefined,
      make sure the most recent definition is picked up. */
   for (i=nabbrevs-1; i>=0; i--) {
-    if (!strcmp(abbrevtable[i].lhs, name)) {
+    if (!strcmp(abbrevtable[i]->lhs, name)) {
       found = i;
-      result = abbrevtable + found;
+      result = abbrevtable[found];
       break;
     }
   }
-- 
2.43.0


From 697fb501c0db14628a15cb4eb77dcb2dde9590c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 66/73] fix: dfasyn ran out of memory on a block instantiated
 inside itself

---
 dfasyn/blocks.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfasyn/blocks.c b/dfasyn/blocks.c
index e2ff735..d46aa10 100644
--- a/dfasyn/blocks.c
+++ b/dfasyn/blocks.c
@@ -111,6 +111,10 @@ void instantiate_block(Block *curblock, char *block_name, char *instance_name)/*
   Block *master = lookup_block(block_name, USE_OLD_MUST_EXIST);
   char namebuf[1024];
   int i;
+  if (master == curblock) {
+    fprintf(stderr, "Cannot instantiate block '%s' inside itself\n", block_name);
+    exit(1);
+  }
   for (i=0; i<master->nstates; i++) {
     State *s = master->states[i];
     State *new_state;
-- 
2.43.0


From 4e5448e2ed8e9c9320153bff0ac8ea97d327a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 67/73] fix: dfasyn wrote outside an array when there are no
 input symbols

---
 dfasyn/n2d.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index a7e6956..0067675 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -489,16 +489,13 @@ struct DFA *build_dfa(Block *b)/*{{{*/
   /* Add initial states */
   for (j=0; j<n_dfa_entries; j++) {
     int idx;
-    clear_nfas(nfas[0], N);
-    for (i=0; i<round_up(N); i++) {
-      nfas[0][i] |= b->eclo[dfa_entries[j].state_number][i];
-    }
+    unsigned long *entry_nfas = b->eclo[dfa_entries[j].state_number];
     /* Must handle the case where >=2 of the start states are actually identical;
      * nothing in the input language prevents this. */
-    idx = find_dfa(nfas[0], N);
+    idx = find_dfa(entry_nfas, N);
     if (idx < 0) {
       idx = dfa->n;
-      add_dfa(b, dfa, nfas[0], N, Nt, -1, -1);
+      add_dfa(b, dfa, entry_nfas, N, Nt, -1, -1);
     }
     dfa_entries[j].state_number = idx;
   }
-- 
2.43.0


From fdc2733344fc53192050ab86cbf321ac327452a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 68/73] fix: undefined shift in dfasyn's subset construction

---
 dfasyn/n2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index 0067675..7eed4bf 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -512,10 +512,10 @@ struct DFA *build_dfa(Block *b)/*{{{*/
   while (next_to_do < dfa->n) {
 
     int t; /* token index */
-    int j0, j0_5, j1, j, mask, k;
+    int j0, j0_5, j1, j, k;
     int idx;
     unsigned long *current_nfas;
-    unsigned long block_bitmap;
+    unsigned long block_bitmap, mask;
 
     /* If the next DFA state has the result_early flag set, it means that the scanner will
      * always exit straight away when that state is reached, so there's no need to compute
-- 
2.43.0


From a31491ba69ab743942fa74a0d5e6b668cb2f9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 69/73] fix: dfasyn's tables could not hold more than 256
 symbols or 65535 transitions

---
 dfasyn/dfasyn.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dfasyn/dfasyn.c b/dfasyn/dfasyn.c
index 0005ce6..31d3cf8 100644
--- a/dfasyn/dfasyn.c
+++ b/dfasyn/dfasyn.c
@@ -215,12 +215,15 @@ static void print_compressed_tables(struct DFA *dfa, int do_inline, const char *
 {
   int *basetab = new_array(int, dfa->n + 1);
   int Nt = ntokens + n_charclasses;
+  /* The tables must be able to hold every symbol and every position */
+  const char *token_type = (Nt > 256) ? "short" : "char";
+  const char *base_type;
   int n, i, j;
 
   n = 0;
-  fprintf(output, "%sunsigned char %stoken[] = {",
+  fprintf(output, "%sunsigned %s %stoken[] = {",
       do_inline ? "" : "static ",
-      prefix_under);
+      token_type, prefix_under);
   for (i=0; i<dfa->n; i++) {
     for (j=0; j<Nt; j++) {
       if (check_include_char(dfa, i, j)) {
@@ -258,11 +261,12 @@ static void print_compressed_tables(struct DFA *dfa, int do_inline, const char *
   }
   fprintf(output, "\n};\n\n");
   basetab[dfa->n] = n;
+  base_type = (n > 65535) ? "int" : "short";
 
   n = 0;
-  fprintf(output, "%sunsigned short %sbase[] = {",
+  fprintf(output, "%sunsigned %s %sbase[] = {",
       do_inline ? "" : "static ",
-      prefix_under);
+      base_type, prefix_under);
   for (i=0; i<=dfa->n; i++) {
     if (n>0) fputc (',', output);
     if (n%8 == 0) {
@@ -292,9 +296,9 @@ static void print_compressed_tables(struct DFA *dfa, int do_inline, const char *
   fprintf(output, "\n};\n\n");
 
   if (do_inline) {
-    fprintf(header_output, "extern unsigned char %stoken[];\n", prefix_under);
+    fprintf(header_output, "extern unsigned %s %stoken[];\n", token_type, prefix_under);
     fprintf(header_output, "extern short %snextstate[];\n", prefix_under);
-    fprintf(header_output, "extern unsigned short %sbase[];\n", prefix_under);
+    fprintf(header_output, "extern unsigned %s %sbase[];\n", base_type, prefix_under);
     fprintf(header_output, "extern short %sdefstate[];\n", prefix_under);
   }
   free(basetab);
-- 
2.43.0


From 50ce99f3341011feb4ea8323fbb205306ae6bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 70/73] fix: dfasyn crashed when the last block has no states

---
 dfasyn/dfasyn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfasyn/dfasyn.c b/dfasyn/dfasyn.c
index 31d3cf8..8ba7a09 100644
--- a/dfasyn/dfasyn.c
+++ b/dfasyn/dfasyn.c
@@ -598,6 +598,10 @@ int main (int argc, char **argv)/*{{{*/
      * is the entry state of the NFA */
     State *start_state;
     start_state = get_curstate();
+    if (!start_state) {
+      fprintf(stderr, "ERROR: No entry state, the last block has no states\n");
+      exit(1);
+    }
     main_block = start_state->parent;
     split_charclasses(main_block);
     expand_charclass_transitions(main_block);
-- 
2.43.0


From 56f1238e08790fd7f610bb5e1209b16e4b18436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:46 +0000
Subject: [PATCH 71/73] fix: dfasyn kept a pointer to an entry table out of
 scope

---
 dfasyn/dfasyn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfasyn/dfasyn.c b/dfasyn/dfasyn.c
index 8ba7a09..b17b822 100644
--- a/dfasyn/dfasyn.c
+++ b/dfasyn/dfasyn.c
@@ -486,6 +486,7 @@ int main (int argc, char **argv)/*{{{*/
   char *prefix_under;
   FILE *input = NULL;
   struct DFA *dfa;
+  struct DFAEntry entry[1];
 
   verbose = 0;
   report = NULL;
@@ -612,7 +613,6 @@ int main (int argc, char **argv)/*{{{*/
 
     if (verbose) fprintf(stderr, "Building DFA...\n");
     {
-      struct DFAEntry entry[1];
       n_dfa_entries = 1;
       dfa_entries = entry;
       entry[0].entry_name = "(ONLY ENTRY)";
-- 
2.43.0


From 3d14a933ff052eb716070ce8ee38ff5b8f9f9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 72/73] fix: dfasyn wrote beyond or cut off state names of more
 than a thousand characters

---
 dfasyn/blocks.c | 25 +++++++++++++++----------
 dfasyn/dfasyn.h |  1 +
 dfasyn/states.c | 16 ++++++++++------
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/dfasyn/blocks.c b/dfasyn/blocks.c
index d46aa10..cb037ec 100644
--- a/dfasyn/blocks.c
+++ b/dfasyn/blocks.c
@@ -106,10 +106,20 @@ Block * lookup_block(char *name, int create)/*{{{*/
 }
 /*}}}*/
 /* ================================================================= */
+char *dotted_name(const char *left, const char *right)/*{{{*/
+/* Name of the state 'right' within the block instance 'left' */
+{
+  char *result = new_array(char, strlen(left) + strlen(right) + 2);
+  strcpy(result, left);
+  strcat(result, ".");
+  strcat(result, right);
+  return result;
+}
+/*}}}*/
 void instantiate_block(Block *curblock, char *block_name, char *instance_name)/*{{{*/
 {
   Block *master = lookup_block(block_name, USE_OLD_MUST_EXIST);
-  char namebuf[1024];
+  char *name;
   int i;
   if (master == curblock) {
     fprintf(stderr, "Cannot instantiate block '%s' inside itself\n", block_name);
@@ -121,22 +131,17 @@ void instantiate_block(Block *curblock, char *block_name, char *instance_name)/*
     TransList *tl;
     Stringlist *sl, *ex;
 
-    strcpy(namebuf, instance_name);
-    strcat(namebuf, ".");
-    strcat(namebuf, s->name);
-
     /* In perverse circumstances, we might already have a state called this */
-    new_state = lookup_state(curblock, namebuf, CREATE_OR_USE_OLD);
+    name = dotted_name(instance_name, s->name);
+    new_state = lookup_state(curblock, name, CREATE_OR_USE_OLD);
+    free(name);
 
     for (tl=s->transitions; tl; tl=tl->next) {
       TransList *new_tl = new(TransList);
       new_tl->type = tl->type;
       /* Might cause some dangling ref problem later... */
       new_tl->x = tl->x;
-      strcpy(namebuf, instance_name);
-      strcat(namebuf, ".");
-      strcat(namebuf, tl->ds_name);
-      new_tl->ds_name = new_string(namebuf);
+      new_tl->ds_name = dotted_name(instance_name, tl->ds_name);
       new_tl->ds_ref = NULL;
       new_tl->next = new_state->transitions;
       new_state->transitions = new_tl;
diff --git a/dfasyn/dfasyn.h b/dfasyn/dfasyn.h
index 564fa06..b3be7e7 100644
--- a/dfasyn/dfasyn.h
+++ b/dfasyn/dfasyn.h
@@ -285,6 +285,7 @@ void add_transitions(Block *curblock, State *curstate, StimulusList *stimuli, ch
 State * add_transitions_to_internal(Block *curblock, State *addtostate, StimulusList *stimuli);
 void add_tags(State *curstate, Stringlist *sl);
 InlineBlock *create_inline_block(char *type, char *in, char *out);
+char *dotted_name(const char *left, const char *right);
 void instantiate_block(Block *curblock, char *block_name, char *instance_name);
 void fixup_state_refs(Block *b);
 void expand_charclass_transitions(Block *b);
diff --git a/dfasyn/states.c b/dfasyn/states.c
index a3fd036..e25d6eb 100644
--- a/dfasyn/states.c
+++ b/dfasyn/states.c
@@ -177,18 +177,22 @@ static void add_abbrev_transition(Block *curblock, State *curstate, struct Abbre
 /*}}}*/
 static void add_inline_block_transition(Block *curblock, State *curstate, InlineBlock *ib, char *destination)/*{{{*/
 {
-  char block_name[1023];
-  char input_name[1024];
-  char output_name[1024];
+  char *block_name;
+  char *input_name;
+  char *output_name;
   State *output_state;
 
-  snprintf(block_name, 1023, "%s#%d", ib->type, curblock->subblockcount++);
+  block_name = new_array(char, strlen(ib->type) + 16);
+  sprintf(block_name, "%s#%d", ib->type, curblock->subblockcount++);
   instantiate_block(curblock, ib->type, block_name);
-  snprintf(input_name, 1024, "%s.%s", block_name, ib->in);
-  snprintf(output_name, 1024, "%s.%s", block_name, ib->out);
+  input_name = dotted_name(block_name, ib->in);
+  output_name = dotted_name(block_name, ib->out);
   output_state = lookup_state(curblock, output_name, CREATE_OR_USE_OLD);
   add_epsilon_transition(curstate, input_name);
   add_epsilon_transition(output_state, destination);
+  free(block_name);
+  free(input_name);
+  free(output_name);
 }
 /*}}}*/
 static void add_char_class_transition(State *curstate, CharClass *cc, char *destination)/*{{{*/
-- 
2.43.0


From 028e78346c7f2ce5178a4e373a23bb419647f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 73/73] fix: dfasyn crashed on a tag defined by an expression
 it occurs in

---
 dfasyn/expr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dfasyn/expr.c b/dfasyn/expr.c
index 215adf6..4762bc8 100644
--- a/dfasyn/expr.c
+++ b/dfasyn/expr.c
@@ -54,6 +54,7 @@ struct Tag {
     int val;
   } data;
   int is_used;
+  int is_busy; /* The expression it stands for is being evaluated */
 };
 
 struct TagList {
@@ -151,6 +152,7 @@ static Tag *  find_tag_or_create(char *tag_name)/*{{{*/
   s->data.val = 0; /* Force initial value to be well-defined */
   s->name = new_string(tag_name);
   s->is_used = 0;
+  s->is_busy = 0;
   return s;
 }
 /*}}}*/
@@ -216,7 +218,13 @@ int eval(Expr *e)/*{{{*/
           e->data.tag.s = s = find_tag_or_create(e->data.tag.name);
         }
         if (s->is_expr) {
+          if (s->is_busy) {
+            fprintf(stderr, "Tag '%s' is defined by an expression it occurs in\n", s->name);
+            exit(2);
+          }
+          s->is_busy = 1;
           result = eval(s->data.e);
+          s->is_busy = 0;
         } else {
           result = s->data.val;
         }
-- 
2.43.0


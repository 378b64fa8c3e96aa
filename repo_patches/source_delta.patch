From 5179bdd2208c55ddeccce0b412fd497a0a555476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 001/108] fix: cancel_event unlinks a cancelled event that is
 not at the head of the list

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 6d186ba..fdd455f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -122,7 +122,7 @@ cancel_event(struct _device *dev, _callback func)
            }
            /* Point previous event next to next */
            if (ptr_event->prev != NULL) {
-               ptr_event->next = ptr_event->next;
+               ptr_event->prev->next = ptr_event->next;
            } else {
                /* No previous, at head of list */
                event_head = ptr_event->next;
-- 
2.43.0


From 25d6e7e1e8be34bdd4b5e7338620136bf37566fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 002/108] fix: advance unlinks the due event before running its
 callback

---
 src/event.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index fdd455f..98fc52a 100644
--- a/src/event.c
+++ b/src/event.c
@@ -150,15 +150,16 @@ advance()
     log_event("Advance event %d\n", ptr_event->time);
     ptr_event->time--;
     while (ptr_event != NULL && ptr_event->time == 0) {
-         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         /* Unlink event first, callback may add or cancel events */
          event_head = ptr_event->next;
-         free(ptr_event);
-         ptr_event = event_head;
-         if (ptr_event != NULL) {
-             ptr_event->prev = NULL;
+         if (event_head != NULL) {
+             event_head->prev = NULL;
          } else {
              event_tail = NULL;
          }
+         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         free(ptr_event);
+         ptr_event = event_head;
     }
 }
 
-- 
2.43.0


From bb7121ea01acce52ff82439314a9249f4ecc0db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 003/108] fix: tape: advance file position when a write moves
 past an unmodified buffer

---
 src/device/tape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index e51db5a..0e8d74d 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -287,9 +287,9 @@ tape_write_byte(struct _tape_buffer *tape, uint8_t data)
                  log_error("Tape write failed %s %d\n", tape->file_name, r);
                  return TAPE_STATUS_FILE_ERROR;
              }
-             tape->pos += tape->len_buff;
              tape->dirty = 0;
          }
+         tape->pos += tape->len_buff;
          tape->len_buff = 0;
          tape->pos_buff = 0;
      }
-- 
2.43.0


From a3addcb73639bb5ad4d96fac8ea25898b7548db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 004/108] fix: tape: a rewound tape is no longer at end of tape

---
 src/device/tape.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 0e8d74d..f892e48 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -993,6 +993,7 @@ tape_start_rewind(struct _tape_buffer *tape)
     tape->pos = 0;
     tape->pos_buff = 0;
     tape->len_buff = 0;
+    tape->format &= ~TAPE_EOT;
     return TAPE_STATUS_OK;
 }
 
-- 
2.43.0


From e8695d6678380f4944adf5a2b3f353aa5561686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 005/108] fix: tape: end of a P7B image ends the last record

---
 src/device/tape.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index f892e48..c2bf47a 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -770,8 +770,15 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_read_byte(tape, data);
+                       /* End of image also ends last record */
+                       if (tape->lrecl == 1 && r == TAPE_STATUS_EOT) {
+                           tape->lrecl = 2;
+                           return TAPE_STATUS_EOB;
+                       }
+                       if (r != TAPE_STATUS_OK)
+                           return r;
                        if (tape->lrecl == 1 && (*data & IRG_MASK) != 0) {
-                       r = tape_readbk_byte(tape, data);
+                           r = tape_readbk_byte(tape, data);
                            tape->lrecl = 2;
                            return TAPE_STATUS_EOB;
                        }
@@ -784,6 +791,8 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_readbk_byte(tape, data);
+                       if (r != TAPE_STATUS_OK)
+                           return r;
                        if ((*data & IRG_MASK) != 0) {
                            tape->lrecl = 2;
                        } else {
-- 
2.43.0


From df71a2fb78eb3e4a71f54661e89d80acd84c1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 006/108] fix: tape: skipping the rest of a record stops at end
 of image or error

---
 src/device/tape.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index c2bf47a..0f86b97 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -862,6 +862,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* Make sure we are at end of record. */
                         while (tape->lrecl < tape->orecl) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* If simH style tape, make sure even number of bytes per record */
                         if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->orecl & 1) {
@@ -930,6 +932,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
                         while (tape->lrecl > 0) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                              log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
                         }
                         /* Read in 4 byte trailing record length logical record length */
@@ -963,7 +967,7 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* If not at end of record, read until IRG */
                         while (tape->lrecl != 2) {
                             r = tape_read_frame(tape, &lrecl[0]);
-                            if (r == TAPE_STATUS_FILE_ERROR)
+                            if (r != TAPE_STATUS_OK && r != TAPE_STATUS_EOB)
                                return r;
                         }
                         break;
@@ -971,7 +975,7 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* If not at end of record, read until IRG */
                         while (tape->lrecl != 2) {
                             r = tape_read_frame(tape, &lrecl[0]);
-                            if (r == TAPE_STATUS_FILE_ERROR)
+                            if (r != TAPE_STATUS_OK && r != TAPE_STATUS_EOB)
                                return r;
                         }
                         break;
-- 
2.43.0


From 6d27791b62295b6fe75e03c73f6b8b85c2a9328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 007/108] fix: tape: old data after an overwritten P7B record
 is not part of it

---
 src/device/tape.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 0f86b97..d8547a7 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -959,6 +959,14 @@ tape_finish_rec(struct _tape_buffer *tape)
                    }
                    switch ((tape->format >> FUNC_V) & FUNC_M) {
                    case FUNC_WRITE:
+                        /* If over writing a tape, make sure old data does not join record */
+                        r = tape_peek_byte(tape, &lrecl[0]);
+                        if (r == TAPE_STATUS_FILE_ERROR)
+                            return r;
+                        if (r == TAPE_STATUS_OK && (lrecl[0] & IRG_MASK) == 0) {
+                            tape->buffer[tape->pos_buff] |= IRG_MASK;
+                            tape->dirty = 1;
+                        }
                         break;
                    case FUNC_MARK:
                    case FUNC_REW:
-- 
2.43.0


From 426eaf2d68ba1020ae9bc7c3af4c698c51e5ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 008/108] fix: tape: report failed or short reads, writes and
 seeks of the image

Seek failures and read errors were ignored (a read error looked like the end
of the tape), short reads and writes were taken as complete, a failed attach
left the drive ready and detaching an empty drive closed descriptor -1.
---
 src/device/tape.c | 215 +++++++++++++++++++++++++++-------------------
 1 file changed, 127 insertions(+), 88 deletions(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index d8547a7..bc22461 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -31,6 +31,7 @@
 #include <string.h>
 #include <stdint.h>
 #include <ctype.h>
+#include <errno.h>
 #ifdef HAVE_UNISTD_H
 #include <unistd.h>
 #endif
@@ -116,6 +117,70 @@ tape_is_selected(struct _tape_buffer *tape)
     return 0;
 }
 
+/*
+ * Write buffer to file, if it is dirty.
+ *
+ * Return file error if it could not be written, buffer is still dirty.
+ */
+static int
+tape_flush(struct _tape_buffer *tape)
+{
+     int     done = 0;
+     int     r;
+
+     if (tape->dirty == 0)
+         return TAPE_STATUS_OK;
+     if (lseek(tape->fd, tape->pos, SEEK_SET) != tape->pos) {
+         log_error("Tape seek failed %s\n", tape->file_name);
+         return TAPE_STATUS_FILE_ERROR;
+     }
+     while (done < tape->len_buff) {
+         r = write(tape->fd, &tape->buffer[done], tape->len_buff - done);
+         if (r < 0 && errno == EINTR)
+             continue;
+         if (r <= 0) {
+             log_error("Tape write failed %s %d\n", tape->file_name, r);
+             return TAPE_STATUS_FILE_ERROR;
+         }
+         done += r;
+     }
+     tape->dirty = 0;
+     return TAPE_STATUS_OK;
+}
+
+/*
+ * Fill buffer from file starting at current position.
+ *
+ * Return end of tape if nothing there, file error if it could not be read.
+ */
+static int
+tape_fill(struct _tape_buffer *tape)
+{
+     int     r;
+
+     tape->pos_buff = 0;
+     tape->len_buff = 0;
+     if (lseek(tape->fd, tape->pos, SEEK_SET) != tape->pos) {
+         log_error("Tape seek failed %s\n", tape->file_name);
+         return TAPE_STATUS_FILE_ERROR;
+     }
+     while (tape->len_buff < (int)sizeof(tape->buffer)) {
+         r = read(tape->fd, &tape->buffer[tape->len_buff],
+                       sizeof(tape->buffer) - tape->len_buff);
+         if (r < 0 && errno == EINTR)
+             continue;
+         if (r < 0) {
+             log_error("Tape read failed %s %d\n", tape->file_name, r);
+             tape->len_buff = 0;
+             return TAPE_STATUS_FILE_ERROR;
+         }
+         if (r == 0)
+             break;
+         tape->len_buff += r;
+     }
+     return (tape->len_buff == 0) ? TAPE_STATUS_EOT : TAPE_STATUS_OK;
+}
+
 /*
  * Attach a tape to buffer:
  *
@@ -145,10 +210,15 @@ tape_attach(struct _tape_buffer *tape, char *file_name, int type, int ring, int
       tape->srec = 0;
       tape->dirty = 0;
       tape->format |= ONLINE|TAPE_BOT|ATTACHED;
-      if ((tape->fd = open(file_name, flags, 0660)) < 0)
-          return 0;
-      tape->file_name = strdup(file_name);
-      return 1;
+      tape->file_name = NULL;
+      if ((tape->fd = open(file_name, flags, 0660)) >= 0) {
+          if ((tape->file_name = strdup(file_name)) != NULL)
+              return 1;
+          close(tape->fd);
+          tape->fd = -1;
+      }
+      tape->format &= ~(ONLINE|TAPE_BOT|ATTACHED);
+      return 0;
 }
 
 /*
@@ -160,17 +230,16 @@ tape_attach(struct _tape_buffer *tape, char *file_name, int type, int ring, int
 void
 tape_detach(struct _tape_buffer *tape)
 {
-    int  r;
+    if (tape->file_name == NULL)
+        return;
     /* If buffer is dirty flush it to the file */
-    if (tape->dirty) {
-        lseek(tape->fd, tape->pos, SEEK_SET);
-        r = write(tape->fd, tape->buffer, tape->len_buff);
-        if (r != tape->len_buff) {
-            log_error("Tape write failed %s %d\n", tape->file_name, r);
-        }
+    if (tape_flush(tape) != TAPE_STATUS_OK) {
+        log_error("Tape detach lost data %s\n", tape->file_name);
         tape->dirty = 0;
     }
-    close(tape->fd);
+    if (close(tape->fd) != 0) {
+        log_error("Tape close failed %s\n", tape->file_name);
+    }
     tape->fd = -1;
     tape->format &= ~(ONLINE|ATTACHED);
     free(tape->file_name);
@@ -187,33 +256,24 @@ tape_detach(struct _tape_buffer *tape)
 static int
 tape_read_byte(struct _tape_buffer *tape, uint8_t *data)
 {
+     int     r;
+
      if (tape->file_name == NULL)
         return TAPE_STATUS_FILE_ERROR;
      /* Check if at end of buffer */
      if (tape->pos_buff >= tape->len_buff || tape->len_buff == 0) {
          /* If buffer is dirty flush it to the file */
-         if (tape->dirty) {
-             int     r;
-             lseek(tape->fd, tape->pos, SEEK_SET);
-             r = write(tape->fd, tape->buffer, tape->len_buff);
-             if (r != tape->len_buff) {
-                 log_error("Tape write failed %s %d\n", tape->file_name, r);
-                 return TAPE_STATUS_FILE_ERROR;
-             }
-             tape->pos += tape->len_buff;
-             tape->len_buff = 0;
-             tape->dirty = 0;
-         }
+         if (tape_flush(tape) != TAPE_STATUS_OK)
+             return TAPE_STATUS_FILE_ERROR;
          /* Advance tape by size of buffer */
          tape->pos += tape->len_buff;
-         lseek(tape->fd, tape->pos, SEEK_SET);
-         tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
-         tape->pos_buff = 0;
-         if (tape->len_buff <= 0) {
+         r = tape_fill(tape);
+         if (r == TAPE_STATUS_EOT) {
              tape->format |= TAPE_EOT;
              log_tape("Tape EOT\n");
-             return TAPE_STATUS_EOT;
          }
+         if (r != TAPE_STATUS_OK)
+             return r;
          log_tape("Tape buffer fill: %d\n", tape->len_buff);
      }
      *data = tape->buffer[tape->pos_buff++];
@@ -231,33 +291,24 @@ tape_read_byte(struct _tape_buffer *tape, uint8_t *data)
 static int
 tape_peek_byte(struct _tape_buffer *tape, uint8_t *data)
 {
+     int     r;
+
      if (tape->file_name == NULL)
         return TAPE_STATUS_FILE_ERROR;
      /* Check if at end of buffer */
      /* Check if at end of buffer */
      if (tape->pos_buff >= tape->len_buff || tape->len_buff == 0) {
          /* If buffer is dirty flush it to the file */
-         if (tape->dirty) {
-             int     r;
-             lseek(tape->fd, tape->pos, SEEK_SET);
-             r = write(tape->fd, tape->buffer, tape->len_buff);
-             if (r != tape->len_buff) {
-                 log_error("Tape write failed %s %d\n", tape->file_name, r);
-                 return TAPE_STATUS_FILE_ERROR;
-             }
-             tape->pos += tape->len_buff;
-             tape->len_buff = 0;
-             tape->dirty = 0;
-         }
+         if (tape_flush(tape) != TAPE_STATUS_OK)
+             return TAPE_STATUS_FILE_ERROR;
          /* Advance tape by size of buffer */
          tape->pos += tape->len_buff;
-         lseek(tape->fd, tape->pos, SEEK_SET);
-         tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
-         tape->pos_buff = 0;
-         if (tape->len_buff <= 0) {
+         r = tape_fill(tape);
+         if (r == TAPE_STATUS_EOT) {
              log_tape("Tape EOT\n");
-             return TAPE_STATUS_EOT;
          }
+         if (r != TAPE_STATUS_OK)
+             return r;
          log_tape("Tape buffer fill: %d\n", tape->len_buff);
      }
      *data = tape->buffer[tape->pos_buff];
@@ -279,16 +330,8 @@ tape_write_byte(struct _tape_buffer *tape, uint8_t data)
      /* Check if at end of buffer */
      if (tape->pos_buff >= sizeof(tape->buffer)) {
          /* If buffer is dirty flush it to the file */
-         if (tape->dirty) {
-             int     r;
-             lseek(tape->fd, tape->pos, SEEK_SET);
-             r = write(tape->fd, tape->buffer, tape->len_buff);
-             if (r != tape->len_buff) {
-                 log_error("Tape write failed %s %d\n", tape->file_name, r);
-                 return TAPE_STATUS_FILE_ERROR;
-             }
-             tape->dirty = 0;
-         }
+         if (tape_flush(tape) != TAPE_STATUS_OK)
+             return TAPE_STATUS_FILE_ERROR;
          tape->pos += tape->len_buff;
          tape->len_buff = 0;
          tape->pos_buff = 0;
@@ -316,16 +359,8 @@ tape_readbk_byte(struct _tape_buffer *tape, uint8_t *data)
      /* Check if at end of buffer */
      if (tape->pos_buff == 0 || tape->len_buff == 0) {
          /* If buffer is dirty flush it to the file */
-         if (tape->dirty) {
-             int     r;
-             lseek(tape->fd, tape->pos, SEEK_SET);
-             r = write(tape->fd, tape->buffer, tape->len_buff);
-             if (r != tape->len_buff) {
-                 log_error("Tape write failed %s %d\n", tape->file_name, r);
-                 return TAPE_STATUS_FILE_ERROR;
-             }
-             tape->dirty = 0;
-         }
+         if (tape_flush(tape) != TAPE_STATUS_OK)
+             return TAPE_STATUS_FILE_ERROR;
          if (tape->format & TAPE_BOT) {
             return TAPE_STATUS_BOT;
          }
@@ -336,22 +371,22 @@ tape_readbk_byte(struct _tape_buffer *tape, uint8_t *data)
             tape->len_buff = 0;
             return TAPE_STATUS_BOT;
          } else {
-             int       opos = -1;
+             off_t     opos = tape->pos;
 
              /* Backup current buffer first position */
-             if (tape->pos < sizeof(tape->buffer)) {
-                 opos = tape->pos;
+             if (tape->pos < (off_t)sizeof(tape->buffer)) {
                  tape->pos = 0;
              } else {
                  tape->pos -= sizeof(tape->buffer);
              }
-             lseek(tape->fd, tape->pos, SEEK_SET);
-             tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
-             if (opos == -1) {
-                 tape->pos_buff = tape->len_buff;
-             } else {
-                 tape->pos_buff = opos;
+             /* If previous data not there, leave tape where it was */
+             if (tape_fill(tape) == TAPE_STATUS_FILE_ERROR ||
+                      tape->len_buff < opos - tape->pos) {
+                 tape->pos = opos;
+                 tape->len_buff = 0;
+                 return TAPE_STATUS_FILE_ERROR;
              }
+             tape->pos_buff = opos - tape->pos;
          }
          tape->format &= ~TAPE_EOT;
      }
@@ -381,11 +416,16 @@ tape_write_prev(struct _tape_buffer *tape, uint8_t data)
          }
          tape->dirty = 1;
      } else {
+         int   r;
+
          /* Point file at it and write one byte */
-         lseek(tape->fd, tape->srec, SEEK_SET);
-         if (write(tape->fd, &data, 1) != 1) {
+         if (lseek(tape->fd, tape->srec, SEEK_SET) != tape->srec)
+             return TAPE_STATUS_FILE_ERROR;
+         do {
+             r = write(tape->fd, &data, 1);
+         } while (r < 0 && errno == EINTR);
+         if (r != 1)
              return TAPE_STATUS_FILE_ERROR;
-         }
      }
      tape->srec++;
      return TAPE_STATUS_OK;
@@ -688,6 +728,8 @@ tape_read_back(struct _tape_buffer *tape)
                    if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->lrecl & 1) {
                         uint8_t    temp;
                         r = tape_readbk_byte(tape, &temp);
+                        if (r != TAPE_STATUS_OK)
+                            return r;
                    }
                    if (tape->lrecl == 0) {
                        tape->pos_frame -= IRG_LEN;
@@ -868,6 +910,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* If simH style tape, make sure even number of bytes per record */
                         if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->orecl & 1) {
                              r = tape_read_byte(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* Read in 4 byte trailing record length logical record length */
                         for (i = 0; i < 4; i++) {
@@ -885,7 +929,9 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* If simH style tape, make sure even number of bytes per record */
                         lrecl[0] = 0;
                         if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->lrecl & 1) {
-                            (void)tape_write_byte(tape, lrecl[0]);
+                            r = tape_write_byte(tape, lrecl[0]);
+                            if (r != TAPE_STATUS_OK)
+                                return r;
                         }
                         j = tape->srec - tape->pos;
                         if (j >= 0 && j < sizeof(tape->buffer)) {
@@ -1002,15 +1048,8 @@ int
 tape_start_rewind(struct _tape_buffer *tape)
 {
     /* If buffer is dirty flush it to the file */
-    if (tape->dirty) {
-        int     r;
-        lseek(tape->fd, tape->pos, SEEK_SET);
-        r = write(tape->fd, tape->buffer, tape->len_buff);
-        if (r != tape->len_buff) {
-            return TAPE_STATUS_FILE_ERROR;
-        }
-        tape->dirty = 0;
-    }
+    if (tape_flush(tape) != TAPE_STATUS_OK)
+        return TAPE_STATUS_FILE_ERROR;
     tape->pos = 0;
     tape->pos_buff = 0;
     tape->len_buff = 0;
-- 
2.43.0


From b571f239dcc6dd6a406dbd35387913c0065f25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 009/108] fix: card: keep deck and file consistent when memory,
 open, read or write fails

A failed realloc lost every card held, a failed open left file_name freed but
set (double free), a failed malloc left a closed FILE in use, and read or
write errors were taken as success.
---
 src/device/card.c | 131 +++++++++++++++++++++++++---------------------
 1 file changed, 71 insertions(+), 60 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 036d5cd..b8fd0c4 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -315,6 +315,32 @@ read_card(struct card_context *card_ctx, uint16_t (*image)[80])
 }
 
 
+/*
+ * Make sure there is room for one more card.
+ * Return 0 if out of memory, cards held are not changed.
+ */
+static int
+_grow_deck(struct card_context *card_ctx)
+{
+    uint16_t            (*images)[1][80];
+    int                  size = card_ctx->hopper_size + DECK_SIZE;
+
+    if (card_ctx->hopper_cards < card_ctx->hopper_size)
+        return 1;
+    images = (uint16_t (*)[1][80])realloc((void *)card_ctx->images,
+                       (size_t)size * sizeof(*(card_ctx->images)));
+    if (images == NULL) {
+        log_warn("Out of memory for card deck\n");
+        return 0;
+    }
+    card_ctx->images = images;
+    card_ctx->hopper_size = size;
+    memset((void *)&card_ctx->images[card_ctx->hopper_cards], 0,
+               (size_t)(card_ctx->hopper_size - card_ctx->hopper_cards) *
+                     sizeof(*(card_ctx->images)));
+    return 1;
+}
+
 struct _card_buffer {
    uint8_t               buffer[8192+500];    /* Buffer data */
    int                   len;                 /* Amount of data in buffer */
@@ -626,14 +652,14 @@ read_deck(struct card_context *card_ctx, char *file_name)
     int                   i;
     int                   l;
     int                   cards = 0;
+    int                   start;
     int                   r = 1;
 
     buf.len = 0;
     buf.size = 0;
     buf.buffer[0] = 0; /* Initialize bufer to empty */
 
-    free (card_ctx->file_name);
-	card_ctx->file_name = NULL;
+    (void)close_deck(card_ctx);
     card_ctx->file = fopen(file_name, "rb");
     if (card_ctx->file == NULL) {
        log_warn("Cant open %s\n", file_name);
@@ -643,6 +669,7 @@ read_deck(struct card_context *card_ctx, char *file_name)
 	if ((card_ctx->file_name = (char*)malloc(strlen(file_name)+1)) == NULL) {
         log_warn("Can't allocate memory for card deck\n");
 		fclose(card_ctx->file);
+		card_ctx->file = NULL;
 		return -1;
 	}
 
@@ -660,31 +687,24 @@ read_deck(struct card_context *card_ctx, char *file_name)
     }
 
     /* Slurp up requested file */
+    start = card_ctx->hopper_cards;
     do {
         int                   j;
 
         if (buf.len < 500 && !feof(card_ctx->file)) {
             l = fread(&buf.buffer[buf.len], 1, 8192, card_ctx->file);
-            if (l < 0)
+            if (ferror(card_ctx->file)) {
+                log_warn("Error reading %s\n", file_name);
                 r = -1;
-            else
-                buf.len += l;
+                break;
+            }
+            buf.len += l;
         }
 
         /* Allocate space for some more cards if needed */
-        if (card_ctx->hopper_cards >= card_ctx->hopper_size) {
-            card_ctx->hopper_size += DECK_SIZE;
-            card_ctx->images = (uint16_t (*)[1][80])realloc((void *)card_ctx->images,
-                       (size_t)card_ctx->hopper_size * sizeof(*(card_ctx->images)));
-			if (card_ctx->images == NULL) {
-				card_ctx->hopper_size = 0;
-				card_ctx->hopper_cards = 0;
-                log_warn("Out of memory reading deck\n");
-				return -1;
-			}
-            memset((void *)&card_ctx->images[card_ctx->hopper_cards], 0,
-                       (size_t)(card_ctx->hopper_size - card_ctx->hopper_cards) *
-                             sizeof(*(card_ctx->images)));
+        if (!_grow_deck(card_ctx)) {
+            r = -1;
+            break;
         }
 
         /* Process one card */
@@ -701,6 +721,8 @@ read_deck(struct card_context *card_ctx, char *file_name)
     } while (buf.len > 0 && r == 1);
 
     /* If there is an error, free just read deck */
+    if (r != 1)
+        card_ctx->hopper_cards = start;
     fclose (card_ctx->file);
     card_ctx->file = 0;
     return r;
@@ -723,14 +745,13 @@ empty_cards(struct card_context *card_ctx)
 
     /* Reduce size of stack to DECK_SIZE */
     if (card_ctx->hopper_size > DECK_SIZE) {
-        card_ctx->hopper_size = DECK_SIZE;
-        card_ctx->images = (uint16_t (*)[1][80])realloc((void *)card_ctx->images,
-                   (size_t)card_ctx->hopper_size * sizeof(*(card_ctx->images)));
-		if (card_ctx->images == NULL) {
-			card_ctx->hopper_size = 0;
-			card_ctx->hopper_cards = 0;
-			return;
-		}
+        uint16_t (*images)[1][80];
+        images = (uint16_t (*)[1][80])realloc((void *)card_ctx->images,
+                   (size_t)DECK_SIZE * sizeof(*(card_ctx->images)));
+        if (images != NULL) {
+            card_ctx->images = images;
+            card_ctx->hopper_size = DECK_SIZE;
+        }
         memset((void *)&card_ctx->images[0], 0,
                    (size_t)(card_ctx->hopper_size) * sizeof(*(card_ctx->images)));
     }
@@ -762,19 +783,8 @@ blank_deck(struct card_context *card_ctx, int cards)
     /* Append cards until done */
     while (cards > 0) {
         /* Allocate space for some more cards if needed */
-        if (card_ctx->hopper_cards >= card_ctx->hopper_size) {
-            card_ctx->hopper_size += DECK_SIZE;
-            card_ctx->images = (uint16_t (*)[1][80])realloc((void *)card_ctx->images,
-                       (size_t)card_ctx->hopper_size * sizeof(*(card_ctx->images)));
-			if (card_ctx->images == NULL) {
-				card_ctx->hopper_size = 0;
-				card_ctx->hopper_cards = 0;
-				return;
-			}
-            memset((void *)&card_ctx->images[card_ctx->hopper_cards], 0,
-                       (size_t)(card_ctx->hopper_size - card_ctx->hopper_cards) *
-                             sizeof(*(card_ctx->images)));
-        }
+        if (!_grow_deck(card_ctx))
+            return;
 
         /* Process one card */
         cards--;
@@ -791,19 +801,8 @@ stack_card(struct card_context *card_ctx, uint16_t (*image)[80])
 {
 
     /* Allocate space for some more cards if needed */
-    if (card_ctx->hopper_cards >= card_ctx->hopper_size) {
-        card_ctx->hopper_size += DECK_SIZE;
-        card_ctx->images = (uint16_t (*)[1][80])realloc((void *)card_ctx->images,
-                   (size_t)card_ctx->hopper_size * sizeof(*(card_ctx->images)));
-		if (card_ctx->images == NULL) {
-			card_ctx->hopper_size = 0;
-			card_ctx->hopper_cards = 0;
-			return -1;
-		}
-        memset((void *)&card_ctx->images[card_ctx->hopper_cards], 0,
-                   (size_t)(card_ctx->hopper_size - card_ctx->hopper_cards) *
-                         sizeof(*(card_ctx->images)));
-    }
+    if (!_grow_deck(card_ctx))
+        return -1;
 
     /* Process one card */
     memcpy(&(*card_ctx->images)[card_ctx->hopper_cards], image, 80 * sizeof(uint16_t));
@@ -822,10 +821,9 @@ stack_card(struct card_context *card_ctx, uint16_t (*image)[80])
 int
 save_deck(struct card_context *card_ctx, char *file_name)
 {
-    if (card_ctx->file) {
-        fclose(card_ctx->file);
-    }
-    free(card_ctx->file_name);
+    int      pos = card_ctx->hopper_pos;
+
+    (void)close_deck(card_ctx);
 
 	card_ctx->file = fopen(file_name, "wb");
 	if (card_ctx->file == NULL)
@@ -833,6 +831,7 @@ save_deck(struct card_context *card_ctx, char *file_name)
 
 	if ((card_ctx->file_name = (char*)malloc(strlen(file_name)+1)) == NULL) {
 		fclose(card_ctx->file);
+		card_ctx->file = NULL;
 		return -1;
 	}
 
@@ -841,7 +840,13 @@ save_deck(struct card_context *card_ctx, char *file_name)
     while (card_ctx->hopper_pos < card_ctx->hopper_cards) {
         _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_pos]);
     }
-    fflush(card_ctx->file);
+    /* If cards did not make it to file, they are still to be saved */
+    if (fflush(card_ctx->file) != 0 || ferror(card_ctx->file)) {
+        log_warn("Error writing %s\n", file_name);
+        card_ctx->hopper_pos = pos;
+        (void)close_deck(card_ctx);
+        return -1;
+    }
 	return 0;
 }
 
@@ -851,15 +856,21 @@ save_deck(struct card_context *card_ctx, char *file_name)
 int
 close_deck(struct card_context *card_ctx)
 {
+    int     r = 0;
+
     if (card_ctx->file) {
-        fflush(card_ctx->file);
-        fclose(card_ctx->file);
+        if (fflush(card_ctx->file) != 0 || ferror(card_ctx->file))
+            r = -1;
+        if (fclose(card_ctx->file) != 0)
+            r = -1;
+        if (r != 0)
+            log_warn("Error writing %s\n", card_ctx->file_name);
         card_ctx->file = NULL;
     }
     free(card_ctx->file_name);
     card_ctx->file_name = NULL;
 
-	return 0;
+	return r;
 }
 
 /*
-- 
2.43.0


From 2ce6d2b18849c23733b08f2488a0c6c70b03a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 010/108] fix: card: reading decks with short or unusual
 records

A short last binary card looped for ever, an empty file gave a card, a lone ~
or a short ~raw line swallowed the next card, characters above 127 indexed
before the translation table.
---
 src/device/card.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index b8fd0c4..3bc118c 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -261,6 +261,8 @@ hol_to_ascii(uint16_t hol)
 uint16_t
 ascii_to_hol(uint8_t ascii)
 {
+    if (ascii > 127)
+        return 0xf000;
     return ascii_to_hol_ebcdic[ascii];
 }
 
@@ -368,7 +370,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
     unsigned int          mode;
     uint16_t             temp;
     int                   i;
-    char                  c;
+    uint8_t               c;
     int                   col;
 
     memset(image, 0, 80 * sizeof(uint16_t));
@@ -406,6 +408,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 case '\0':
                 case '\r':
                     col = 80;
+                    i--;                /* Leave end of line for below */
                 case ' ':
                     break;              /* Ignore these */
                 case '\t':
@@ -427,8 +430,6 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 if (buf->buffer[i] >= '0' && buf->buffer[i] <= '7') {
                     (*image)[col] = ((*image)[col] << 3) | (buf->buffer[i] - '0');
                     j++;
-                } else if (buf->buffer[i] == '\n' || buf->buffer[i] == '\r') {
-                   (*image)[0] |= 0xfff;
                 } else {
                     break;
                 }
@@ -466,7 +467,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                     break;
                 default:
                     log_card_c("%c", c);
-                    temp = ascii_to_hol_029[(int)c];
+                    temp = (c > 127) ? 0xf000 : ascii_to_hol_029[(int)c];
                     if (temp & 0xf000)
                         temp = 0xfff;
                     (*image)[col++] = temp & 0xfff;
@@ -477,12 +478,12 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         log_card_c("-%d-", i);
 
         /* Scan to end of line, ignore anything after last column */
-        while (buf->buffer[i] != '\n' && buf->buffer[i] != '\r' && i < buf->len) {
+        while (i < buf->len && buf->buffer[i] != '\n' && buf->buffer[i] != '\r') {
             i++;
         }
-        if (buf->buffer[i] == '\r')
+        if (i < buf->len && buf->buffer[i] == '\r')
             i++;
-        if (buf->buffer[i] == '\n')
+        if (i < buf->len && buf->buffer[i] == '\n')
             i++;
         log_card("]\n");
         break;
@@ -492,7 +493,8 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         log_card( "bin\n");
         if (buf->len < 160) {
             (*image)[0] = 0xfff;
-            return;
+            i = buf->len;
+            break;
         }
         /* Move data to buffer */
         for (col = i = 0; i < 160;) {
@@ -701,6 +703,10 @@ read_deck(struct card_context *card_ctx, char *file_name)
             buf.len += l;
         }
 
+        /* Nothing left in file */
+        if (buf.len == 0)
+            break;
+
         /* Allocate space for some more cards if needed */
         if (!_grow_deck(card_ctx)) {
             r = -1;
-- 
2.43.0


From 8e24a3baf8c3dc409627cc5767b26b2576c42cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 011/108] fix: card: punched cards that could not be read back

A card with one unusual punch in column 1 only was written as ~eoraw, an
automatic mode card starting with ~ as a text line that reads as a special
card, and emptying a deck with a file open punched from past its end.
---
 src/device/card.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 3bc118c..47b38d4 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -556,6 +556,9 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
                 ok = 0;
              }
          }
+         /* A ~ in first column would be read as a special card */
+         if (out[0] == '~')
+             ok = 0;
          mode = ok?MODE_TEXT:MODE_OCTAL;
     }
 
@@ -587,21 +590,25 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
         }
         /* Check if special card */
         if (i == 0) {
-            out[outp++] = 'e';
-            out[outp++] = 'o';
             if ((*image)[0] == 07) {
+               out[outp++] = 'e';
+               out[outp++] = 'o';
                out[outp++] = 'r';
                out[outp++] = '\n';
                log_card( "eor\n");
                break;
             }
             if ((*image)[0] == 015) {
+               out[outp++] = 'e';
+               out[outp++] = 'o';
                out[outp++] = 'f';
                out[outp++] = '\n';
                log_card( "eof\n");
                break;
             }
             if ((*image)[0] == 017) {
+               out[outp++] = 'e';
+               out[outp++] = 'o';
                out[outp++] = 'i';
                out[outp++] = '\n';
                log_card( "eoi\n");
@@ -619,6 +626,7 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
             out[outp++] = (col & 07) + '0';
         }
         out[outp++] = '\n';
+        out[outp] = '\0';
         log_card( "%s", &out[4]);
         break;
 
@@ -744,7 +752,7 @@ empty_cards(struct card_context *card_ctx)
     /* Flush any cards in hopper out to file */
     if (card_ctx->file != NULL) {
         while (card_ctx->hopper_pos < card_ctx->hopper_cards) {
-            _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_cards]);
+            _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_pos]);
         }
         fflush(card_ctx->file);
     }
-- 
2.43.0


From 1eaa9f9add02925dc459bd3312ac1fd659fa66af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 012/108] fix: card: a deck of short text cards is not a binary
 card

A file of at least 80 blank or one character cards was taken for binary cards
in automatic mode.
---
 src/device/card.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 47b38d4..74e8a95 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -382,8 +382,16 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         for (i = 0, temp = 0; i < 160 && i <buf->len; i+=2)
             temp |= (uint16_t)(buf->buffer[i] & 0xFF);
         /* Check if every other char < 16 & full buffer */
-        if ((temp & 0x0f) == 0 && i == 160)
-            mode = MODE_BIN;        /* Probably binary */
+        if ((temp & 0x0f) == 0 && buf->len >= 160) {
+            /* Lines of text could look like this, check for non text */
+            for (i = 0; i < 160; i++) {
+                c = buf->buffer[i];
+                if (c != '\n' && c != '\r' && c != '\t' && (c < ' ' || c > '~')) {
+                    mode = MODE_BIN;        /* Probably binary */
+                    break;
+                }
+            }
+        }
 
         /* Check if modes match */
         if (card_ctx->mode != MODE_AUTO && card_ctx->mode != mode) {
-- 
2.43.0


From ab148b341ad9fcc78b489d1246ab3023383c44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 013/108] fix: 1442: save of stacker 2 saved stacker 1

---
 src/model1442/panel1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index 271c812..e140223 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -286,7 +286,7 @@ static void model1442_update(void *arg, int iarg)
           break;
 
     case 10: /* Save Stacker 2 */
-          r = save_deck(ctx->stack[0], get_textbuffer(ctx->input[2]));
+          r = save_deck(ctx->stack[1], get_textbuffer(ctx->input[2]));
           break;
     }
     ctx->hop_cnt = hopper_size(ctx->feed);
-- 
2.43.0


From c57d106c6d5c62499c8d9f9f6587a451fd4cc357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 014/108] fix: dasd: a cylinder that could not be saved or
 loaded is not mixed with another

---
 src/device/dasd.c | 92 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 25 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index d75a1d0..144447e 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -104,6 +104,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <fcntl.h>
+#include <errno.h>
 #ifdef HAVE_UNISTD_H
 #include <sys/types.h>
 #include <unistd.h>
@@ -254,37 +255,70 @@ static uint8_t gap3[] = {
  *  Bit 7            Seek in progress.
  */
 
+/*
+ * Transfer the cylinder buffer to or from its place in the image.
+ * Return 0 if the whole cylinder could be transferred.
+ */
+static int
+dasd_cyl_io(struct _dasd_t *dasd, int wr)
+{
+    size_t              len = (size_t)dasd->tsize * disk_type[dasd->type].heads;
+    size_t              n = 0;
+    ssize_t             r;
+
+    if (lseek(dasd->fd, dasd->fpos, SEEK_SET) < 0) {
+        log_error("Disk seek on %s\n", dasd->file_name);
+        return -1;
+    }
+    while (n < len) {
+        if (wr)
+            r = write(dasd->fd, dasd->cbuf + n, len - n);
+        else
+            r = read(dasd->fd, dasd->cbuf + n, len - n);
+        if (r < 0 && errno == EINTR)
+            continue;
+        if (r <= 0) {
+            log_error("Disk %s on %s %d\n", wr ? "write" : "read", dasd->file_name, (int)n);
+            return -1;
+        }
+        n += r;
+    }
+    return 0;
+}
+
 static void
 seek_callback(struct _device *unit, void *arg, int iarg)
 {
     struct _dasd_t *dasd = (struct _dasd_t *)unit;
-    int                 type = dasd->type;
     log_disk("Seek done %d head %x\n", dasd->ncyl, dasd->head);
     dasd->attn = 1;
     dasd->diff = 0;
     dasd->flags &= ~1;
+    if (dasd->cbuf == NULL)
+        return;
     dasd->status |= READY;
 
     log_disk("Disk Seek %s %d\n", dasd->file_name, dasd->ncyl);
     /* Check if read or write command, if so grab correct cylinder */
-    if (dasd->cyl != dasd->ncyl) {
-        uint32_t tsize = dasd->tsize * disk_type[type].heads;
-        size_t   pos = (tsize * dasd->ncyl) + sizeof(struct dasd_header);
-        int r;
+    if (dasd->cyl != dasd->ncyl || (dasd->status & FAULT) != 0) {
+        /* Stay not ready on this cylinder if it could not be saved */
         if (dasd->dirty) {
-            (void)lseek(dasd->fd, dasd->fpos, SEEK_SET);
-            r = write(dasd->fd, dasd->cbuf, tsize);
-            if (r != tsize) {
-                log_error("Disk write on %s %d\n", dasd->file_name, r);
+            if (dasd_cyl_io(dasd, 1)) {
+                dasd->status |= FAULT;
+                dasd->status &= ~READY;
+                return;
             }
             dasd->dirty = 0;
         }
-        dasd->fpos = pos;
+        dasd->fpos = (dasd->tsize * disk_type[dasd->type].heads * dasd->ncyl) +
+                             sizeof(struct dasd_header);
         log_disk("Load cyl=%d %x\n", dasd->ncyl, dasd->fpos);
-        (void)lseek(dasd->fd, dasd->fpos, SEEK_SET);
-        r = read(dasd->fd, dasd->cbuf, tsize);
-        if (r != tsize) {
-            log_error("Disk read on %s %d\n", dasd->file_name, r);
+        /* Not ready if there is no valid data to read or change */
+        dasd->status &= ~FAULT;
+        if (dasd_cyl_io(dasd, 0)) {
+            memset(dasd->cbuf, 0xff, (size_t)dasd->tsize * disk_type[dasd->type].heads);
+            dasd->status |= FAULT;
+            dasd->status &= ~READY;
         }
         dasd->cyl = dasd->ncyl;
     }
@@ -490,6 +524,9 @@ dasd_update(struct _dasd_t *dasd)
 
     dasd->tstart = (dasd->tsize * dasd->head);
 #endif
+    /* Position not known until there is a valid cylinder */
+    if (dasd->cbuf == NULL || (dasd->status & FAULT) != 0)
+        return;
     count = tpos = rpos = 0;
 log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
     for (pos = 0; pos < dasd->cpos; pos ++) {
@@ -781,6 +818,12 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
     uint8_t             *da;
     int                 i;
 
+    *am = 0;
+    /* Only keep turning if there is no valid cylinder */
+    if (dasd->cbuf == NULL || (dasd->status & FAULT) != 0) {
+        dasd_step(dasd, ix);
+        return 0;
+    }
     if (dasd->step < disk_type[type].rate) {
         dasd->step++;
         return 0;
@@ -1218,6 +1261,11 @@ dasd_write_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
 //    size_t               pos;
     int                  i;
 
+    /* Only keep turning if there is no valid cylinder */
+    if (dasd->cbuf == NULL || (dasd->status & FAULT) != 0) {
+        dasd_step(dasd, ix);
+        return 0;
+    }
     if (dasd->step < disk_type[type].rate) {
         dasd->step++;
         return 0;
@@ -1962,7 +2010,6 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     uint32_t            tsize;
     off_t               isize;
     size_t              dsize;
-    int                 r;
     uint8_t             *rec;
     int                 pos;
 
@@ -2037,12 +2084,11 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
         return -1;
     }
     /* Read in first cylinder */
-    (void)lseek(dasd->fd, sizeof(struct dasd_header), SEEK_SET);
-    r = read(dasd->fd, dasd->cbuf, tsize);
-    if (r != tsize) {
-        log_error("Disk read on %s %d\n", dasd->file_name, r);
-    }
     dasd->fpos = sizeof(struct dasd_header);
+    if (dasd_cyl_io(dasd, 0)) {
+        dasd_detach(dasd);
+        return -1;
+    }
     dasd->status = ONLINE|READY;
     dasd->cyl = 0;
     dasd->tstart = 0;
@@ -2074,12 +2120,8 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
 void
 dasd_detach(struct _dasd_t *dasd)
 {
-    int                 type = dasd->type;
-    uint32_t            tsize = dasd->tsize * disk_type[type].heads;
-
     if (dasd->dirty) {
-          (void)lseek(dasd->fd, dasd->fpos, SEEK_SET);
-          (void)write(dasd->fd, dasd->cbuf, tsize);
+          (void)dasd_cyl_io(dasd, 1);
           dasd->dirty = 0;
     }
     if (dasd->fd >= 0) {
-- 
2.43.0


From e3bca165ea0cb075e80013bd550e53159a250f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 015/108] fix: dasd: writing, not reading, marks the cylinder
 as changed

---
 src/device/dasd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 144447e..ace9aea 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -874,7 +874,6 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
 
     dasd->cpos++;
     dasd->count++;
-    dasd->dirty = 1;
 
     switch(dasd->state) {
     case DK_POS_INDEX:             /* At Index Mark */
@@ -1312,6 +1311,7 @@ dasd_write_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
 
     dasd->count++;
     dasd->cpos++;
+    dasd->dirty = 1;
     switch(dasd->state) {
     case DK_POS_INDEX:             /* At Index Mark */
          if (*data == 0) {
-- 
2.43.0


From 14e9c44fea8c5a79b6ced6e86c7d4eb27fc10e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 016/108] fix: dasd: attach does not format over a volume it
 could not read or does not know

---
 src/device/dasd.c | 73 ++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index ace9aea..d662419 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1975,8 +1975,8 @@ dasd_format(struct _dasd_t * dasd, int flag) {
                 dasd->cbuf[pos++] = 0;              /* dlen */
                 dasd->cbuf[pos++] = 80;             /*  */
                 for (p = 0; p < sizeof (volrec); p++) {
-                    if (p >= 8 && p <= 16 && dasd->vol_label[p - 8] != 0) {
-                        dasd->cbuf[pos++] = ascii_to_ebcdic[(int)dasd->vol_label[p - 8]];
+                    if (p >= 8 && p < 14 && dasd->vol_label[p - 8] != 0) {
+                        dasd->cbuf[pos++] = ascii_to_ebcdic[(uint8_t)dasd->vol_label[p - 8] & 0x7f];
                     } else {
                         dasd->cbuf[pos++] = volrec[p];
                     }
@@ -2016,37 +2016,41 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     /* Attempt to open disk */
     log_info("Attach %s %s\n", file_name, disk_type[dasd->type].name);
     if ((dasd->fd = open(file_name, O_RDWR, 0660)) < 0) {
-        if (init) {
-           /* If initialize valid, try and create it */
-           if ((dasd->fd = open(file_name, O_RDWR|O_CREAT, 0660)) < 0) {
-               log_info("No file %s\n", file_name);
-               return 0;
-           }
+        /* If initialize valid, try and create it */
+        if (!init || errno != ENOENT ||
+                (dasd->fd = open(file_name, O_RDWR|O_CREAT, 0660)) < 0) {
+            log_info("No file %s\n", file_name);
+            dasd->fd = -1;
+            return 0;
         }
     }
 
     /* Save file name for later */
-    dasd->file_name = strdup(file_name);
+    if ((dasd->file_name = strdup(file_name)) == NULL) {
+        close(dasd->fd);
+        dasd->fd = -1;
+        return -1;
+    }
 
-    /* Read in header if possible */
+    /* Format the drive if requested or there is nothing on it yet */
     log_trace("File %s %d\n", file_name, dasd->type);
-    if (read(dasd->fd, &hdr, sizeof(struct dasd_header)) !=
-          sizeof(struct dasd_header) || strncmp(&hdr.devid[0], "CKD_P370", 8) != 0 || init) {
-        /* Not there or valid magic number, try and format it if allowed */
+    isize = lseek(dasd->fd, 0, SEEK_END);
+    if (init || isize == 0) {
         if (dasd_format(dasd, init)) {
             log_info("Format fail %s\n", file_name);
             dasd_detach(dasd);
             return -1;
         }
-        /* Read back in header after formating new drive */
-        (void)lseek(dasd->fd, 0, SEEK_SET);
-        if (read(dasd->fd, &hdr, sizeof(struct dasd_header)) !=
-                 sizeof(struct dasd_header) ||
-                strncmp(&hdr.devid[0], "CKD_P370", 8) != 0) {
-            log_info("Format fail %s\n", file_name);
-            dasd_detach(dasd);
-            return -1;
-        }
+    }
+
+    /* Read in header, without a valid magic number it is not a disk */
+    (void)lseek(dasd->fd, 0, SEEK_SET);
+    if (read(dasd->fd, &hdr, sizeof(struct dasd_header)) !=
+             sizeof(struct dasd_header) ||
+            strncmp(&hdr.devid[0], "CKD_P370", 8) != 0) {
+        log_info("Not a disk %s\n", file_name);
+        dasd_detach(dasd);
+        return -1;
     }
 
     /* Read in header and try and find disk type */
@@ -2069,8 +2073,10 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
          }
     }
 
-    /* Check if valid name */
-    if (disk_type[dasd->type].name == 0) {
+    /* Check if valid name, and volume of that type */
+    if (disk_type[dasd->type].name == 0 ||
+             hdr.heads != disk_type[dasd->type].heads ||
+             hdr.tracksize != (disk_type[dasd->type].bpt | 0x1ff) + 1) {
          log_info("Invalid name %s\n", file_name);
          dasd_detach(dasd);
          return -1;
@@ -2095,12 +2101,13 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     /* Load in volume ID, from record 3 */
     pos = 5;
     rec = &dasd->cbuf[pos];
-    pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);  /* Skip record 0 */
-    rec = &dasd->cbuf[pos];
-    pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);  /* Skip record 1 */
-    rec = &dasd->cbuf[pos];
-    pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);  /* Skip record 2 */
-    rec = &dasd->cbuf[pos];                        /* Now points to record 3 */
+    for (i = 0; i < 3; i++) {
+        pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);  /* Skip records 0 to 2 */
+        if (pos + 8 + 4 + 80 > dasd->tsize)
+            return 1;
+        rec = &dasd->cbuf[pos];
+    }
+    /* Now points to record 3 */
     /* Check if correct length */
     if (rec[5] != 4 || rec[6] != 0 || rec[7] != 80)
         return 1;
@@ -2120,6 +2127,12 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
 void
 dasd_detach(struct _dasd_t *dasd)
 {
+    /* Stop any seek still going */
+    cancel_event((struct _device *)dasd, &seek_callback);
+    dasd->flags &= ~1;
+    /* Nothing to do if there is no file */
+    if (dasd->file_name == NULL)
+        dasd->fd = -1;
     if (dasd->dirty) {
           (void)dasd_cyl_io(dasd, 1);
           dasd->dirty = 0;
-- 
2.43.0


From e8ef5ae3da85bccf2513afc7378e18d50e33686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 017/108] fix: dasd: finding the position in a track read
 beyond the record

---
 src/device/dasd.c         | 6 +++---
 src/model2844/model2844.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index d662419..721e648 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -720,7 +720,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
 
          case DK_POS_KEY:               /* In Key area */
               if (count < dasd->klen) {
-                  dasd->ck_sum[count & 1] ^= da[count];
+                  dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
               if (count == (dasd->klen+2)) {
@@ -732,7 +732,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                       dasd->ck_sum[0] ^= disk_type[type].sync;
                   }
               }
-              log_disk("Key %d %d %02x\n", count, dasd->klen, da[count]);
+              log_disk("Key %d %d\n", count, dasd->klen);
               break;
 
          case DK_POS_GAP3:                /* Beginning of record */
@@ -746,7 +746,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
 
          case DK_POS_DATA:              /* In Data area */
               if (count < dasd->dlen) {
-                  dasd->ck_sum[count & 1] ^= da[count];
+                  dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
               if (count == (dasd->dlen + 2)) {
diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 3d402ec..68b5c74 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -130,7 +130,7 @@ step_2844(void *data)
         if (ctx->disk[i] == NULL)
             continue;
         if ((ctx->UR_REG & 0xf) == i && (ctx->FT & 0x81) == 0x81 && (ctx->FC & 0x04) != 0) {
-            uint8_t   data, am;
+            uint8_t   data, am = 0;
             ix = 0;
             if ((ctx->FC & 0x40) != 0) {
                 if (dasd_read_byte(ctx->disk[i], &data, &am, &ix)) {
-- 
2.43.0


From d44151a33cabc6cb45994807f673b26efc85cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 018/108] fix: dasd: selecting a drive within the check bytes
 of a record read it twice

---
 src/device/dasd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 721e648..f811b49 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -749,8 +749,11 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                   dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
-              if (count == (dasd->dlen + 2)) {
+              /* Next record starts here, also when found in check bytes */
+              if (count == (dasd->dlen + 1)) {
                   rpos = tpos;
+              }
+              if (count == (dasd->dlen + 2)) {
                   state = DK_POS_AM;
                   count = -1;
                   dasd->ck_sum[0] = 0xff;
-- 
2.43.0


From a6898fffd7e10e875c6cd50c49a3752c0de0f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 019/108] fix: dasd: attach selected head 0 of cylinder 0 only
 until the next index

---
 src/device/dasd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index f811b49..7bca435 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -2100,6 +2100,7 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     }
     dasd->status = ONLINE|READY;
     dasd->cyl = 0;
+    dasd->head = 0;
     dasd->tstart = 0;
     /* Load in volume ID, from record 3 */
     pos = 5;
-- 
2.43.0


From cac70693320f85c0757dd254b518de6c9aa477b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 020/108] fix: device line parsing freed a caller's variable
 and kept stale model numbers

---
 src/conf.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 9449ad3..7ece0bd 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -104,6 +104,12 @@ get_model(struct _option *opt)
     char            temp1[20];
     char            temp2[20];
     int             flags = 0;
+
+    opt->opt[0] = '\0';
+    opt->flags = 0;
+    opt->model = '\0';
+    opt->dash_num = 0;
+    opt->slash_num = 0;
     /* Skip leading space */
     while(isspace(*line_ptr))
         line_ptr++;
@@ -113,7 +119,7 @@ get_model(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
+    while (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/') {
         /* Start of -#, save in temp1 */
         if (*line_ptr == '-' && (flags & 1) == 0) {
            flags |= 1;
@@ -127,13 +133,12 @@ get_model(struct _option *opt)
            p = &temp2[0];
            len = 0;
         /* Otherwise save it away */
-        } else if (isalnum(*line_ptr)) {
+        } else if (isalnum(*line_ptr) && len < 19) {
            *p = toupper(*line_ptr);
             p++;
             len++;
         } else {
             fprintf(stderr, "Invalid character in option\n");
-            free(opt);
             return 0;
         }
         line_ptr++;
@@ -154,7 +159,7 @@ get_model(struct _option *opt)
     /* Next check if there was a dash option followed by number */
     if (flags & 1) {
         int     i = 0;
-        for (p = &temp1[0]; isdigit(*p); p++) {
+        for (p = &temp1[0]; isdigit(*p) && i < 100000000; p++) {
             i = (i * 10) + (*p - '0');
         }
         opt->dash_num = i;
@@ -163,7 +168,7 @@ get_model(struct _option *opt)
     /* Next check if there was a slash option followed by number */
     if (flags & 2) {
         int     i = 0;
-        for (p = &temp2[0]; isdigit(*p); p++) {
+        for (p = &temp2[0]; isdigit(*p) && i < 100000000; p++) {
             i = (i * 10) + (*p - '0');
         }
         opt->slash_num = i;
-- 
2.43.0


From 9781326d952349f6427bad60f59de527f790ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 021/108] fix: device address could overflow its buffer or name
 a missing channel

---
 src/conf.c | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 7ece0bd..261afaf 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -181,36 +181,29 @@ int
 get_addr(struct _option *opt)
 {
     char           *p;
-    int             len;
     int             i;
-    char            temp1[20];
     /* Skip leading space */
     while(isspace(*line_ptr))
         line_ptr++;
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
         return 0;
-    p = &temp1[0];
-    len = 0;
-    while (len < 20 && isxdigit(*line_ptr)) {
-       *p = toupper(*line_ptr);
-       p++;
-       line_ptr++;
-    }
-    *p = '\0';
-    if (temp1[0] == '\0')
-        return 0;
     i = 0;
-    p = &temp1[0];
-    while (*p != '\0') {
+    for (p = line_ptr; isxdigit(*line_ptr); line_ptr++) {
         i <<= 4;
-        if (isalpha(*p)) {
-            i += (*p - 'A' + 10);
+        if (isdigit(*line_ptr)) {
+            i += (*line_ptr - '0');
         } else {
-            i += (*p - '0');
+            i += (toupper(*line_ptr) - 'A' + 10);
+        }
+        /* There are only channels 0 to 5 */
+        if (i > 0x5ff) {
+            fprintf(stderr, "Address not valid on %s\n", opt->opt);
+            return 0;
         }
-        p++;
     }
+    if (p == line_ptr)
+        return 0;
     opt->addr = i;
     return 1;
 }
-- 
2.43.0


From e2d6643ae344092ceffbfdbf4797d068c317e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 022/108] fix: quoted configuration strings lost quotes and ran
 past end of line

---
 src/conf.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 261afaf..ad761ee 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -219,6 +219,7 @@ get_string(struct _option *opt)
     while(isspace(*line_ptr))
         line_ptr++;
     p = &opt->string[0];
+    *p = '\0';
     len = 0;
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
@@ -228,28 +229,36 @@ get_string(struct _option *opt)
         quote = 1;
         line_ptr++;
     }
-    while (len < 1024) {
-       if (*line_ptr == '"' && quote) {
+    while (*line_ptr != '\0' && *line_ptr != '\n') {
+       if (quote == 0 && isspace(*line_ptr))
+           break;
+       if (quote && *line_ptr == '"') {
            line_ptr++;
-           if (*line_ptr == '"') {
-               *p = '"';
-               line_ptr++;
-               len++;
-           } else if (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0') {
+           if (*line_ptr == ',' || isspace(*line_ptr) || *line_ptr == '\0') {
                *p = '\0';
                return 1;
            }
-       } else {
-           if (quote == 0 && (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0')) {
-               *p = '\0';
-               return 1;
+           if (*line_ptr != '"') {
+               fprintf(stderr, "Invalid character after quoted string\n");
+               opt->string[0] = '\0';
+               return 0;
            }
-           *p = *line_ptr++;
-           if (quote == 0 && isalpha(*p))
-               *p = toupper(*p);
-           p++;
-           len++;
        }
+       if (len >= (int)sizeof(opt->string) - 1) {
+           fprintf(stderr, "String too long\n");
+           opt->string[0] = '\0';
+           return 0;
+       }
+       *p = *line_ptr++;
+       if (quote == 0 && isalpha(*p))
+           *p = toupper(*p);
+       p++;
+       len++;
+    }
+    if (quote) {
+        fprintf(stderr, "Missing closing quote\n");
+        opt->string[0] = '\0';
+        return 0;
     }
     *p = '\0';
     return 1;
-- 
2.43.0


From 793945a1cac2ba1aa27bb7508b05ef6a2a232bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 023/108] fix: configuration options separated by comma never
 ended, empty values were dropped

---
 src/conf.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index ad761ee..dfb4a5a 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -273,8 +273,8 @@ get_option(struct _option *opt)
     opt->opt[0] = '\0';
     opt->string[0] = '\0';
     opt->flags = 0;
-    /* Skip leading space */
-    while(isspace(*line_ptr))
+    /* Skip leading space, and comma between options */
+    while(isspace(*line_ptr) || *line_ptr == ',')
         line_ptr++;
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
@@ -282,21 +282,25 @@ get_option(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-')) {
-       *p = toupper(*line_ptr);
-       p++;
-       len++;
+    while (isalnum(*line_ptr) || *line_ptr == '-') {
+       if (len < 19) {
+           *p = toupper(*line_ptr);
+           p++;
+           len++;
+       }
        line_ptr++;
     }
+    /* Anything else is not the start of an option, return it as is. */
+    if (len == 0 && *line_ptr != '=') {
+       *p = *line_ptr++;
+       p++;
+    }
     *p = '\0';
     /* Check if we have equals sign */
     if (*line_ptr == '=') {
         line_ptr++;
-        if (get_string(opt)) {
+        if (get_string(opt))
             opt->flags = 1;
-        } else {
-            return 0;
-        }
     }
     return 1;
 }
-- 
2.43.0


From 86ea704a30691c5f93f36be55ea852fec4829b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 024/108] fix: read errors and overlong lines in configuration
 were taken as complete

---
 src/conf.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/conf.c b/src/conf.c
index dfb4a5a..f497591 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -375,6 +375,14 @@ load_config(char *name)
     }
 
     while (fgets(line_buffer, sizeof(line_buffer), config) != NULL) {
+       size_t  len = strlen(line_buffer);
+
+       if (len == sizeof(line_buffer) - 1 && line_buffer[len-1] != '\n' &&
+           getc(config) != EOF) {
+           fprintf(stderr, "Line too long in configuration file: %s\n", name);
+           fclose(config);
+           return 0;
+       }
        line_ptr = line_buffer;
 /*       fprintf(stderr, "line=%s", line_buffer); */
        fnd = 0;
@@ -419,6 +427,11 @@ load_config(char *name)
            }
        }
     }
+    if (ferror(config)) {
+        fprintf(stderr, "Error reading configuration file: %s\n", name);
+        fclose(config);
+        return 0;
+    }
     fclose(config);
     return 1;
 }
-- 
2.43.0


From 7f9284ed64abe3573aeb22fffd257f9e55f3dbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 025/108] fix: configuration numbers overflowed and missing
 list value was taken as the first

---
 src/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index f497591..bc77bb7 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -317,7 +317,7 @@ get_integer(struct _option *opt, int *value)
     }
 
     for (p = &opt->string[0]; *p != 0; p++) {
-        if (isdigit(*p)) {
+        if (isdigit(*p) && *value < 100000000) {
             *value = (*value * 10) + (*p - '0');
         } else {
             fprintf(stderr, "Option %s requires a number (%s)\n", opt->opt, opt->string);
@@ -334,7 +334,7 @@ get_index(struct _option *opt, char *list[])
 
     if (opt->string[0] == '\0') {
        fprintf(stderr, "Option %s requires a value\n", opt->opt);
-       return 0;
+       return -1;
     }
 
     for (i = 0; list[i] != NULL; i++) {
-- 
2.43.0


From b00ba0fd97b49ea880bbcf12ce034046088dfe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 026/108] fix: 2415 units outside the controller or on another
 device corrupted memory

---
 src/model2415/model2415.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5f2ff55..8410eab 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1348,13 +1348,25 @@ model2415_create(struct _option *opt)
      /* Check if dealing with unit */
      if (opt->model == 'U') {
          dev2415 = find_chan(opt->addr, 0xf8);
-         if (dev2415 == NULL) {
+         if (dev2415 == NULL || dev2415->bus_func != &model2415_dev) {
              fprintf(stderr, "Device not found %s %03x\n", opt->opt, opt->addr);
              return 0;
          }
          i = opt->addr & 0x7;
          tape = (struct _2415_context *)dev2415->dev;
+         if (i >= tape->nunits) {
+             fprintf(stderr, "No such unit %s %03x\n", opt->opt, opt->addr);
+             return 0;
+         }
+         if (tape->tape[i] != NULL) {
+             fprintf(stderr, "Duplicate device %s %03x\n", opt->opt, opt->addr);
+             return 0;
+         }
          tape->tape[i] = (struct _tape_buffer *)calloc(1, sizeof(struct _tape_buffer));
+         if (tape->tape[i] == NULL) {
+             fprintf(stderr, "Unable to create device %s %03x\n", opt->opt, opt->addr);
+             return 0;
+         }
          tape->tape[i]->format = TRACK9;
          tape->supply_color[i] = 2;
          tape->supply_label[i] = 1;
@@ -1368,21 +1380,29 @@ model2415_create(struct _option *opt)
          fmt = TYPE_TAP;
          while (get_option(&opts)) {
                if (strcmp(opts.opt, "FILE") == 0 && opts.flags == 1) {
-                   file = strdup(opts.string);
+                   free(file);
+                   if ((file = strdup(opts.string)) == NULL) {
+                       fprintf(stderr, "Unable to create device %s %03x\n", opt->opt, opt->addr);
+                       free(tape->tape[i]);
+                       tape->tape[i] = NULL;
+                       return 0;
+                   }
                } else if (strcmp(opts.opt, "7TRACK") == 0) {
                    track7 = 1;
                } else if (strcmp(opts.opt, "NORING") == 0) {
                    ring = 0;
                } else if (strcmp(opts.opt, "RING") == 0) {
                    ring = 1;
-               } else if (strcmp(opts.opt, "FORMAT") == 0) {
-                   fmt = get_index(&opts, tape_format_type);
+               } else if (strcmp(opts.opt, "FORMAT") == 0 &&
+                          (fmt = get_index(&opts, tape_format_type)) >= 0) {
+                   /* Format set above */
                } else if (strcmp(opts.opt, "800") == 0) {
                    den = 0;
                } else if (strcmp(opts.opt, "1600") == 0) {
                    den = 1;
                } else {
                    fprintf(stderr, "Invalid option %s to 2415 Unit\n", opts.opt);
+                   free(file);
                    free(tape->tape[i]);
                    tape->tape[i] = NULL;
                    return 0;
@@ -1398,6 +1418,10 @@ model2415_create(struct _option *opt)
              free(file);
          }
      } else {
+         if ((opt->flags & 1) && (opt->dash_num < 1 || opt->dash_num > 6)) {
+             fprintf(stderr, "Invalid model %s-%d\n", opt->opt, opt->dash_num);
+             return 0;
+         }
          if ((dev2415 = calloc(1, sizeof(struct _device))) == NULL)
              return 0;
          if ((tape = calloc(1, sizeof(struct _2415_context))) == NULL) {
-- 
2.43.0


From ea6209aec7c78d78d0aa32e3a34846187e15fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 027/108] fix: 1443 with a bad option stayed on the channel
 after being freed

---
 src/model1443/model1443.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 3096da5..2cc201a 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -1090,7 +1090,6 @@ model1443_create(struct _option *opt)
      lpr->form = 1;
      lpr->fcb = &cctape_legacy[0];
      lpr->lpp = 66;
-     add_chan(dev1443, opt->addr);
 
      /* Parse options given on definition */
      while (get_option(&opts)) {
@@ -1114,15 +1113,21 @@ model1443_create(struct _option *opt)
                   }
                   strcpy(lpr->file_name, opts.string);
                   lpr->form = 0;
+               } else {
+                  log_warn("Unable to open file %s\n", opts.string);
                }
            } else {
                fprintf(stderr, "Invalid option %s to 1443\n", opts.opt);
+               if (lpr->file != NULL)
+                   fclose(lpr->file);
+               free(lpr->file_name);
                free(lpr);
                free(dev1443);
                return 0;
            }
      }
 
+     add_chan(dev1443, opt->addr);
      return 1;
 }
 
-- 
2.43.0


From 34cd7b2b505bec40f0ffd69dafc45fedc1386068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 028/108] fix: 1442 refused valid BLANK counts and accepted
 unknown formats

---
 src/model1442/model1442.c |  8 ++++++++
 src/model1442/panel1442.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index b0cc740..cbbc318 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -830,6 +830,14 @@ model1442_init(uint16_t addr)
      card->feed = init_card_context();
      card->stack[0] = init_card_context();
      card->stack[1] = init_card_context();
+     if (card->feed == NULL || card->stack[0] == NULL || card->stack[1] == NULL) {
+         free(card->feed);
+         free(card->stack[0]);
+         free(card->stack[1]);
+         free(card);
+         free(dev1442);
+         return 0;
+     }
      card->hop_cnt = hopper_size(card->feed);
      card->stk_cnt[0] = stack_size(card->stack[0]);
      card->stk_cnt[1] = stack_size(card->stack[1]);
diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index e140223..a4497b8 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -84,7 +84,10 @@ model1442_create(struct _option *opt)
      }
 
      /* Allocate structures to hold device information */
-     dev1442 = model1442_init(opt->addr);
+     if ((dev1442 = model1442_init(opt->addr)) == NULL) {
+         fprintf(stderr, "Unable to create device %s %03x\n", opt->opt, opt->addr);
+         return 0;
+     }
      ctx = (struct _1442_context *)dev1442->dev;
 
      /* Parse options given on definition */
@@ -98,13 +101,14 @@ model1442_create(struct _option *opt)
                empty_cards(ctx->feed);
            } else if (strcmp(opts.opt, "BLANK") == 0 && opts.flags == 1) {
                int num;
-               if (get_integer(&opts, &num) != 0)
+               if (get_integer(&opts, &num) == 0)
                    return 0;
                blank_deck(ctx->feed, num);
            } else if (strcmp(opts.opt, "FORMAT") == 0) {
                i = get_index(&opts, card_fmt_type);
-               if (i >= 0)
-                   ctx->feed->mode = i;
+               if (i < 0)
+                   return 0;
+               ctx->feed->mode = i;
            } else {
                fprintf(stderr, "Invalid option %s to 1442\n", opts.opt);
                del_chan(dev1442, opt->addr);
-- 
2.43.0


From eaf6eccffe0fa38bc030e2c3373be2c4db8d28f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 029/108] fix: port numbers and memory sizes out of range were
 accepted

---
 src/model1052/model1052.c |  6 +++++-
 src/model2030/model2030.c | 11 +++++++++--
 src/model2050/cpu2050.c   |  5 ++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index b71378f..4ef8a68 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -1068,13 +1068,17 @@ model1052_create(struct _option *opt)
          if (strcmp(opts.opt, "PORT") == 0 && opts.string[0] != '\0') {
              v = 0;
              for (p = &opts.string[0]; *p != '\0'; p++) {
-                 if (*p >= '0' && *p <= '9') {
+                 if (*p >= '0' && *p <= '9' && v <= 6553) {
                      v = (v * 10) + (*p - '0');
                  } else {
                      fprintf(stderr, "Port not numeric %s\n", opts.string);
                      return 0;
                  }
              }
+             if (v > 65535) {
+                 fprintf(stderr, "Port not valid %s\n", opts.string);
+                 return 0;
+             }
              port = v;
          } else {
              fprintf(stderr, "Invalid option %s\n", opts.opt);
diff --git a/src/model2030/model2030.c b/src/model2030/model2030.c
index b3d6ddc..d42c718 100644
--- a/src/model2030/model2030.c
+++ b/src/model2030/model2030.c
@@ -61,7 +61,7 @@ model2030_create(struct _option *opt)
     while (get_option(&opts)) {
          int       v;
 
-         if (strcmp(opts.opt, "PORT") == 0 && get_integer(&opts, &v)) {
+         if (strcmp(opts.opt, "PORT") == 0 && get_integer(&opts, &v) && v <= 65535) {
              port = v;
          } else {
              fprintf(stderr, "Invalid option %s\n", opts.opt);
@@ -70,6 +70,10 @@ model2030_create(struct _option *opt)
     }
 
     if (opt->model != '\0') {
+        if (opt->model > 'F') {
+            fprintf(stderr, "Memory size not valid %c\n", opt->model);
+            return 0;
+        }
         msize = 2048 << (opt->model - 'A');
         if (msize > (64 * 1024)) {
             return 0;
@@ -81,7 +85,10 @@ model2030_create(struct _option *opt)
         return 0;
     mem_max = msize - 1;
     log_info("Model 30 configured %d %04x mem\n", msize, mem_max);
-    cpu_2030.console = model1052_init_ctx(port);
+    if ((cpu_2030.console = model1052_init_ctx(port)) == NULL) {
+        fprintf(stderr, "Unable to create console\n");
+        return 0;
+    }
     INT_TMR = 1;   /* By default enable interval timer */
     return 1;
 }
diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index d92a6af..2d44f46 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -6317,8 +6317,11 @@ model2050_create(struct _option *opt)
     step_cpu = &step_2050;
 
     if (opt->model != '\0') {
-        msize = 2048 << (opt->model - 'A');
+        msize = 0;
+        if (opt->model <= 'I')
+            msize = 2048 << (opt->model - 'A');
         if (msize < (64 * 1024) || msize > (512 * 1024)) {
+            fprintf(stderr, "Memory size not valid %c\n", opt->model);
             return 0;
         }
     } else {
-- 
2.43.0


From 149798045cc3a20aecfd61ac375dd3326f14ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 030/108] fix: 2314 on a device that is not a 2844 corrupted
 memory

---
 src/model2844/panel2844.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/model2844/panel2844.c b/src/model2844/panel2844.c
index ee2701b..d04cdca 100644
--- a/src/model2844/panel2844.c
+++ b/src/model2844/panel2844.c
@@ -112,7 +112,10 @@ model2844_create(struct _option *opt)
          return 0;
      }
 
-     dev2844 = model2844_init(opt->addr);
+     if ((dev2844 = model2844_init(opt->addr)) == NULL) {
+         fprintf(stderr, "Unable to create device %s %03x\n", opt->opt, opt->addr);
+         return 0;
+     }
 
      return 1;
 }
@@ -133,7 +136,7 @@ model2314_create(struct _option *opt)
      int              t;
 
      dev2844 = find_chan(opt->addr, 0xf8);
-     if (dev2844 == NULL) {
+     if (dev2844 == NULL || dev2844->bus_func != &model2844_dev) {
          fprintf(stderr, "Device not found %s %03x\n", opt->opt, opt->addr);
          return 0;
      }
@@ -189,7 +192,7 @@ model2314_create(struct _option *opt)
          free(vol);
      }
      if (file != NULL) {
-         if (dasd_attach(ctx->disk[i], file, fmt) == 0) {
+         if (dasd_attach(ctx->disk[i], file, fmt) <= 0) {
              log_warn("Unable to open file %s\n", file);
          }
          free(file);
-- 
2.43.0


From 1de21c09465acc0ce808fa3c046a9b7f74dd07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 031/108] fix: 1442: START left an unread card unreadable, hid
 its device end, and keys disturbed running commands

---
 src/model1442/panel1442.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index a4497b8..77993e7 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -237,23 +237,35 @@ static void model1442_update(void *arg, int iarg)
 
     case 1:  /* Start Key */
           log_device("Start key\n");
-          if (ctx->state == STATE_IDLE) {
+          /* Ignore key while a command is in progress */
+          if (ctx->state == STATE_IDLE && ctx->busy == 0 && ctx->cmd == 0) {
               log_device("Start reader\n");
-              if (ctx->rdr_full == 0) {
+              /* Feed if nothing in reader, or card there was already read */
+              if (ctx->rdr_full == 0 || ctx->rdr_col != 0) {
                   model1442_feed(ctx);
+              } else if (hopper_size(ctx->feed) != 0 || ctx->eof_flag) {
+                  /* Card waiting in reader is now ready */
+                  ctx->rdy_flag = 1;
+                  ctx->sense &= ~BIT1;    /* Clear intervention required */
               }
               if (ctx->rdr_full) {
-                  ctx->status = SNS_DEVEND;
+                  device_t *unit = find_chan((ctx->chan << 8) | ctx->addr, 0xfff);
+
+                  ctx->status |= SNS_DEVEND;
                   ctx->data_end = 1;
                   ctx->feed_done = 1;
+                  /* Tell channel that reader has status */
+                  if (unit != NULL)
+                      unit->request = 1;
               }
           }
           break;
 
     case 2:  /* NPRO */
-          if (ctx->selected == 0)
+          if (ctx->busy == 0) {
               model1442_feed(ctx);
-          ctx->eof_flag = 0;
+              ctx->eof_flag = 0;
+          }
           break;
 
     case 3:  /* STOP */
-- 
2.43.0


From 531c8e2fa50bea35e23a571ad0caf9d2be1e357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 032/108] fix: 1442: punch data kept its parity bit and indexed
 past the parity table

---
 src/model1442/model1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index cbbc318..923464d 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -724,7 +724,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out; /* Grab data */
+                          ctx->data = bus_out & 0xff; /* Grab data */
                       }
                  }
                  ctx->state = STATE_OPR;   /* Go to process this data */
-- 
2.43.0


From 06f93c30b3554438bf106e26f13bf78727c30c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 033/108] fix: 1442: write kept running after a bus parity
 error

---
 src/model1442/model1442.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 923464d..1cd7469 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -717,6 +717,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((ctx->cmd & 1) != 0) { /* Write command */
                       /* Device selected */
                       if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
+                          cancel_event(unit, &write_callback);
                           ctx->sense |= SENSE_BUSCHK;
                           ctx->status |= (SNS_UNITCHK);
                           ctx->data_end = 1;
-- 
2.43.0


From 95fb01397d84e033879b8118940a04b95739c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 034/108] fix: 1442: halted command punched stale data or held
 the interface

---
 src/model1442/model1442.c | 52 ++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 1cd7469..aa82bac 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -190,6 +190,27 @@ device_stop(struct _device *unit)
     }
 }
 
+/* Stop device when channel halts it */
+static void
+device_halt(struct _device *unit)
+{
+    struct _1442_context *ctx = (struct _1442_context *)unit->dev;
+
+    if (ctx->data_end || ctx->cmd == 0) {
+        return;
+    }
+    if (ctx->cmd == 0x04) {
+        ctx->status |= SNS_DEVEND;
+        ctx->cmd_done = 1;
+    } else if ((ctx->cmd & 3) == 1 && ctx->data_rdy == 0 && ctx->pch_col < 80) {
+        /* Punch character channel gave us */
+        ctx->pch_card[ctx->pch_col++] |= ebcdic_to_hol(ctx->data);
+    }
+    ctx->data_rdy = 0;
+    device_stop(unit);
+    unit->request = 1;
+}
+
 /* Decode command to device */
 static void
 device_cmd(struct _device *unit, uint8_t bus_out)
@@ -460,10 +481,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             if ((*tags & (CHAN_ADR_OUT)) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
                 *tags &= ~(CHAN_ADR_IN|CHAN_OPR_IN);  /* Clear select in */
                 log_device("1442: Halt %03x device\n",unit->addr);
-                if (ctx->data_end == 0) {
-                    ctx->data_end = 1;
-                    ctx->status |= SNS_CHNEND;
-                }
+                device_halt(unit);
                 ctx->state = STATE_STATUS_WAIT;
                 break;
             }
@@ -554,11 +572,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  /* If address out, halt device */
                  if ((*tags & CHAN_ADR_OUT) != 0) {
                      log_device("1442: %03x Halt IO\n",unit->addr);
-                     if (ctx->data_end == 0) {
-                         ctx->data_rdy = 0;
-                         ctx->data_end = 1;
-                         unit->request = 1;
-                     }
+                     device_halt(unit);
                  }
              }
              *tags &= ~(CHAN_SEL_OUT);
@@ -593,6 +607,14 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  break;
              }
 
+             /* Channel halted us, keep status until asked for */
+             if ((*tags & CHAN_ADR_OUT) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
+                 unit->request = 1;
+                 ctx->state = STATE_STATUS_WAIT;
+                 *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
+                 break;
+             }
+
              /* CPU accepted status */
              if ((*tags & CHAN_SRV_OUT) != 0) {
 
@@ -647,9 +669,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
              /* If address out, halt device */
              if ((*tags & CHAN_ADR_OUT) != 0) {
-                 ctx->data_end = 1;
-                 ctx->data_rdy = 0;
-                 ctx->status |= SNS_CHNEND;
+                 device_halt(unit);
                  *tags &= ~(CHAN_OPR_IN);
                  unit->selected = 0;
                  ctx->state = STATE_IDLE;
@@ -710,6 +730,14 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
       case STATE_DATA_2:      /* Complete transfer */
              *tags &= ~CHAN_SEL_OUT;
              *bus_in = ctx->data | odd_parity[ctx->data];
+             /* If address out, halt device */
+             if ((*tags & CHAN_ADR_OUT) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
+                 *tags &= ~(CHAN_SRV_IN|CHAN_OPR_IN);
+                 device_halt(unit);
+                 unit->selected = 0;
+                 ctx->state = STATE_IDLE;
+                 break;
+             }
              if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
                  /* Wait for service out or command out */
                  *tags &= ~(CHAN_SRV_IN);   /* Clear service in request */
-- 
2.43.0


From e65f1e574dbd4a2664a301b5a30e34985ab09d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 035/108] fix: 1442: took a command out not yet dropped as
 answer to status or data

---
 src/model1442/model1442.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index aa82bac..030afff 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -492,6 +492,9 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS:
              /* Wait for Command out to drop */
              *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
+             if ((*tags & CHAN_CMD_OUT) != 0) {
+                 break;
+             }
 
              *bus_in = ctx->status | odd_parity[ctx->status];
              log_device("1442: %03x initial status %02x\n",unit->addr, ctx->status);
@@ -714,8 +717,8 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
       case STATE_DATA_1:      /* Send or recieve data from CPU */
              *tags &= ~CHAN_SEL_OUT;
-             if ((*tags & CHAN_SRV_OUT) != 0) {
-                  /* Wait for service out to drop */
+             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
+                  /* Wait for service out and command out to drop */
                   break;
              }
              if ((*tags & CHAN_SUP_OUT) != 0) {
-- 
2.43.0


From a8f833fca1b504410c914ad6d724a5e625156ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 036/108] fix: 1442: left the selector channel at chained
 channel end, or asked for service again

---
 src/model1442/model1442.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 030afff..aef1236 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -533,6 +533,8 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 }
 
                 if (ctx->data_end) {
+                    unit->request = 0;
+                    unit->stacked = 0;
                     if ((*tags & CHAN_HLD_OUT) == 0) {
                         *tags &= ~(CHAN_OPR_IN);
                     }
@@ -636,7 +638,13 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  }
 
                  if (ctx->data_end) {
-                     *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
+                     unit->request = 0;
+                     unit->stacked = 0;
+                     *tags &= ~(CHAN_STA_IN);
+                     /* Hold selector channel until device end */
+                     if ((*tags & CHAN_HLD_OUT) == 0) {
+                         *tags &= ~(CHAN_OPR_IN);
+                     }
                      ctx->state = STATE_STATUS_WAIT;
                      break;
                  }
@@ -657,6 +665,13 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             log_device("1442: %03x wait end b=%d cd=%d %02x %02x\n",unit->addr,
                 ctx->busy, ctx->cmd_done, ctx->cmd, ctx->status);
              *tags &= ~(CHAN_SEL_OUT);
+             /* Channel no longer waiting for us, let go of it */
+             if ((*tags & CHAN_HLD_OUT) == 0) {
+                 unit->selected = 0;
+                 *tags &= ~(CHAN_OPR_IN);
+                 ctx->state = STATE_IDLE;
+                 break;
+             }
              if (ctx->cmd_done) {
                  unit->request = 0;
                  ctx->state = STATE_STATUS;
-- 
2.43.0


From 99963eb9286aa94e7f9ab0dbb9640e5a697608c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 037/108] fix: 1442: command refused for pending status was
 reported without busy

---
 src/model1442/model1442.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index aef1236..bf920e9 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -473,6 +473,8 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 ctx->state = STATE_STATUS; /* Present status out */
                 if (!unit->stacked && ctx->status == 0) {       /* If no stacked status, process command */
                     device_cmd(unit, bus_out & 0xff);
+                } else if ((bus_out & 0xff) != 0) {
+                    ctx->status |= SNS_BSY;     /* Command not started, status pending */
                 }
                 break;
             }
-- 
2.43.0


From 32cbc21c406233c32a92afc0454ffe748bae63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 038/108] fix: 1442: overrun followed by stop fed two cards

---
 src/model1442/model1442.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index bf920e9..9243a9a 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -165,6 +165,10 @@ device_stop(struct _device *unit)
     struct _1442_context *ctx = (struct _1442_context *)unit->dev;
 
     log_device("1442: stop %02x\n", ctx->cmd);
+    /* Already stopped by overrun */
+    if (ctx->data_end) {
+        return;
+    }
     ctx->status |= SNS_CHNEND;
     ctx->data_end = 1;
     switch (ctx->cmd & 03) {
-- 
2.43.0


From 874fd11f20a7fc686432904a07f747ec6292a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 039/108] fix: 1442: bad punch on the last card of a file was
 not reported

---
 src/model1442/model1442.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 9243a9a..beef10b 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -146,6 +146,9 @@ feed_callback(struct _device *unit, void *arg, int iarg)
     unit->request = 1;
     if (ctx->hop_cnt == 0 && ctx->eof_flag) {
         ctx->status |= SNS_UNITEXP;
+        if ((ctx->sense & ~SENSE_INTERV) != 0) {
+            ctx->status |= SNS_UNITCHK;
+        }
         ctx->eof_flag = 0;
         /* Move card to punch */
         model1442_feed(ctx);
-- 
2.43.0


From d762145c5a5459ca9f9070b8d6ac3e4186c55a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 040/108] fix: 1442: status changed while the channel was
 accepting it

---
 src/model1442/model1442.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index beef10b..570be20 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -56,12 +56,25 @@ DEV_LIST_STRUCT(1442, DEV_TYPE, 0);
 
 static void feed_callback(struct _device *unit, void *arg, int iarg);
 
+/* Check if channel is looking at status of device */
+static int
+status_out(struct _1442_context *ctx)
+{
+    return ctx->state == STATE_STATUS || ctx->state == STATE_STATUS_ACCEPT ||
+           ctx->state == STATE_END_STATUS || ctx->state == STATE_END_ACCEPT;
+}
 
 static void
 read_callback(struct _device *unit, void *arg, int iarg)
 {
     struct _1442_context *ctx = (struct _1442_context *)unit->dev;
 
+    /* Status on bus, do not change it until channel takes it */
+    if (status_out(ctx)) {
+        add_event(unit, &read_callback, 10, NULL, 0);
+        return;
+    }
+
     /* If the channel ended early, feed the card */
     if (ctx->data_end) {
        add_event(unit, &feed_callback, 1000, NULL, 0);
@@ -108,6 +121,12 @@ write_callback(struct _device *unit, void *arg, int iarg)
 {
     struct _1442_context *ctx = (struct _1442_context *)unit->dev;
 
+    /* Status on bus, do not change it until channel takes it */
+    if (status_out(ctx)) {
+        add_event(unit, &write_callback, 10, NULL, 0);
+        return;
+    }
+
     log_device("reader Write get1\n");
     if (ctx->data_rdy) {
         ctx->sense |= SENSE_OVRRUN;
@@ -139,6 +158,12 @@ static void
 feed_callback(struct _device *unit, void *arg, int iarg)
 {
     struct _1442_context *ctx = (struct _1442_context *)unit->dev;
+    /* Status on bus, do not change it until channel takes it */
+    if (status_out(ctx)) {
+        add_event(unit, &feed_callback, 10, NULL, 0);
+        return;
+    }
+
     ctx->status |= SNS_DEVEND;
     ctx->busy = 0;
     ctx->cmd_done = 1;
-- 
2.43.0


From 2c829650fac42d79a79d911af695007359f82ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 041/108] fix: 1442: halt between channel end and device end
 lost device end

---
 src/model1442/model1442.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 570be20..ce50eb6 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -516,6 +516,10 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 *tags &= ~(CHAN_ADR_IN|CHAN_OPR_IN);  /* Clear select in */
                 log_device("1442: Halt %03x device\n",unit->addr);
                 device_halt(unit);
+                /* Keep asking to present status */
+                if (ctx->status != 0) {
+                    unit->request = 1;
+                }
                 ctx->state = STATE_STATUS_WAIT;
                 break;
             }
-- 
2.43.0


From 438a3e64174abba70a41d32564b0551c2ac9dbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 042/108] fix: 1443: skips stopped a line short and ran past
 the carriage tape, forms had 67 lines, spacing lost at end of form and when
 killed, overprint ran on

---
 src/model1443/model1443.c | 80 ++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 51 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 2cc201a..945df38 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -931,7 +931,23 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
 
 /*
- * Print out a line and return number of lines being skipped
+ * Advance paper one line
+ */
+static void
+space_line(struct _1443_context *ctx)
+{
+    fwrite("\r\n", 1, 2, ctx->file);
+    memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+    memset(&ctx->output[14][0], 0, 120);
+    ctx->row++;
+    if (ctx->row >= ctx->lpp) {
+        fwrite("\f", 1, 1, ctx->file);
+        ctx->row = 0;
+    }
+}
+
+/*
+ * Print out a line and return time to print and space
  */
 int
 print_line(struct _1443_context *ctx)
@@ -975,16 +991,14 @@ print_line(struct _1443_context *ctx)
         memset(ctx->buf, 0x40, sizeof(ctx->buf));
         time = 11;
     }
-    fflush(ctx->file);
 
-    f = 1;  /* Indicate we need to output a new line */
     if (l < 4) {
+        /* No spacing, next line will overprint this one */
+        if (l == 0 && ctx->col != 0) {
+            fwrite("\r", 1, 1, ctx->file);
+        }
         while(l != 0) {
-            fwrite("\r\n", 1, 2, ctx->file);
-            memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-            memset(&ctx->output[14][0], 0, 120);
             r++;
-            f = 0;
             log_device( " Printer fcb: %04x\n", ctx->fcb[ctx->row]);
             if ((ctx->fcb[ctx->row] & (0x1000 >> 9)) != 0)
                 ch9 = 1;
@@ -992,19 +1006,10 @@ print_line(struct _1443_context *ctx)
         log_device( " Printer chan 12\n");
                 ch12 = 1;
             }
-            ctx->row++;
-            if (ctx->row > ctx->lpp)
-                break;
+            space_line(ctx);
             l--;
         }
-        if (ctx->row > ctx->lpp) {
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-           memset(&ctx->output[14][0], 0, 120);
-           if (f)
-               fwrite("\r\n", 1, 2, ctx->file);
-           fwrite("\f", 1, 1, ctx->file);
-           ctx->row = 0;
-        }
+        fflush(ctx->file);
         if (ch9 && (ctx->cmd & 0x3) == 0x1) {
            ctx->sense |= SENSE_CHAN9;
         }
@@ -1017,42 +1022,15 @@ print_line(struct _1443_context *ctx)
     }
 
     mask = 0x1000 >> (l & 0xf);  /* Mask which channel to stop at */
-    f = 0;     /* Indicate if we started new form */
     l = 0;     /* Total lines skipped */
-    r = 0;     /* What row we should be on */
-    for (i = ctx->row + 1; (ctx->fcb[i] & mask) == 0 && ctx->row != i; i++) {
+    /* Skip until channel found, or back at same line on next form */
+    do {
+         space_line(ctx);
          l++;
-         r++;
-         if (i > ctx->lpp) {
-             log_device("printer skip2 %d > %d\n", i, ctx->lpp);
-             fwrite("\r\n\f", 1, 3, ctx->file);
-             memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-             memset(&ctx->output[14][0], 0, 120);
-             f = 1;
-             r = 0;
-         }
-    }
-
-    /* If we passed over form, clear row */
-    if (f) {
-       ctx->row = 0;
-    }
-
-    if (ctx->fcb[i] & mask) {
-        while (r-- > 0) {
-           fwrite("\r\n", 1, 2, ctx->file);
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-           memset(&ctx->output[14][0], 0, 120);
-           ctx->row++;
-           if (ctx->row > ctx->lpp) {
-               log_device("printer skip %d > %d\n", ctx->row, ctx->lpp);
-               fwrite("\f", 1, 1, ctx->file);
-               ctx->row = 0;
-           }
-        }
-    }
+    } while ((ctx->fcb[ctx->row] & mask) == 0 && l < ctx->lpp);
+    fflush(ctx->file);
     time += 20 + (5 * l);
-    return l;
+    return time;
 }
 
 int
-- 
2.43.0


From 98386a5e98ebb7986446c7cc5400919ecdf58033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 043/108] fix: 1443: use the interface sequence of the other
 devices (requests ignored selection, status lost or without parity, undefined
 commands hung)

---
 src/model1443/model1443.c | 1175 ++++++++++++++++---------------------
 src/model1443/model1443.h |    9 +-
 2 files changed, 503 insertions(+), 681 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 945df38..0203d81 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -55,26 +55,6 @@ DEV_LIST_STRUCT(1443, DEV_TYPE, 0);
 #define SENSE_DATCHK    BIT5  /* Character send not on print train */
 #define SENSE_CHAN9     BIT7  /* Channel 9 skipped over */
 
-
-#define STATE_IDLE      0     /* Device in Idle state */
-#define STATE_SEL       1     /* Device now selected */
-#define STATE_CMD       2     /* Device awaiting command */
-#define STATE_INIT_STAT 3     /* Sent init status */
-#define STATE_OPR       4     /* Do operation */
-#define STATE_OPR_REL   5     /* Operator but release */
-#define STATE_REQ       6     /* Request the channel */
-#define STATE_DATA_O    7     /* Data out to device */
-#define STATE_DATA_I    8     /* Data in  to device */
-#define STATE_DATA_END  9     /* Post end of channel usage */
-#define STATE_END       10    /* Post ending status */
-#define STATE_STACK     11    /* Channel polling */
-#define STATE_STACK_SEL 12    /* Stack status select */
-#define STATE_STACK_CMD 13    /* Stack status select */
-#define STATE_STACK_STA 14    /* Stack status status */
-#define STATE_STACK_HLD 15    /* Stack status select */
-#define STATE_WAIT      16    /* After data transfer wait motion */
-
-
 static const uint16_t cctape_legacy[] = {
 /* 1      2      3      4      5      6      7      8      9     10       lines  */
 0x800, 0x000, 0x000, 0x000, 0x000, 0x000, 0x400, 0x000, 0x000, 0x000, /*  1 - 10 */
@@ -155,13 +135,164 @@ const static uint8_t ebcdic_to_out[256] = {
 
 int print_line(struct _1443_context *ctx);
 
+/* Check if channel is looking at status of device */
+static int
+status_out(struct _1443_context *ctx)
+{
+    return ctx->state == STATE_STATUS || ctx->state == STATE_STATUS_ACCEPT ||
+           ctx->state == STATE_END_STATUS || ctx->state == STATE_END_ACCEPT;
+}
+
+/* Paper motion finished */
 static void
 done_callback(struct _device *unit, void *arg, int iarg)
 {
     struct _1443_context *ctx = (struct _1443_context *)unit->dev;
-    ctx->feed_done = 1;
+
+    /* Status on bus, do not change it until channel takes it */
+    if (status_out(ctx)) {
+        add_event(unit, &done_callback, 10, NULL, 0);
+        return;
+    }
+    log_device("1443: feed done\n");
+    ctx->status |= SNS_DEVEND;
+    if (ctx->chan12) {
+        ctx->status |= SNS_UNITEXP;
+    }
+    if (ctx->sense != 0) {
+        ctx->status |= SNS_UNITCHK;
+    }
+    ctx->chan12 = 0;
+    ctx->busy = 0;
+    ctx->cmd_done = 1;
+    unit->request = 1;
+}
+
+/* Stop device when channel has no more data */
+static void
+device_stop(struct _device *unit)
+{
+    struct _1443_context *ctx = (struct _1443_context *)unit->dev;
+
+    if (ctx->data_end) {
+        return;
+    }
+    log_device("1443: stop %02x\n", ctx->cmd);
+    ctx->data_rdy = 0;
+    ctx->data_end = 1;
+    if ((ctx->cmd & 03) == 1) {  /* If write, print the line */
+        ctx->status |= SNS_CHNEND;
+        add_event(unit, &done_callback, 2000 * print_line(ctx), NULL, 0);
+    }
+}
+
+/* Stop device when channel halts it */
+static void
+device_halt(struct _device *unit)
+{
+    struct _1443_context *ctx = (struct _1443_context *)unit->dev;
+
+    if (ctx->data_end || ctx->cmd == 0) {
+        return;
+    }
+    if (ctx->cmd == 0x04) {
+        ctx->status |= SNS_CHNEND|SNS_DEVEND;
+        ctx->cmd_done = 1;
+    }
+    device_stop(unit);
+    unit->request = 1;
+}
+
+/* Place character from channel in line */
+static void
+device_data(struct _device *unit, uint8_t data)
+{
+    struct _1443_context *ctx = (struct _1443_context *)unit->dev;
+
+    ctx->buf[ctx->col++] = data;
+    if (ctx->col == 120) {
+        device_stop(unit);
+        return;
+    }
+    ctx->data_rdy = 1;
+    /* Give other devices chance at the channel every 3 characters */
+    if (++ctx->cnt == 3) {
+        ctx->cnt = 0;
+        ctx->disconnect = 1;
+    }
+}
+
+/* Decode command to device */
+static void
+device_cmd(struct _device *unit, uint8_t cmd)
+{
+    struct _1443_context *ctx = (struct _1443_context *)unit->dev;
+
+    log_device("1443: command %02x\n", cmd);
+    ctx->cmd = 0;
+    ctx->data_rdy = 0;
+    ctx->data_end = 1;
+    ctx->cmd_done = 1;
+    ctx->disconnect = 0;
+    ctx->col = 0;
+    ctx->cnt = 0;
+    ctx->chan12 = 0;
+    ctx->status = 0;
+    if (ctx->ready == 0 || ctx->file == NULL) {
+        ctx->sense = SENSE_INTERV;
+        ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
+        return;
+    }
+    switch (cmd & 07) {
+    case 0: /* Test I/O */
+           if (cmd == 0) {
+               ctx->data_end = 0;
+               ctx->cmd_done = 0;
+               return;
+           }
+           break;
+
+    case 1: /* Write */
+    case 3: /* Feed */
+           /* Check if skip invalid */
+           if ((cmd & 0x80) != 0 && ((cmd & 0x78) == 0 || (cmd & 0x78) > 0x60)) {
+               break;
+           }
+           /* Check if space invalid */
+           if ((cmd & 0x80) == 0 && (cmd & 0x78) > 0x18) {
+               break;
+           }
+           ctx->sense = 0;
+           ctx->cmd = cmd;
+           ctx->cmd_done = 0;
+           ctx->busy = 1;
+           if ((cmd & 07) == 1) {
+               ctx->data_end = 0;
+               ctx->data_rdy = 1;   /* Tell CPU to grab some data for us */
+           } else {
+               ctx->status = SNS_CHNEND;
+               add_event(unit, &done_callback, 2000 * print_line(ctx), NULL, 0);
+           }
+           return;
+
+    case 4: /* Sense */
+           if (cmd == 0x04) {
+               log_device("1443: Sense %02x\n", ctx->sense);
+               ctx->data = ctx->sense;
+               ctx->cmd = cmd;
+               ctx->cmd_done = 0;
+               ctx->data_end = 0;
+               ctx->data_rdy = 1;
+               return;
+           }
+           break;
+    }
+    /* Invalid command */
+    ctx->sense = SENSE_CMDREJ;
+    ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
 }
 
+/* Process channel */
 void
 model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *bus_in)
 {
@@ -169,764 +300,457 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     static   uint16_t last_tags = 0;
 
     if (last_tags != *tags) {
-        print_tags("Printer", ctx->state, *tags, bus_out);
+        print_tags("1443", ctx->state, *tags, bus_out);
         last_tags = *tags;
     }
 
     /* Reset device if OPER OUT is dropped */
     if ((*tags & (CHAN_OPR_OUT|CHAN_SUP_OUT)) == 0) {
-        log_device("Reset printer\n");
-        if (ctx->selected || ctx->addressed) {
+        if (unit->selected) {
            *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
         }
-        if (ctx->request) {
-           *tags &= ~(CHAN_REQ_IN);
-        }
-        ctx->selected = 0;
-        ctx->addressed = 0;
-        ctx->stacked = 0;
-        ctx->request = 0;
-        ctx->status = 0;
+        log_device("1443: %03x reset\n", unit->addr);
+        cancel_event(unit, &done_callback);
+        unit->selected = 0;
+        unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
+        ctx->status = 0;
         ctx->sense = 0;
         ctx->cmd = 0;
+        ctx->cmd_done = 0;
+        ctx->busy = 0;
+        ctx->data_end = 0;
+        ctx->data_rdy = 0;
+        ctx->disconnect = 0;
         return;
     }
 
     switch (ctx->state) {
+    /* Idle wait for CPU to talk to us */
     case STATE_IDLE:
-            /* Wait until Channels asks for us */
-            if ((*tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT) ||
-                *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_SUP_OUT) ||
-                *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_REQ_IN) ||
-                *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_SUP_OUT|CHAN_REQ_IN)) &&
-                 (bus_out & 0xff) == ctx->addr) {
-                 /* Device selected */
-                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0)
-                     ctx->sense |= SENSE_BUSCHK;
-                 *tags &= ~(CHAN_SEL_OUT);      /* Clear select out and in */
-                 *tags |= CHAN_OPR_IN;
-                 ctx->state = STATE_SEL;
-                 ctx->addressed = 1;
-                 log_device("printer selected\n");
-             }
-             break;
-
-    case STATE_SEL:
-             /* If we are selected, drop select out to rest of channel */
-             if (ctx->addressed || ctx->selected) {
-                 *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-                 *tags |= CHAN_OPR_IN;
-             }
-
-             /* When address out drops put our address on bus in */
-             if (ctx->addressed && (*tags & (CHAN_ADR_OUT|CHAN_CMD_OUT)) == 0) {
-                  *tags |= CHAN_ADR_IN;      /* Return address until accepted */
-                  *bus_in = ctx->addr | odd_parity[ctx->addr];
-                  ctx->selected = 1;         /* Mark us as selected */
-                  ctx->addressed  = 0;
-                  log_device("printer address\n");
-                  break;
-             }
-
-             if (ctx->selected && (*tags & (CHAN_ADR_OUT|CHAN_CMD_OUT)) == 0) {
-                  *tags |= CHAN_ADR_IN;      /* Return address until accepted */
-                  *bus_in = ctx->addr | odd_parity[ctx->addr];
-                  log_device("printer address\n");
-                  break;
-             }
-
-             /* If we get Address out again, we need to halt */
-             if (ctx->selected && (*tags & (CHAN_ADR_OUT)) != 0) {
-                  *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN|CHAN_OPR_IN);  /* Clear select in */
-                  ctx->selected = 0;
-                  log_device("printer Halt device\n");
-                  ctx->state = STATE_IDLE;
-                  break;
-             }
-
-             /* Wait for Command out to raise */
-             /* Can now drop address in */
-             if (ctx->selected && (*tags & (CHAN_CMD_OUT)) != 0) {
-                log_device("printer command %02x\n", bus_out);
-                 ctx->cmd = bus_out & 0xff;
-                 ctx->data_rdy = 0;
-                 ctx->data_end = 0;
-                 ctx->col = 0;
-                 ctx->cnt = 0;
-                 ctx->feed_done = 0;
-                 ctx->status = 0;
-                 ctx->state = STATE_CMD;
-                 *tags &= ~(CHAN_ADR_IN);                 /* Clear address in */
-                 if (ctx->ready == 0 || ctx->file == 0) {
-                     ctx->sense = SENSE_INTERV;
-                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                     break;
-                 }
-                 switch (ctx->cmd & 07) {
-                 case 0: /* Test I/O */
-                        break;
+            ctx->disconnect = 0;
+            /* If operation out, reset device */
+            if ((*tags & CHAN_OPR_OUT) == 0) {
+                log_device("1443: %03x oper dropped\n",unit->addr);
+                break;
+            }
 
-                 case 1: /* Write */
-                        ctx->sense = 0;
-                        /* Check if skip invalid */
-                        if ((ctx->cmd & 0x80) != 0 && ((ctx->cmd & 0x78) == 0 || (ctx->cmd & 0x78) > 0x60)) {
-                            ctx->cmd = 0;
-                            ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                            ctx->sense = SENSE_CMDREJ;
-                            break;
-                        }
-                        /* Check if space invalid */
-                        if ((ctx->cmd & 0x80) == 0 && (ctx->cmd & 0x78) > 0x18) {
-                            ctx->cmd = 0;
-                            ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                            ctx->sense = SENSE_CMDREJ;
-                            break;
-                        }
-                        ctx->data_rdy = 1;   /* Tell CPU to grab some data for us */
-                        break;
+            /* If operation in, another device has channel */
+            if ((*tags & CHAN_OPR_IN) != 0) {
+                if (unit->request || unit->stacked) {
+                    *tags &= ~(CHAN_REQ_IN);
+                }
+                break;
+            }
 
-                 case 2: /* Read */
-                        ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                        ctx->sense = SENSE_CMDREJ;
-                        break;
+            /* If we have request and suppress out is down, post request */
+            if (unit->request || unit->stacked) {
+                log_device("1443: %03x port request\n",unit->addr);
+                if ((*tags & (CHAN_SUP_OUT|CHAN_ADR_OUT)) == 0 || ctx->data_rdy) {
+                    *tags |= CHAN_REQ_IN;
+                } else {
+                    *tags &= ~CHAN_REQ_IN;
+                }
+            }
 
-                 case 3: /* Feed */
-                        ctx->sense = 0;
-                        /* Check if skip invalid */
-                        if ((ctx->cmd & 0x80) != 0 && ((ctx->cmd & 0x78) == 0 || (ctx->cmd & 0x78) > 0x60)) {
-                            ctx->cmd = 0;
-                            ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                            ctx->sense = SENSE_CMDREJ;
-                            break;
+            /* If select out check if channel is asking for us or we have status */
+            if ((*tags & CHAN_SEL_OUT) != 0) {
+                 /* Check if looking for this device */
+                 if ((*tags & CHAN_ADR_OUT) != 0) {
+                     if ((bus_out & 0xff) == (unit->addr & 0xff)) {
+                        *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
+                        /* Check if parity error on bus */
+                        if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
+                            ctx->sense |= SENSE_BUSCHK;
                         }
-                        /* Check if space invalid */
-                        if ((ctx->cmd & 0x80) == 0 && (ctx->cmd & 0x78) > 0x18) {
-                            ctx->cmd = 0;
-                            ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                            ctx->sense = SENSE_CMDREJ;
+                        /* If device in operation, respond with busy status */
+                        if (ctx->busy/* && ctx->data_end == 0*/) {
+                            *bus_in = SNS_BSY | odd_parity[SNS_BSY];
+                            *tags |= CHAN_STA_IN;             /* Put Busy flag on bus */
+                            ctx->state = STATE_BUSY;
+                            log_device("1443: %03x busy\n",unit->addr);
                             break;
                         }
-                        add_event(unit, done_callback, 2000 * print_line(ctx), NULL, 0);
-                        ctx->status = (SNS_CHNEND);
-                        ctx->data_end = 1;
-                        break;
-
-                 case 4:  /* Sense */
-                        if (ctx->cmd != 0x4) {
-                            ctx->cmd = 0;
-                            ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                            ctx->sense = SENSE_CMDREJ;
-                            break;
-                        }
-                        ctx->data = ctx->sense;
-                        ctx->data_rdy = 1;
-                        ctx->data_end = 1;
-                        log_device("Printer sense %02x\n", ctx->sense);
-                        break;
-                 default:
-                        ctx->cmd = 0;
-                        ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                        ctx->sense = SENSE_CMDREJ;     /* Invalid command */
-                        break;
-                 }
-                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
-                     ctx->cmd = 0;
-                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                     ctx->sense |= SENSE_BUSCHK;
-                 }
-             }
-             break;
 
-    case STATE_CMD:
-             /* If we are selected, drop select out to rest of channel */
-             if (ctx->selected) {
-                 *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-                 *tags |= CHAN_OPR_IN;
-
-                 /* If CMD out to initial select, stack the status */
-                 if ((*tags & (CHAN_CMD_OUT|CHAN_STA_IN)) == (CHAN_CMD_OUT|CHAN_STA_IN)) {
-                     log_device("test stacking inital\n");
-                     *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
-                     ctx->state = STATE_STACK;
-                     ctx->stacked = 1;
-                     ctx->selected = 0;
-                     break;
-                 }
-
-                 /* Wait for Command out to drop */
-                 if ((*tags & (CHAN_CMD_OUT)) != 0) {
-                     log_device("printer wait cmd drop stat\n");
+                        /* Clear select in, and raise operation in */
+                        *tags |= CHAN_OPR_IN;             /* Put our address on bus */
+                        *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
+                        ctx->state = STATE_INIT_SEL; /* Start initial select sequence */
+                        unit->selected = 1;
+                        log_device("1443: %03x selected\n",unit->addr);
+                     }
                      break;
                  }
 
-                 /* On MPX channel select out will drop, along with command */
-                 if ((*tags & (CHAN_CMD_OUT)) == 0) {
-                     *tags |= CHAN_STA_IN;                   /* Wait for acceptance of status */
-                     *bus_in = ctx->status | odd_parity[ctx->status];   /* Set initial status */
-                     log_device("printer init stat\n");
+                 /* If no address out, see if we have request or stacked status */
+                 if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked)) {
+                     *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
+                     *tags |= CHAN_OPR_IN;      /* Put our address on bus */
+                     *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
+                     unit->selected = 1;
+                     ctx->state = STATE_INIT_SEL;
+                     log_device("1443: %03x polling\n",unit->addr);
                  }
 
-                 /* When we get acknowlegment, go wait for it to go away */
-                 if ((*tags & (CHAN_SRV_OUT)) != 0) {
-                     *tags &= ~CHAN_STA_IN;
-                     ctx->state = STATE_INIT_STAT;
-                     log_device("printer init stat\n");
-                 }
              }
              break;
 
-    case STATE_INIT_STAT:
-             /* If we are selected, drop select out to rest of channel */
-             if (ctx->selected) {
-                 *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-                 *tags |= CHAN_OPR_IN;
-
-                 /* Wait for Service out to drop */
-                 if ((*tags & (CHAN_SRV_OUT)) == 0) {
-                     /* If no command, or check status, go back to idle */
-                     if (ctx->cmd == 0 || (ctx->status & (SNS_UNITCHK|SNS_UNITEXP)) != 0) {
-                         *tags &= ~(CHAN_OPR_IN);  /* Clear select out, oper in */
-                         ctx->state = STATE_IDLE;
-                         ctx->selected = 0;
-                         ctx->addressed = 0;
-                         log_device("printer state done\n");
-                         break;
-                     }
-
-                     /* If initial status has channel end, go wait for device to finish */
-                     if ((ctx->status & SNS_CHNEND) != 0) {
-                         *tags &= ~(CHAN_OPR_IN|CHAN_SEL_OUT);  /* Clear select out, oper in */
-                         ctx->status &= ~SNS_CHNEND;
-                         ctx->selected = 0;
-                         ctx->addressed = 0;
-                         ctx->state = STATE_WAIT;
-                         break;
-                     }
-
-                     /* If select out has dropped, drop operator in if no data to send */
-                     if ((*tags & CHAN_HLD_OUT) == 0 && ctx->data_rdy == 0 && ctx->cmd != 0x4) {
-                         *tags &= ~(CHAN_OPR_IN);           /* Clear select out and in */
-                         ctx->selected = 0;
-                         ctx->addressed = 0;
-                     }
-
-                     /* Wait for device to have some data to transmit */
-                     ctx->state = STATE_OPR;
-                     log_device("printer state done\n");
-                     break;
-                 }
-             } else {
-                 /* Wait for device to have some data to transmit */
-                 ctx->state = STATE_OPR;
-                 log_device("printer state done\n");
-             }
-             break;
-
-    case STATE_OPR:
-             log_device("printer opr %d\n", ctx->selected);
-
-             /* If we are selected clear select in */
-             if (ctx->selected) {
-                 *tags &= ~CHAN_SEL_OUT;
-             }
-
-             /* If we get select out with address out, reselection */
-             if (ctx->selected == 0 &&
-                *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT) &&
-                (bus_out & 0xff) == ctx->addr) {
-                /* Device selected */
-                *tags &= ~(CHAN_SEL_OUT);              /* Clear select out and in */
-                *tags |= CHAN_STA_IN;                  /* Indicate busy status */
-                *bus_in = SNS_BSY;
-                ctx->selected = 1;
-                ctx->addressed = 1;
-                log_device("printer reselect\n");
-                break;
-             }
-
-             /* On Select channel, Select Out will not drop */
-             if (ctx->selected) {
-             /* Catch halt I/O */
-                 if (*tags == (CHAN_OPR_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_OPR_IN) &&
-                      (bus_out & 0xff) == ctx->addr) {
-                      /* Halt I/O */
-                      /* Device selected */
-                      *tags &= ~(CHAN_OPR_IN);             /* Clear select out and in */
-                      ctx->data_end = 1;
-                      ctx->data_rdy = 0;
-                      ctx->selected = 0;
-                      log_device("printer Halt i/o\n");
-                      break;
-                 }
-
-                 /* Return status while waiting for Address out to drop */
-                 if (*tags == (CHAN_OPR_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_STA_IN)) {
-                    /* Device selected */
-                    *tags |= CHAN_STA_IN;                  /* Indicate busy status */
-                    *bus_in = SNS_BSY;
+            /* Start of initial selection sequence */
+    case STATE_INIT_SEL:
+            *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
+            *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
+            log_device("1443: %03x address in\n",unit->addr);
+            /* Wait for Address out to drop */
+            if ((*tags & (CHAN_ADR_OUT)) == 0) {
+                 *tags |= CHAN_ADR_IN;
+                 ctx->state = STATE_COMMAND;
+            }
+            break;
+
+     case STATE_COMMAND:
+            /* Wait for command or address out */
+            *tags &= ~(CHAN_SEL_OUT);
+            unit->request = 0;
+
+            log_device("1443: %03x waiting command %02x\n",unit->addr, ctx->status);
+            *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
+            /* we get command out, process command */
+            if ((*tags & (CHAN_CMD_OUT)) != 0) {
+                *tags &= ~(CHAN_ADR_IN);        /* Command out, drop addressin */
+                /* Check if parity error on bus */
+                if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
+                    ctx->cmd = 0;
+                    ctx->cmd_done = 0;
+                    ctx->busy = 0;
+                    ctx->data_end = 0;
+                    ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
+                    ctx->sense |= SENSE_BUSCHK;
+                    ctx->state = STATE_STATUS;
                     break;
-                 }
-
-                 /* When select out drops, clear selected flag */
-                 if ((*tags == (CHAN_OPR_OUT|CHAN_HLD_OUT|CHAN_STA_IN) ||
-                      *tags == (CHAN_OPR_OUT|CHAN_STA_IN))) {
-                      *tags &= ~(CHAN_STA_IN);             /* Clear select out and in */
-                      ctx->selected = 0;
-                      log_device("printer deselected\n");
-                      break;
-                 }
-             }
-
-             /* If data ready, try and get/send it */
-             if (ctx->data_rdy) {
-                 ctx->state = (ctx->cmd & 1) ? STATE_DATA_I : STATE_DATA_O;
-                 break;
-             }
-
-             /* If data end, tell CPU */
-             if (ctx->data_end) {
-                log_device("printer Data end\n");
-                if (ctx->cmd == 0x4) {   /* If sense, end command */
-                    ctx->status = SNS_CHNEND|SNS_DEVEND;
                 }
-
-                if ((ctx->cmd & 07) == 1) { /* If write, print the line */
-                    add_event(unit, done_callback, 2000 * print_line(ctx), NULL, 0);
-                    ctx->status |= SNS_CHNEND;
+                if (ctx->busy) {
+                    if (ctx->data_end == 0) {
+                        ctx->state = STATE_DATA_1;
+                        break;
+                    }
+                    if (ctx->status == 0) {
+                        ctx->status = SNS_BSY;
+                    }
+                    ctx->state = STATE_STATUS; /* Present status out */
+                    break;
                 }
-
-                if ((ctx->status & SNS_CHNEND) != 0) {
-                   ctx->state = STATE_DATA_END;
+                ctx->state = STATE_STATUS; /* Present status out */
+                if (!unit->stacked && ctx->status == 0) {       /* If no stacked status, process command */
+                    device_cmd(unit, bus_out & 0xff);
+                } else if ((bus_out & 0xff) != 0) {
+                    ctx->status |= SNS_BSY;     /* Command not started, status pending */
                 }
+                break;
+            }
 
-                if ((ctx->status & SNS_DEVEND) != 0) {
-                   ctx->state = STATE_END;
+            /* If we get Address out again, we need to halt */
+            if ((*tags & (CHAN_ADR_OUT)) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
+                *tags &= ~(CHAN_ADR_IN|CHAN_OPR_IN);  /* Clear select in */
+                log_device("1443: Halt %03x device\n",unit->addr);
+                device_halt(unit);
+                /* Keep asking to present status */
+                if (ctx->status != 0) {
+                    unit->request = 1;
                 }
+                ctx->state = STATE_STATUS_WAIT;
                 break;
-             }
-             break;
+            }
+
+            break;
 
-    case STATE_REQ:   /* Data available and we are not talking on channel */
-             log_device("printer Request\n");
-             if (*tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_SUP_OUT|CHAN_REQ_IN) ||
-                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_REQ_IN)) {
-                 /* Put our address on the bus */
-                 *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);        /* Clear select out and in */
-                 *tags |= CHAN_OPR_IN|CHAN_ADR_IN;            /* Put out device on request */
-                 *bus_in = ctx->addr | odd_parity[ctx->addr]; /* Put out our address */
-                 ctx->addressed = 1;
-                 log_device("printer Reselect\n");
+    /* Present initial status */
+    case STATE_STATUS:
+             /* Wait for Command out to drop */
+             *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
+             if ((*tags & CHAN_CMD_OUT) != 0) {
                  break;
              }
 
-             if (*tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_SUP_OUT|CHAN_OPR_IN|CHAN_ADR_IN) ||
-                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_OPR_IN|CHAN_ADR_IN)) {
-                 /* Put our address on the bus */
-                 *tags &= ~(CHAN_SEL_OUT);                    /* Clear select out and in */
-                 *tags |= CHAN_OPR_IN|CHAN_ADR_IN;            /* Put out device on request */
-                 *bus_in = ctx->addr | odd_parity[ctx->addr]; /* Put out our address */
-                 ctx->request = 0;
-                 ctx->addressed = 1;
-                 log_device("printer Address\n");
+             *bus_in = ctx->status | odd_parity[ctx->status];
+             log_device("1443: %03x initial status %02x\n",unit->addr, ctx->status);
+             *tags |= (CHAN_STA_IN);
+             ctx->state = STATE_STATUS_ACCEPT;    /* Wait for device to accept out status */
+             break;
+
+    /* Wait for CPU to either accept or stack status */
+    case STATE_STATUS_ACCEPT:
+             /* CPU will respond in a couple ways. */
+             *tags &= ~(CHAN_SEL_OUT);
+             *bus_in = ctx->status | odd_parity[ctx->status];
+             if ((*tags & CHAN_CMD_OUT) != 0) {      /* CPU does not want status, stack it */
+                 log_device("1443: %03x status stacked\n",unit->addr);
+                 unit->stacked = 1;
+                 ctx->state = STATE_STATUS_WAIT;
+                 *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);
                  break;
              }
+             if ((*tags & CHAN_SRV_OUT) != 0) {   /* CPU accepted the status, continue on */
+                log_device("1443: %03x status accepted\n",unit->addr);
+
+                ctx->status = 0;
+                *tags &= ~(CHAN_STA_IN);
+                /* If end of command, and status accepted, all done */
+                if (ctx->cmd_done || ctx->cmd == 0) {
+                    *tags &= ~(CHAN_OPR_IN);
+                    unit->stacked = 0;
+                    ctx->data_end = 0;
+                    ctx->cmd_done = 0;
+                    ctx->cmd = 0;
+                    ctx->busy = 0;
+                    ctx->state = STATE_STATUS_WAIT;
+                    break;
+                }
 
-             /* Check if another device is being selected */
-             if (ctx->request && (
-                *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_SUP_OUT|CHAN_ADR_OUT|CHAN_REQ_IN) ||
-                *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_REQ_IN))) {
-                *tags &= ~(CHAN_REQ_IN);
-                ctx->request = 0;
-                log_device("printer other device\n");
+                if (ctx->data_end) {
+                    unit->request = 0;
+                    unit->stacked = 0;
+                    if ((*tags & CHAN_HLD_OUT) == 0) {
+                        *tags &= ~(CHAN_OPR_IN);
+                    }
+                    ctx->state = STATE_STATUS_WAIT;
+                    break;
+                }
+                ctx->state = STATE_OPR;
                 break;
              }
-
-             /* If we got bus, go and transfer */
-             if (ctx->addressed && (*tags & CHAN_CMD_OUT) != 0) {
-                 *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);  /* Clear select out and in */
-                 ctx->selected = 1;
-                 ctx->addressed = 0;
-                 if (ctx->data_end) {
-                     ctx->state = (ctx->status & SNS_DEVEND) ? STATE_END : STATE_DATA_END;
-                 } else {
-                     ctx->state = (ctx->cmd & 1) ? STATE_DATA_I : STATE_DATA_O;
-                 }
-                 log_device("printer selected\n");
-                 break;
+             if ((*tags & CHAN_ADR_OUT) != 0) {   /* CPU wants to talk to device */
+                 ctx->state = STATE_IDLE;
+                 *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);
              }
+             break;
 
-             /* Put our address on the bus */
-             if (ctx->addressed) {
-                 *tags &= ~(CHAN_SEL_OUT);                    /* Clear select out and in */
-                 *tags |= CHAN_OPR_IN|CHAN_ADR_IN;            /* Put out device on request */
-                 *bus_in = ctx->addr | odd_parity[ctx->addr]; /* Put out our address */
-                 if (ctx->request) {                          /* Drop request in */
-                    *tags &= ~CHAN_REQ_IN;
-                    ctx->request = 0;
+    /* Wait for CPU to disconnect from channel */
+    case STATE_STATUS_WAIT:
+             *tags &= ~(CHAN_SEL_OUT);
+             if ((*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT|CHAN_ADR_OUT)) == 0) {
+                 if ((*tags & CHAN_HLD_OUT) == 0 || ctx->busy == 0) {
+                     unit->selected = 0;
+                     *tags &= ~(CHAN_OPR_IN);
+                     ctx->state = STATE_IDLE;
+                 } else {
+                     ctx->state = STATE_WAIT_DEVEND;
                  }
-                 log_device("printer Address\n");
-                 break;
              }
+             break;
 
-             /* See if another device got it. */
-             if ((*tags & (CHAN_OPR_IN|CHAN_STA_IN)) != 0) {
-                 /* Drop request out until channel free again */
-                 if (ctx->request) {
-                    *tags &= ~CHAN_REQ_IN;
-                    ctx->request = 0;
-                    log_device("printer Other device\n");
+    /* On busy, wait for channel to drop select out */
+    case STATE_BUSY:
+             *bus_in = SNS_BSY | odd_parity[SNS_BSY];
+             if ((*tags & CHAN_SEL_OUT) == 0) {
+                 *tags &= ~(CHAN_SEL_OUT|CHAN_STA_IN);
+                 unit->selected = 0;
+                 ctx->state = STATE_IDLE;
+                 /* If address out, halt device */
+                 if ((*tags & CHAN_ADR_OUT) != 0) {
+                     log_device("1443: %03x Halt IO\n",unit->addr);
+                     device_halt(unit);
                  }
-                 break;
              }
-
-             /* Put request in up */
-             *tags |= CHAN_REQ_IN;
-             ctx->request = 1;
+             *tags &= ~(CHAN_SEL_OUT);
              break;
 
-    case STATE_DATA_I:    /* Request data from Channel, wait ready */
-             /* If we are not connected, go request bus */
-             if (ctx->selected == 0) {
-                 ctx->state = STATE_REQ;
-                 break;
-             }
-
-             /* Put request in up */
-             *tags |= CHAN_OPR_IN|CHAN_SRV_IN;
-             *tags &= ~CHAN_SEL_OUT;
-
-             log_device("printer data in\n");
-             /* Wait for service out */
-             if ((*tags & (CHAN_SRV_OUT)) != 0) {
-                  /* Device selected */
-                  *tags &= ~(CHAN_SRV_IN);                  /* Clear service in */
-                  ctx->data_rdy = 0;
-                  log_device("Data %02x\n", bus_out);
-                  if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
-                      ctx->sense |= SENSE_BUSCHK;
-                      ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                      ctx->state = STATE_END;
-                  } else {
-                      ctx->data = bus_out; /* Grab data */
-                      ctx->state = STATE_INIT_STAT;       /* Wait for channel to be idle again */
-                      ctx->buf[ctx->col] = ctx->data & 0xff;
-                      ctx->col++;
-                      ctx->cnt++;
-                      ctx->data_rdy = 1;
-                      if (ctx->cnt == 3) {                /* Check if we got 4 bytes */
-                         ctx->cnt = 0;                    /* Allow other devices to grab bus */
-                         if ((*tags & (CHAN_SEL_OUT)) == 0) {
-                             *tags &= ~(CHAN_OPR_IN);     /* Clear operator in */
-                             ctx->selected = 0;           /* Drop selected flag */
-                         }
-                      }
-                      if (ctx->col == 120) {
-                         ctx->data_rdy = 0;
-                         ctx->data_end = 1;
-                      }
-                  }
+    /* Present ending status to CPU */
+    case STATE_END_STATUS:
+             *tags &= ~(CHAN_SEL_OUT);
+             /* Wait for both command out and service out to drop */
+             if ((*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT)) != 0) {
                   break;
              }
 
-             /* Command out to service in indicates end of data */
-             if ((*tags & (CHAN_CMD_OUT)) != 0) {
-                 *tags &= ~(CHAN_SEL_OUT|CHAN_SRV_IN);  /* Count reached zero, no more accepted */
-                  log_device("printer Data End\n");
-                 ctx->data_rdy = 0;
-                 ctx->data_end = 1;
-                 ctx->state = STATE_INIT_STAT;           /* Back to operation. */
-                 break;
-             }
-             /* Put request in up */
-             *tags |= CHAN_OPR_IN|CHAN_SRV_IN;
-             /* If we are selected clear select in */
-             if (ctx->selected)
-                 *tags &= ~CHAN_SEL_OUT;
-
-              break;
-
-    case STATE_DATA_O:    /* Request to send data to channel */
-             log_device("Printer Data output %02x %d\n", ctx->data, ctx->selected);
-             /* If we are not connected, go request bus */
-             if (ctx->selected == 0) {
-                 ctx->state = STATE_REQ;
-                 break;
-             }
-
-             *tags &= ~CHAN_SEL_OUT;
-             *tags |= CHAN_OPR_IN|CHAN_SRV_IN;
-             *bus_in = ctx->data | odd_parity[ctx->data];
+             *bus_in = ctx->status | odd_parity[ctx->status];
+             *tags |= (CHAN_STA_IN);
 
-             /* Wait for data to be accepted */
-             if ((*tags & (CHAN_SRV_OUT)) != 0) {
-                  *tags &= ~(CHAN_SRV_IN);            /* Clear service in */
-                  ctx->data_rdy = 0;
-                  ctx->state = STATE_INIT_STAT;       /* Wait for channel to be idle again */
-                  log_device("Printer Data sent\n");
-             }
-             if ((*tags & (CHAN_CMD_OUT)) != 0) {
-                  *tags &= ~(CHAN_SRV_IN);            /* Count reached zero, no more accepted */
-                  ctx->data_rdy = 0;
-                  ctx->data_end = 1;
-                  ctx->state = STATE_INIT_STAT;       /* Back to operation. */
-                  log_device("printer Data End\n");
-                  break;
-             }
+             log_device("1443: %03x %02x end status %d\n",unit->addr, ctx->status, unit->request);
+             ctx->state = STATE_END_ACCEPT;    /* Wait for CPU to accept out status */
              break;
 
-    case STATE_DATA_END:  /* Send channel end to channel indicating end of data */
-             if (ctx->selected == 0) {  /* Request bus if we don't have it */
-                 ctx->state = STATE_REQ;
-                 break;
-             }
+     /* Wait for CPU to accept or stack status */
+     case STATE_END_ACCEPT:
+             *tags &= ~(CHAN_SEL_OUT);
 
              *bus_in = ctx->status | odd_parity[ctx->status];
-             /* Mark channel still in use */
-             *tags &= ~(CHAN_SEL_OUT);  /* Clear select out and in */
-             *tags |= CHAN_OPR_IN;
-
-             /* Wait for Service out to drop */
-             if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == (CHAN_SRV_OUT)) {
+             /* CPU does not want status right now. stack it */
+             if ((*tags & CHAN_CMD_OUT) != 0) {
+                 log_device("1443: %03x status stacked %d\n",unit->addr, unit->request);
+                 unit->stacked = 1;
+                 ctx->state = STATE_STATUS_WAIT;
+                 *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
                  break;
              }
 
-             if ((*tags & (CHAN_SRV_OUT)) == 0) {
-                 *tags |= CHAN_OPR_IN|CHAN_STA_IN;
-                 log_device("printer End channel status %02x %02x\n", ctx->status, ctx->cmd);
+             /* Channel halted us, keep status until asked for */
+             if ((*tags & CHAN_ADR_OUT) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
+                 unit->request = 1;
+                 ctx->state = STATE_STATUS_WAIT;
+                 *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
                  break;
              }
 
-             /* Service out indicates status was excepted. If Suppress out, then command chaining */
-             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
-                 if ((*tags & CHAN_HLD_OUT) == 0) {
-                      ctx->selected = 0;
+             /* CPU accepted status */
+             if ((*tags & CHAN_SRV_OUT) != 0) {
+
+                 log_device("1443: %03x status accepted %d\n",unit->addr, unit->request);
+                 ctx->status = 0;
+                 /* If end of command, and status accepted, all done */
+                 if (ctx->cmd_done) {
+                     *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
+                     unit->stacked = 0;
+                     ctx->cmd = 0;
+                     ctx->cmd_done = 0;
+                     ctx->busy = 0;
+                     ctx->data_end = 0;
+                     ctx->state = STATE_STATUS_WAIT;
+                     break;
                  }
-                 *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);  /* Clear select out and in */
-                 /* If Command out, stack the status */
-                 if ((*tags & (CHAN_CMD_OUT)) != 0) {
-                     ctx->stacked = 1;
+
+                 if (ctx->data_end) {
+                     unit->request = 0;
+                     unit->stacked = 0;
+                     *tags &= ~(CHAN_STA_IN);
+                     /* Hold selector channel until device end */
+                     if ((*tags & CHAN_HLD_OUT) == 0) {
+                         *tags &= ~(CHAN_OPR_IN);
+                     }
+                     ctx->state = STATE_STATUS_WAIT;
+                     break;
                  }
-                 if ((*tags & (CHAN_SRV_OUT)) != 0) {
-                     ctx->status &= ~SNS_CHNEND;
+                 /* Check if on selector channel */
+                 if ((*tags & CHAN_HLD_OUT) != 0) {
+                     *tags &= ~(CHAN_STA_IN);
+                     ctx->state = STATE_WAIT_DEVEND;
+                 } else {
+                     /* Otherwise wait disconnect and let device connect when done */
+                     *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
+                     ctx->state = STATE_STATUS_WAIT;
                  }
-                 ctx->state = STATE_WAIT;              /* Wait for device to be done */
-                 log_device("printer Accepted data_end\n");
-                 break;
              }
              break;
 
-    case STATE_END:   /* Post device end to channel */
-             if (ctx->selected == 0) {  /* Request bus if we don't have it */
-                 ctx->state = STATE_REQ;
+      /* Wait on device to finish, before posting status */
+      case STATE_WAIT_DEVEND:
+            log_device("1443: %03x wait end b=%d cd=%d %02x %02x\n",unit->addr,
+                ctx->busy, ctx->cmd_done, ctx->cmd, ctx->status);
+             *tags &= ~(CHAN_SEL_OUT);
+             /* Channel no longer waiting for us, let go of it */
+             if ((*tags & CHAN_HLD_OUT) == 0) {
+                 unit->selected = 0;
+                 *tags &= ~(CHAN_OPR_IN);
+                 ctx->state = STATE_IDLE;
                  break;
              }
-
-             /* Mark channel still in use */
-             *tags &= ~(CHAN_SEL_OUT);  /* Clear select out and in */
-             *tags |= CHAN_OPR_IN;
-
-             /* Wait for Service out to drop */
-             if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == (CHAN_SRV_OUT)) {
-                 break;
+             if (ctx->cmd_done) {
+                 unit->request = 0;
+                 ctx->state = STATE_STATUS;
              }
+             break;
 
-             if (ctx->busy_flag) {
-                ctx->status |= SNS_CTLEND;
+      /* Handle normal operations */
+      case STATE_OPR:
+             log_device("1443: %03x opr %d r=%d e=%d d=%d\n",unit->addr, unit->selected,
+                     ctx->data_rdy, ctx->data_end, ctx->disconnect);
+             unit->request = 0;
+             *tags &= ~(CHAN_SEL_OUT);
+
+             /* If address out, halt device */
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                 device_halt(unit);
+                 *tags &= ~(CHAN_OPR_IN);
+                 unit->selected = 0;
+                 ctx->state = STATE_IDLE;
+                 break;
              }
 
-             *bus_in = ctx->status | odd_parity[ctx->status];
-
-             /* Wait for Service out to drop */
-             if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == 0) {
-                 log_device("printer End status %02x %02x\n", ctx->status, ctx->cmd);
-                 *tags |= CHAN_STA_IN;
-                 if (ctx->sense != 0) {
-                     ctx->status |= SNS_UNITCHK;
-                 }
-                 ctx->cmd = 0;
+             /* Let other devices have multiplexor channel */
+             if (ctx->disconnect && (*tags & CHAN_HLD_OUT) == 0) {
+                 ctx->disconnect = 0;
+                 *tags &= ~(CHAN_OPR_IN);
+                 unit->selected = 0;
+                 unit->request = 1;
+                 ctx->state = STATE_IDLE;
                  break;
              }
 
-             /* Service out indicates status was excepted. If Suppress out, then command chaining */
-             if ((*tags & (CHAN_SRV_OUT)) != 0) {
-                 *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);  /* Clear select out and in */
-                 log_device("printer Accepted end\n");
-                 ctx->selected = 0;
-                 ctx->busy_flag = 0;
-                 ctx->state = STATE_IDLE;              /* All done, back to idle state */
+             /* If data ready, try and get/send it */
+             if (ctx->data_rdy) {
+                 ctx->state = STATE_DATA_1;
                  break;
              }
 
-             /* Command out to status in indicates a stacking of status */
-             if ((*tags & (CHAN_CMD_OUT)) != 0) {
-                 *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);  /* Clear select out and in */
-                  log_device("printer Stacked\n");
-                  ctx->selected = 0;
-                  ctx->stacked = 1;
-                  ctx->state = STATE_STACK;            /* Stack status */
-                  break;
+             /* If sense command advance counter */
+             if (ctx->cmd == 0x04) {
+                 ctx->disconnect = 0;
+                 if (ctx->data_rdy == 0) {
+                     ctx->data_end = 1;
+                     ctx->cmd_done = 1;
+                     ctx->busy = 0;
+                     ctx->status |= SNS_CHNEND|SNS_DEVEND;
+                }
              }
 
-             log_device("printer End status ready\n");
-             break;
-
-    case STATE_STACK:
-             /* Wait until Channels asks for us */
-             if (*tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT) ||
-                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_SUP_OUT) ||
-                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_REQ_IN) ||
-                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_REQ_IN|CHAN_SUP_OUT)) {
-                  if ((bus_out & 0xff) == ctx->addr) {
-                      /* Device selected */
-                      if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0)
-                          ctx->sense |= SENSE_BUSCHK;
-                      *tags &= ~(CHAN_SEL_OUT);      /* Clear select out and in */
-                      *tags |= CHAN_OPR_IN;
-                      ctx->state = STATE_STACK_SEL;
-                      ctx->addressed = 1;
-                      log_device("printer stack selected\n");
-                  }
+             /* If at end of data or command, present status */
+             if (ctx->data_end || ctx->cmd_done) {
+                 ctx->state = STATE_END_STATUS;
+                 break;
              }
 
-             /* If stacked and cmd done, try to return status */
-             if (ctx->stacked && ctx->feed_done && *tags == (CHAN_OPR_OUT)) {
-                 ctx->state = STATE_REQ;
-             }
              break;
 
-    case STATE_STACK_SEL:
-             /* If we are selected, drop select out to rest of channel */
-             if (ctx->addressed || ctx->selected) {
-                 *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-                 *tags |= CHAN_OPR_IN;
-             }
-
-             /* When address out drops put our address on bus in */
-             if (ctx->addressed && (*tags & (CHAN_ADR_OUT|CHAN_CMD_OUT)) == 0) {
-                  *tags |= CHAN_ADR_IN;      /* Return address until accepted */
-                  *bus_in = ctx->addr | odd_parity[ctx->addr];
-                  ctx->addressed = 0;
-                  ctx->selected = 1;         /* Mark us as selected */
-                  log_device("printer address\n");
+      case STATE_DATA_1:      /* Send or recieve data from CPU */
+             *tags &= ~CHAN_SEL_OUT;
+             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
+                  /* Wait for service out and command out to drop */
                   break;
              }
-
-             /* Wait for Command out to raise, give our address */
-             if (ctx->selected) {
-                  *bus_in = ctx->addr | odd_parity[ctx->addr];
-
-                 /* Can now drop address in */
-                 if ((*tags & (CHAN_CMD_OUT)) != 0) {
-                      log_device("printer stack command %02x\n", bus_out);
-                      ctx->state = STATE_STACK_CMD;
-                      *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);                 /* Clear address in */
-                      if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
-                          ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                          ctx->sense |= SENSE_BUSCHK;
-                      }
-                 }
+             if ((*tags & CHAN_SUP_OUT) != 0) {
+                 /* If suppress out on, wait until sending request */
+                 break;
              }
+             *tags |= CHAN_SRV_IN;   /* Request tranfer */
+             *bus_in = ctx->data | odd_parity[ctx->data];
+             ctx->state = STATE_DATA_2;
              break;
 
-    case STATE_STACK_CMD:
-             *bus_in = ctx->status | odd_parity[ctx->status];   /* Set initial status */
-             *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-             *tags |= CHAN_OPR_IN;
-
-             /* Wait for Command out to drop */
-             /* On MPX channel select out will drop, along with command */
-             if ((*tags == (CHAN_CMD_OUT)) == 0) {
-                  *tags |= CHAN_OPR_IN|CHAN_STA_IN;     /* Wait for acceptance of status */
-                  ctx->state = STATE_STACK_STA;
-                  log_device("printer stack init stat %02x\n", ctx->status);
+      case STATE_DATA_2:      /* Complete transfer */
+             *tags &= ~CHAN_SEL_OUT;
+             *bus_in = ctx->data | odd_parity[ctx->data];
+             /* If address out, halt device */
+             if ((*tags & CHAN_ADR_OUT) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
+                 *tags &= ~(CHAN_SRV_IN|CHAN_OPR_IN);
+                 device_halt(unit);
+                 unit->selected = 0;
+                 ctx->state = STATE_IDLE;
+                 break;
              }
-             break;
-
-    case STATE_STACK_STA:
-             *bus_in = ctx->status | odd_parity[ctx->status];   /* Set initial status */
-             *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-             *tags |= CHAN_OPR_IN;
-
-            /* Wait for Service out to raise, status accepted */
              if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
-                 *tags &= ~(CHAN_STA_IN|CHAN_SEL_OUT);
-                 if ((*tags & (CHAN_CMD_OUT)) != 0) {
-                     ctx->stacked = 1;
+                 /* Wait for service out or command out */
+                 *tags &= ~(CHAN_SRV_IN);   /* Clear service in request */
+                 ctx->data_rdy = 0;
+                 if ((ctx->cmd & 1) != 0 && (*tags & CHAN_SRV_OUT) != 0) { /* Write command */
+                      /* Device selected */
+                      if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
+                          ctx->sense |= SENSE_BUSCHK;
+                          ctx->status |= (SNS_UNITCHK);
+                          ctx->data_end = 1;
+                          ctx->status |= SNS_CHNEND|SNS_DEVEND;
+                          ctx->busy = 0;
+                          ctx->cmd_done = 1;
+                      } else {
+                          device_data(unit, bus_out & 0xff);
+                      }
                  }
-                 if ((*tags & (CHAN_SRV_OUT)) != 0) {
-                     ctx->stacked = 0;
-                     ctx->status &= ~SNS_CHNEND;
+                 ctx->state = STATE_OPR;   /* Go to process this data */
+                 if ((*tags & CHAN_CMD_OUT) != 0) {  /* CPU is done sending data */
+                     device_stop(unit);
                  }
-                 ctx->state = STATE_STACK_HLD;
-                 log_device("printer stack init stat %02x done\n", ctx->status);
-                 break;
              }
              break;
-
-    case STATE_STACK_HLD:
-             /* If we are selected, drop select out to rest of channel */
-             *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-             *tags |= CHAN_OPR_IN;
-
-             /* Wait for Service/command out to drop */
-             if ((*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT)) == 0) {
-                 if (ctx->stacked) {
-                     if (ctx->feed_done) {
-                        ctx->state = STATE_STACK;
-                     } else {
-                        ctx->state = STATE_WAIT;
-                     }
-                 } else {
-                     ctx->state = STATE_IDLE;
-                 }
-                 *tags &= ~CHAN_OPR_IN;
-                 ctx->selected = 0;
-                 log_device("printer stack done\n");
-             }
-             break;
-
-    case STATE_WAIT:
-             /* If we get select out with address out, reselection */
-             if (!ctx->selected &&
-                 (*tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT) ||
-                  *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_SUP_OUT|CHAN_ADR_OUT)) &&
-                 (bus_out & 0xff) == ctx->addr) {
-                /* Device selected */
-                *tags |= CHAN_STA_IN;
-                *tags &= ~(CHAN_SEL_OUT);                 /* Clear select out and in */
-                *bus_in = 0x100 | SNS_SMS | SNS_BSY;
-                ctx->busy_flag = 1;
-                ctx->addressed = 1;
-                log_device("wait select attempt\n");
-             }
-
-             /* If selected clear status in when select out drops */
-             if (ctx->addressed) {
-                /* Device selected */
-                *tags &= ~(CHAN_SEL_OUT);          /* Clear status in */
-                *tags |= CHAN_STA_IN;
-                *bus_in = 0x100 | SNS_SMS | SNS_BSY;
-                log_device("wait selected\n");
-
-                if ((*tags & CHAN_HLD_OUT) == 0) {
-                   /* Device selected */
-                   *tags &= ~(CHAN_SEL_OUT|CHAN_STA_IN);          /* Clear status in */
-                   ctx->addressed = 0;
-                   log_device("wait status received\n");
-                }
-             }
-
-             if (ctx->feed_done) {
-                 log_device("printer feed done\n");
-                 ctx->status |= SNS_DEVEND;
-                 ctx->state = STATE_END;
-             }
-             break;
-
     }
-    if (ctx->selected)
-        log_device("bus in %03x\n", *bus_in);
 }
 
 
@@ -1015,7 +839,7 @@ print_line(struct _1443_context *ctx)
         }
         if (ch12 && (ctx->cmd & 0x3) == 0x1) {
         log_device( " Printer chan 12\n");
-           ctx->status |= SNS_UNITEXP;
+           ctx->chan12 = 1;
         }
         time += 20 + (5 * r);
         return time;
@@ -1062,7 +886,6 @@ model1443_create(struct _option *opt)
      lpr->addr = (opt->addr & 0xff);
      lpr->chan = (opt->addr >> 8) & 0xf;
      lpr->state = STATE_IDLE;
-     lpr->selected = 0;
      lpr->sense = 0;
      lpr->file_name = NULL;
      lpr->form = 1;
diff --git a/src/model1443/model1443.h b/src/model1443/model1443.h
index d0ebdb2..7069ab0 100644
--- a/src/model1443/model1443.h
+++ b/src/model1443/model1443.h
@@ -43,17 +43,16 @@ struct _1443_context {
     int                    chan;         /* Channel address */
     int                    state;        /* Current channel state */
     int                    selected;     /* Device currently selected */
-    int                    request;      /* Requested channel */
-    int                    addressed;    /* Device has been addressed */
-    int                    stacked;      /* Stacked status */
-    int                    busy_flag;    /* If we returned fast busy */
     int                    sense;        /* Current sense value */
     int                    cmd;          /* Current command */
     int                    status;       /* Current bus status */
     int                    data;         /* Current byte to send/recieve */
     int                    data_rdy;     /* Data is valid */
     int                    data_end;     /* End of data transfer */
-    int                    feed_done;    /* Done with paper feed */
+    int                    cmd_done;     /* Command finished */
+    int                    busy;         /* Command in progress */
+    int                    disconnect;   /* Release multiplexor channel */
+    int                    chan12;       /* Channel 12 passed over */
     FILE                  *file;         /* Output file. */
     char                  *file_name;    /* Attached file name */
     int                    buf[144];     /* Line buffer */
-- 
2.43.0


From 32fd40449515ddadb227b02186eaba2d87aac994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 044/108] fix: 1443: operator keys upset running command or
 crashed without paper, START did not signal ready

---
 src/model1443/panel1443.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/model1443/panel1443.c b/src/model1443/panel1443.c
index 67fe031..780b9df 100644
--- a/src/model1443/panel1443.c
+++ b/src/model1443/panel1443.c
@@ -140,14 +140,18 @@ static void
     struct _1443_callback_args *data = (struct _1443_callback_args *)args;
     struct _device *unit = (struct _device *)data->unit;
     struct _1443_context *ctx = (struct _1443_context *)unit->dev;
+    /* Keys have no effect while a command is in progress */
+    int idle = ctx->state == STATE_IDLE && ctx->busy == 0 && ctx->cmd == 0;
     char *name;
-    int r;
 
     switch (iarg) {
     case 0:  /* Start Key */
-          if (ctx->state == STATE_IDLE && ctx->file != NULL) {
-              ctx->status |= SNS_DEVEND;
-              ctx->data_end = 1;
+          if (idle && ctx->file != NULL) {
+              /* Tell channel that printer became ready */
+              if (ctx->ready == 0) {
+                  ctx->status |= SNS_DEVEND;
+                  unit->request = 1;
+              }
               ctx->stop = 0;
               ctx->single = 0;
               ctx->ready = 1;
@@ -155,7 +159,7 @@ static void
           break;
 
     case 1:  /* Check Reset */
-          if (ctx->state == STATE_IDLE) {
+          if (idle) {
               ctx->sense = 0;
           }
           break;
@@ -167,7 +171,7 @@ static void
           break;
 
     case 3: /* Carriage Space */
-          if (ctx->ready == 0) {
+          if (ctx->ready == 0 && ctx->file != NULL && idle) {
               ctx->cmd = 0x0b;
               (void)print_line(ctx);
               ctx->cmd = 0x0;
@@ -175,7 +179,7 @@ static void
           break;
 
     case 4: /* Carriage Restore */
-          if (ctx->ready == 0) {
+          if (ctx->ready == 0 && ctx->file != NULL && idle) {
               ctx->cmd = 0x8b;
               (void)print_line(ctx);
               ctx->cmd = 0x0;
@@ -183,7 +187,11 @@ static void
           break;
 
     case 5: /* Single Cycle */
-          if (ctx->state == STATE_IDLE && ctx->file != NULL) {
+          if (idle && ctx->file != NULL) {
+              if (ctx->ready == 0) {
+                  ctx->status |= SNS_DEVEND;
+                  unit->request = 1;
+              }
               ctx->single = 1;
               ctx->ready = 1;
           }
@@ -207,6 +215,8 @@ static void
              }
              strcpy(ctx->file_name, name);
              ctx->form = 0;
+          } else {
+             ctx->ready = 0;
           }
           break;
     }
-- 
2.43.0


From a5f11027759e7e4039d04282eb61bea5a6821361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 045/108] fix: model2415 finishes reads, writes, spacing and
 rewinds on the tape, 7-track frames included

---
 src/model2415/model2415.c | 348 +++++++++++++++++++++-----------------
 src/model2415/model2415.h |   2 +
 2 files changed, 197 insertions(+), 153 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 8410eab..f837c9f 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -134,6 +134,38 @@ DEV_LIST_STRUCT(2415, CTRL_TYPE, CHAR_OPT|NUM_MOD);
 #define MT_TRANS        0x02  /* Translation turned on ignored 9 track  */
 #define MT_CONV         0x04  /* Data converter on ignored 9 track  */
 
+/* Check if channel is looking at status of device */
+static int
+status_out(struct _2415_context *ctx)
+{
+    return ctx->state == STATE_STATUS || ctx->state == STATE_STATUS_ACCEPT ||
+           ctx->state == STATE_END_STATUS || ctx->state == STATE_END_ACCEPT;
+}
+
+static void done_callback(struct _device *unit, void *arg, int u);
+
+/* Tape reached load point, or was removed on the way */
+static void
+rewind_done(struct _device *unit, struct _tape_buffer *tape, int u)
+{
+    struct _2415_context *ctx = (struct _2415_context *)unit->dev;
+
+    log_device("Rewind done %d\n", u);
+    ctx->rew_flags &= ~(1 << u);
+    if (ctx->run_flags & (1 << u)) {
+        log_device("Detach device %d\n", u);
+        tape_detach(tape);
+        ctx->run_flags &= ~(1 << u);
+    } else if (ctx->cur_unit == u && ctx->busy && ctx->cmd == 0x07) {
+        log_device("Rewind finished %d\n", u);
+        done_callback(unit, (void *)tape, u);
+    } else if ((ctx->rst_flags & (1 << u)) == 0) {
+        ctx->rdy_flags |= 1 << u;
+        log_device("Rewind ready device %d\n", u);
+    }
+    ctx->rst_flags &= ~(1 << u);
+}
+
 void
 model2415_rewind_callback(struct _device *unit, void *arg, int u)
 {
@@ -144,26 +176,8 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
     if (tape->pos_frame <= (5 * 12 * 1600)) {
        log_device("Rewind Low speed %02x %02x\n", ctx->rew_flags, ctx->rdy_flags);
        r = tape_rewind_frames(tape, 1);
-       if (r == TAPE_STATUS_BOT) {
-           log_device("Rewind done %d\n", u);
-           ctx->rew_flags &= ~(1 << u);
-           if (ctx->run_flags & (1 << u)) {
-               log_device("Detach device %d\n", u);
-               tape_detach(tape);
-               ctx->run_flags &= ~(1 << u);
-           } else if (ctx->cur_unit == u && ctx->state != STATE_IDLE) {
-               if (ctx->chaining) {
-                   log_device("Chain done device %d\n", u);
-               }
-               ctx->status |= SNS_DEVEND;
-               ctx->status &= ~(SNS_CTLEND|SNS_UNITCHK);
-               ctx->cmd = 0;
-               ctx->cmd_done = 1;
-               log_device("Rewind finished %d\n", u);
-           } else {
-               ctx->rdy_flags |= 1 << u;
-               log_device("Rewind ready device %d\n", u);
-           }
+       if (r != TAPE_STATUS_OK) {
+           rewind_done(unit, tape, u);
        } else {
            add_event(unit, &model2415_rewind_callback, FRAME_DELAY, arg, u);
        }
@@ -172,23 +186,8 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
 
     log_device("Rewind high speed  %02x %02x\n", ctx->rew_flags, ctx->rdy_flags);
     r = tape_rewind_frames(tape, REW_FRAME);
-    if (r == TAPE_STATUS_BOT) {
-        log_device("Rewind done %d\n", u);
-        ctx->rew_flags &= ~(1 << u);
-        if (ctx->run_flags & (1 << u)) {
-            tape_detach(tape);
-            ctx->run_flags &= ~(1 << u);
-        } else if (ctx->cur_unit == u && ctx->state != STATE_IDLE) {
-            if (ctx->chaining) {
-                log_device("Chain done device %d\n", u);
-            }
-            ctx->status |= SNS_DEVEND;
-            ctx->cmd = 0;
-            ctx->status &= ~(SNS_CTLEND|SNS_UNITCHK);
-            ctx->cmd_done = 1;
-        } else {
-            ctx->rdy_flags |= 1 << u;
-        }
+    if (r != TAPE_STATUS_OK) {
+        rewind_done(unit, tape, u);
     } else {
         add_event(unit, &model2415_rewind_callback, REWIND_DELAY, arg, u);
     }
@@ -199,14 +198,38 @@ done_callback(struct _device *unit, void *arg, int u)
 {
     struct _2415_context *ctx = (struct _2415_context *)unit->dev;
 
+    /* Status on bus, do not change it until channel takes it */
+    if (status_out(ctx)) {
+        add_event(unit, &done_callback, 10, arg, u);
+        return;
+    }
     ctx->cmd_done = 1;
-    if ((ctx->cmd & 0x3) == 0x3) {
-        ctx->rdy_flags |= 1 << u;  /* Set ready flag for device */
+    ctx->busy = 0;
+    unit->request = 1;
+    if ((ctx->cmd & 0x3) != 0x3) {
+        ctx->status |= SNS_CHNEND;
     }
-    ctx->status |= SNS_DEVEND;
+    ctx->status |= ctx->end_status | SNS_DEVEND;
+    ctx->end_status = 0;
     log_device("Do done command %d %d %02x\n", ctx->data_end, ctx->data_rdy, ctx->status);
 }
 
+/* Error during operation, report it at end */
+static void
+tape_error(struct _2415_context *ctx, int sense)
+{
+    ctx->sense[0] |= sense;
+    ctx->end_status |= SNS_UNITCHK;
+}
+
+/* Character of record on 7 track tape */
+static uint8_t
+frame7(struct _2415_context *ctx, uint8_t data)
+{
+    data &= 077;
+    return data | (parity_table[data] ^ ((ctx->mode7 & MT_ODD) ? 0100 : 0));
+}
+
 static void
 tape_callback(struct _device *unit, void *arg, int u)
 {
@@ -228,9 +251,14 @@ tape_callback(struct _device *unit, void *arg, int u)
     case 0xD: /* Write */
            log_device("Do write command %d %d %d\n", ctx->data_end, ctx->data_rdy, ctx->state);
            if (ctx->data_end) {
+               /* No data at all, leave tape alone */
+               if ((ctx->sense[0] & SENSE_WCZERO) != 0) {
+                   tape_error(ctx, 0);
+                   add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
+                   break;
+               }
                /* If 7 track and conversion, write last character */
-               if (!tape_9_track(ctx->tape[ctx->cur_unit]) && (ctx->mode7 & MT_CONV) != 0) {
-                   uint8_t   mode = (ctx->mode7 & MT_ODD) ? 0 : 0x100;
+               if (!tape_9_track(tape) && (ctx->mode7 & MT_CONV) != 0) {
                    switch(ctx->cc) {
                    case 0:   /* ----76 543210 */
                              /*     xx ^^^^^^ */
@@ -238,84 +266,95 @@ tape_callback(struct _device *unit, void *arg, int u)
 
                    case 1:   /* --76543210 76 */
                              /*   xxxx^^^^ ^^ */
-                       ctx->data = (ctx->cbuffer & 03) << 4;
+                       if (tape_write_frame(tape, frame7(ctx, (ctx->cbuffer & 03) << 4)) != TAPE_STATUS_OK)
+                           tape_error(ctx, SENSE_EQUCHK);
                        break;
 
                    case 2:    /* 76543210 7654 */
                               /* xxxxxx^^ ^^^^ */
-                       ctx->data = (ctx->cbuffer & 0xf) << 2;
-                       ctx->data_rdy = 1;
+                       if (tape_write_frame(tape, frame7(ctx, (ctx->cbuffer & 0xf) << 2)) != TAPE_STATUS_OK)
+                           tape_error(ctx, SENSE_EQUCHK);
                        break;
 
                    case 3:    /* ---- 765432 */
-                       ctx->data = ctx->cbuffer;
-                       ctx->data_rdy = 1;
+                       if (tape_write_frame(tape, frame7(ctx, ctx->cbuffer)) != TAPE_STATUS_OK)
+                           tape_error(ctx, SENSE_EQUCHK);
                        break;
                    }
-                   ctx->data &= 077;
-                   ctx->data |= parity_table[ctx->data] ^ mode;
-                   if (ctx->data_rdy) {
-                      r = tape_write_frame(tape, ctx->data);
-                   }
                }
                r = tape_finish_rec(tape);
+               if (r == TAPE_STATUS_FILE_ERROR) {
+                   tape_error(ctx, SENSE_EQUCHK);
+               }
                add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
            } else if (ctx->data_rdy == 0) {
+              uint8_t    data = ctx->data;
+              int        next = 1;
+
               /* Do a write start */
-               ctx->sense[0] &= ~(SENSE_WCZERO);
-               if (!tape_9_track(ctx->tape[ctx->cur_unit])) {
-                   uint8_t   mode = (ctx->mode7 & MT_ODD) ? 0 : 0x100;
+              if ((ctx->sense[0] & SENSE_WCZERO) != 0) {
+                  r = tape_write_start(tape);
+                  if (r != TAPE_STATUS_OK) {
+                      tape_error(ctx, SENSE_EQUCHK);
+                      ctx->data_end = 1;
+                      add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
+                      break;
+                  }
+                  ctx->sense[0] &= ~(SENSE_WCZERO);
+              }
+              if (!tape_9_track(tape)) {
                    if (ctx->mode7 & MT_TRANS) {
-                       ctx->data = ((ctx->data & 0x30) ^ 0x30) | (ctx->data & 0xf);
-                       ctx->data_rdy = 1;
+                       data = ((data & 0x30) ^ 0x30) | (data & 0xf);
                    }
                    if (ctx->mode7 & MT_CONV) {
                        uint8_t    t;
                        switch(ctx->cc) {
                        case 0:   /* ----76 543210 */
                                  /*     ^^ ^^^^XX */
-                           ctx->cbuffer = ctx->data & 3;
-                           ctx->data >>= 2;
-                           ctx->data_rdy = 1;
+                           ctx->cbuffer = data & 3;
+                           data >>= 2;
                            ctx->cc++;
                            break;
 
                        case 1:   /* --76543210 10 */
                                  /*   ^^^^^^^^ ^^ */
                            t = ctx->cbuffer;
-                           ctx->cbuffer = (ctx->data & 0xf);
-                           ctx->data = (t << 4) | ((ctx->data >> 4) & 0xf);
-                           ctx->data_rdy = 1;
+                           ctx->cbuffer = (data & 0xf);
+                           data = (t << 4) | ((data >> 4) & 0xf);
                            ctx->cc++;
                            break;
 
                        case 2:    /* 76543210 7654 */
                                   /* xxxxxx^^ ^^^^ */
                            t = ctx->cbuffer;
-                           ctx->cbuffer = ctx->data & 077;
-                           ctx->data = (t << 2) | ((ctx->data >> 6) & 0x3);
-                           ctx->data_rdy = 1;
+                           ctx->cbuffer = data & 077;
+                           data = (t << 2) | ((data >> 6) & 0x3);
+                           /* Next character is already here */
+                           next = 0;
                            ctx->cc++;
                            break;
 
                        case 3:    /* ---- 765432 */
-                           ctx->data = ctx->cbuffer;
-                           ctx->data_rdy = 1;
+                           data = ctx->cbuffer;
                            ctx->cc = 0;
                            break;
                       }
                    }
-                   ctx->data &= 077;
-                   ctx->data |= parity_table[ctx->data] ^ mode;
-               } else {
-                   r = tape_write_frame(tape, ctx->data);
-                   ctx->data_rdy = 1;
-               }
-               add_event(unit, tape_callback, FRAME_DELAY, (void *)tape, u);
+                   data = frame7(ctx, data);
+              }
+              r = tape_write_frame(tape, data);
+              if (r != TAPE_STATUS_OK) {
+                  tape_error(ctx, SENSE_EQUCHK);
+                  ctx->data_end = 1;
+              } else {
+                  ctx->data_rdy = next;
+              }
+              add_event(unit, tape_callback, FRAME_DELAY, (void *)tape, u);
            } else {
                /* If no more data, all is ok */
-               ctx->sense[0] |= SENSE_OVRRUN;
+               tape_error(ctx, SENSE_OVRRUN);
                ctx->data_end = 1;
+               ctx->data_rdy = 0;
                add_event(unit, tape_callback, FRAME_DELAY * 4, (void *)tape, u);
            }
            break;
@@ -328,13 +367,17 @@ tape_callback(struct _device *unit, void *arg, int u)
               the rest of the data */
            log_device("Do read command %d %d %d\n", ctx->data_end, ctx->data_rdy, ctx->state);
            if (ctx->data_end) {
-               r = tape_read_frame(tape, &ctx->data);
+               uint8_t  data;
+
+               r = tape_read_frame(tape, &data);
                log_device("Tape read frame dataend %d\n", r);
                if (r != TAPE_STATUS_OK) {
                    /* Process end */
                    r = tape_finish_rec(tape);
                    log_device("Tape finish read %d\n", r);
-                   ctx->status |= SNS_CHNEND;
+                   if (r == TAPE_STATUS_FILE_ERROR) {
+                       tape_error(ctx, SENSE_EQUCHK);
+                   }
                    add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                } else {
                    add_event(unit, tape_callback, FRAME_DELAY, (void *)tape, u);
@@ -342,47 +385,32 @@ tape_callback(struct _device *unit, void *arg, int u)
            } else if (ctx->data_rdy) {
                log_device("Tape read frame overrun \n");
                ctx->data_end = 1;
-               ctx->sense[0] |= SENSE_OVRRUN;
-               ctx->status |= SNS_CHNEND|SNS_UNITCHK;
-               add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
+               ctx->data_rdy = 0;
+               tape_error(ctx, SENSE_OVRRUN);
+               add_event(unit, tape_callback, FRAME_DELAY, (void *)tape, u);
            } else {
-               r = tape_read_frame(tape, &ctx->data);
+               uint8_t  data = 0;
+
+               r = tape_read_frame(tape, &data);
                log_device("Tape read frame %d\n", r);
                switch(r) {
                case TAPE_STATUS_FILE_ERROR:
+               default:
                    /* Set up read error */
-                    break;
+                   tape_error(ctx, SENSE_EQUCHK);
+                   ctx->data_end = 1;
+                   add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
+                   break;
 
                case TAPE_STATUS_EOT:
                case TAPE_STATUS_BOT:
                case TAPE_STATUS_EOB:
                    /* End of record */
                    add_event(unit, tape_callback, FRAME_DELAY * 4, (void *)tape, u);
-                   if (!tape_9_track(ctx->tape[ctx->cur_unit])) {
-                       if (ctx->mode7 & MT_CONV) {
-                           switch(ctx->cc) {
-                           case 0:   /* ------ BA8421 */
-                               ctx->cbuffer = ctx->data;
-                               ctx->data_rdy = 1;
-                               break;
-
-                           case 1:   /* BA8421 BA8421 */
-                                     /*     ^^ ^^^^^^ */
-                               ctx->cbuffer >>= 8;
-                               ctx->data = (ctx->cbuffer & 0x0f);
-                               ctx->data_rdy = 1;
-                               break;
-
-                           case 2:    /* --BA8421 BA84 */
-                                      /*     ^^^^ ^^^^ */
-                               ctx->cbuffer >>= 8;
-                               ctx->data = (ctx->cbuffer & 0x03);
-                               ctx->data_rdy = 1;
-                               break;
-
-                           case 3:    /* ---- BA8421 BA */
-                               break;
-                          }
+                   if (!tape_9_track(tape)) {
+                       /* Bits left over are just fill */
+                       if ((ctx->mode7 & MT_CONV) && ctx->cc != 0 && ctx->cbuffer != 0) {
+                           tape_error(ctx, SENSE_DCCHK);
                        }
                    }
                    ctx->data_end = 1;
@@ -392,63 +420,58 @@ tape_callback(struct _device *unit, void *arg, int u)
                    /* Read of tape mark */
                    ctx->data_end = 1;
                    ctx->mrk_flags |= (1 << ctx->cur_unit);
-                   ctx->status |= SNS_UNITEXP|SNS_CHNEND;
+                   ctx->end_status |= SNS_UNITEXP;
                    add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                    break;
 
                case TAPE_STATUS_OK:
                    add_event(unit, tape_callback, FRAME_DELAY, (void *)tape, u);
-                   if (!tape_9_track(ctx->tape[ctx->cur_unit])) {
-                       uint8_t   mode = (ctx->mode7 & MT_ODD) ? 0 : 0x100;
-                       if ((parity_table[ctx->data & 077] ^ (ctx->data & 0100) ^ mode) == 0) {
-                           ctx->sense[0] = SENSE_DCCHK;
-                           ctx->sense[3] = SENSE_VCR;
+                   ctx->data_rdy = 1;
+                   if (!tape_9_track(tape)) {
+                       if ((data & 0177) != frame7(ctx, data)) {
+                           tape_error(ctx, SENSE_DATCHK);
+                           ctx->sense[3] |= SENSE_VCR;
                        }
-                       ctx->data &= 077;
+                       data &= 077;
                        if (ctx->mode7 & MT_TRANS) {
-                           ctx->data = bcd_to_ebcdic[ctx->data];
+                           data = bcd_to_ebcdic[data];
                        }
                        if (ctx->mode7 & MT_CONV) {
+                           uint8_t  t = ctx->cbuffer;
                            switch(ctx->cc) {
                            case 0:   /* ------ BA8421 */
-                               ctx->cbuffer = ctx->data;
+                               ctx->cbuffer = data;
+                               ctx->data_rdy = 0;
                                ctx->cc++;
                                break;
 
                            case 1:   /* BA8421 BA8421 */
-                                     /*     ^^ ^^^^^^ */
-                               ctx->cbuffer |= ctx->data << 6;
-                               ctx->data = (ctx->cbuffer & 0xff);
-                               ctx->data_rdy = 1;
+                                     /* ^^^^^^ ^^     */
+                               ctx->cbuffer = data & 0xf;
+                               data = (t << 2) | (data >> 4);
                                ctx->cc++;
                                break;
 
-                           case 2:    /* --BA8421 BA84 */
-                                      /*     ^^^^ ^^^^ */
-                               ctx->cbuffer >>= 8;
-                               ctx->cbuffer |= ctx->data << 4;
-                               ctx->data = (ctx->cbuffer & 0xff);
-                               ctx->data_rdy = 1;
+                           case 2:    /* --8421 BA8421 */
+                                      /*   ^^^^ ^^^^   */
+                               ctx->cbuffer = data & 0x3;
+                               data = (t << 4) | (data >> 2);
                                ctx->cc++;
                                break;
 
-                           case 3:    /* ---- BA8421 BA */
-                               ctx->cbuffer >>= 8;
-                               ctx->cbuffer |= ctx->data << 2;
-                               ctx->data = (ctx->cbuffer & 0xff);
-                               ctx->data_rdy = 1;
+                           case 3:    /* ----21 BA8421 */
+                               ctx->cbuffer = 0;
+                               data = (t << 6) | data;
                                ctx->cc = 0;
                                break;
                           }
                        }
-                   } else {
-                       ctx->data_rdy = 1;
+                   }
+                   if (ctx->data_rdy) {
+                       ctx->data = data;
                    }
                    log_device("Tape Queued: %02x %d\n", ctx->data, ctx->data_rdy);
                    break;
-
-               default:
-                   log_device("Unhandled status\n");
                }
            }
            break;
@@ -457,25 +480,34 @@ tape_callback(struct _device *unit, void *arg, int u)
     case 0xf:
            switch (ctx->cmd & 0xff) {
            case 0x0f:    /* Rewind and unload */
-                tape_start_rewind(tape);
+                if (tape_start_rewind(tape) != TAPE_STATUS_OK) {
+                    tape_error(ctx, SENSE_EQUCHK);
+                }
                 add_event(unit, model2415_rewind_callback, REWIND_DELAY, (void *)tape, u);
-                ctx->data_end = 1;
-                ctx->cmd_done = 1;
                 ctx->rew_flags |= 1 << ctx->cur_unit;
                 ctx->run_flags |= 1 << ctx->cur_unit;
-                ctx->status = SNS_CTLEND|SNS_DEVEND|SNS_UNITCHK;
-                ctx->cmd = 0;
+                ctx->end_status |= SNS_CTLEND|SNS_UNITCHK;
+                add_event(unit, done_callback, 1, (void *)tape, u);
                 break;
            case 0x07:    /* Rewind */
+                /* Channel has not answered initial status yet */
+                if (status_out(ctx)) {
+                    add_event(unit, tape_callback, 10, (void *)tape, u);
+                    break;
+                }
                 log_device("start rewind %d\n", ctx->chaining);
-                tape_start_rewind(tape);
+                if (tape_start_rewind(tape) != TAPE_STATUS_OK) {
+                    tape_error(ctx, SENSE_EQUCHK);
+                    add_event(unit, done_callback, 1, (void *)tape, u);
+                    break;
+                }
                 ctx->rew_flags |= 1 << ctx->cur_unit;
                 add_event(unit, model2415_rewind_callback, REWIND_DELAY, (void *)tape, u);
-                ctx->data_end = 1;
-                if (ctx->chaining == 0) {
-                    ctx->cmd_done = 1;
-                    ctx->status |= SNS_DEVEND;
+                /* Control unit is free, unless channel waits for us */
+                if (ctx->chaining == 0 && ctx->status == 0) {
                     ctx->cmd = 0;
+                    ctx->data_end = 0;
+                    ctx->busy = 0;
                 }
                 break;
            case 0x17:    /* Erase gap */
@@ -484,6 +516,9 @@ tape_callback(struct _device *unit, void *arg, int u)
            case 0x1f:    /* Write tape mark */
                 r = tape_write_mark(tape);
                 log_device("Write tape mark %d\n", r);
+                if (r != TAPE_STATUS_OK) {
+                    tape_error(ctx, SENSE_EQUCHK);
+                }
                 add_event(unit, done_callback, 10*FRAME_DELAY, (void *)tape, u);
                 break;
            case 0x37:    /* Forward space block */
@@ -494,8 +529,9 @@ tape_callback(struct _device *unit, void *arg, int u)
                 log_device("space tape %d\n", r);
                 switch(r) {
                 case TAPE_STATUS_FILE_ERROR:
+                default:
                      /* Set up read error */
-                     ctx->status |= SNS_UNITCHK;
+                     tape_error(ctx, SENSE_EQUCHK);
                      add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                      break;
 
@@ -503,8 +539,11 @@ tape_callback(struct _device *unit, void *arg, int u)
                      /* Terminate of record read */
                      r = tape_finish_rec(tape);
                      /* End of record */
-                     if (tape_at_loadpt(tape)) {  /* If at load point, done */
-                         ctx->status |= SNS_UNITCHK;
+                     if (r == TAPE_STATUS_FILE_ERROR) {
+                         tape_error(ctx, SENSE_EQUCHK);
+                         add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
+                     } else if (tape_at_loadpt(tape)) {  /* If at load point, done */
+                         tape_error(ctx, 0);
                          add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                      } else {
                          if ((ctx->cmd & 0x8) != 0) {  /* Check if spacing a file */
@@ -516,18 +555,21 @@ tape_callback(struct _device *unit, void *arg, int u)
                              log_device("Tape start record %d\n", r);
                              /* Handle error */
                              if (r == TAPE_STATUS_FILE_ERROR) {
-                                 ctx->status |= SNS_UNITCHK;
+                                 tape_error(ctx, SENSE_EQUCHK);
                                  add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                              } else if (r == TAPE_STATUS_OK) {
                                  /* Spacing file, continue until tape mark */
                                  add_event(unit, tape_callback, FRAME_DELAY, (void *)tape, u);
                              } else {
                                  /* Either end of tape or tape mark, stop */
+                                 if (r != TAPE_STATUS_MARK) {
+                                     tape_error(ctx, (r == TAPE_STATUS_BOT) ? 0 : SENSE_DATCHK);
+                                 }
                                  add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                              }
                          } else {  /* At end of block, all done */
                              if (r == TAPE_STATUS_MARK) {
-                                 ctx->status |= SNS_UNITEXP;
+                                 ctx->end_status |= SNS_UNITEXP;
                              }
                              /* If space block, end */
                              add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
@@ -541,7 +583,7 @@ tape_callback(struct _device *unit, void *arg, int u)
                      if ((ctx->cmd & 0x8) == 0) {
                          /* If space block, end */
                          ctx->mrk_flags |= (1 << ctx->cur_unit);
-                         ctx->status |= SNS_UNITEXP;
+                         ctx->end_status |= SNS_UNITEXP;
                      }
                      add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                      break;
diff --git a/src/model2415/model2415.h b/src/model2415/model2415.h
index 9d9b059..3fdb6f3 100644
--- a/src/model2415/model2415.h
+++ b/src/model2415/model2415.h
@@ -93,6 +93,7 @@ struct _2415_context {
     int                    cmd;          /* Current command */
     int                    cmd_done;     /* Current read/write finished */
     int                    status;       /* Current bus status */
+    int                    end_status;   /* Status to add at end of operation */
     uint8_t                data;         /* Current byte to send/recieve */
     uint16_t               cbuffer;      /* Conversion buffer */
     int                    data_rdy;     /* Data is valid */
@@ -109,6 +110,7 @@ struct _2415_context {
     int                    run_flags;    /* Units doing unload */
     int                    rew_delay;    /* Delay until processing rewinding units */
     int                    rdy_flags;    /* Unit has become ready */
+    int                    rst_flags;    /* Units rewinding since before reset */
     int                    mrk_flags;    /* Last record was mark */
     struct _tape_buffer   *tape[6];      /* Tape units */
     int                    supply_color[6]; /* Color of supply reel color */
-- 
2.43.0


From c0390ec3608e69eb35a5751fb472bd9e85409be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 046/108] fix: model2415 answers invalid, not ready and
 rewinding commands with the right status

---
 src/model2415/model2415.c | 131 ++++++++++++++++++++++++++------------
 1 file changed, 89 insertions(+), 42 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index f837c9f..4e22e4d 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -615,12 +615,12 @@ device_cmd(struct _device *unit, uint8_t bus_out)
         return;
     }
 
-//    /* Check if device is rewinding */
-//    if (((ctx->rew_flags | ctx->run_flags) & (1 << ctx->cur_unit)) != 0) {
-//        log_device("Unit busy rew=%02x run=%02x\n", ctx->rew_flags, ctx->run_flags);
-//        ctx->status |= SNS_BSY;
-//        return;
-//    }
+    /* Check if device is rewinding */
+    if (((ctx->rew_flags | ctx->run_flags) & (1 << ctx->cur_unit)) != 0 && (bus_out & 0xf) != 0x4) {
+        log_device("Unit busy rew=%02x run=%02x\n", ctx->rew_flags, ctx->run_flags);
+        ctx->status |= SNS_BSY;
+        return;
+    }
 
     /* Set up sense byte 1 */
     ctx->sense[1] = 0;
@@ -654,16 +654,23 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     ctx->mrk_flags &= ~(1 << ctx->cur_unit);
     ctx->stat_unit = -1;
     ctx->status = 0;
+    ctx->end_status = 0;
+    ctx->cbuffer = 0;
+    ctx->chaining = 0;
     switch (ctx->cmd & 0xF) {
     case 0x0: /* Test I/O */
-           return;
+           if (ctx->cmd == 0) {
+               return;
+           }
+           ctx->sense[0] = SENSE_CMDREJ;
+           break;
 
     case 0x1: /* Write */
     case 0x5: /* Write */
     case 0x9: /* Write */
     case 0xD: /* Write */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
+           if ((ctx->sense[1] & SENSE_TUA) == 0) {
+               ctx->sense[0] = SENSE_INTERV;
                break;
            }
            ctx->sense[0] = 0;
@@ -681,28 +688,21 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                ctx->sense[0] = SENSE_CMDREJ;
                break;
            }
-           /* Do a write start */
-           r = tape_write_start(ctx->tape[ctx->cur_unit]);
-           if (r == 1) {
-              ctx->sense[0] = SENSE_WCZERO;
-              ctx->sense[1] |= SENSE_WRITE;
-              add_event(unit, &tape_callback, START_DELAY,
-                       (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
-              ctx->cmd_done = 0;
-              ctx->data_rdy = 1;
-           } else if (r == 2) {
-               ctx->sense[0] = SENSE_CMDREJ;
-           } else {
-               ctx->sense[0] = SENSE_INTERV;
-           }
+           /* Record is started when there is data for it */
+           ctx->sense[0] = SENSE_WCZERO;
+           ctx->sense[1] |= SENSE_WRITE;
+           add_event(unit, &tape_callback, START_DELAY,
+                    (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
+           ctx->cmd_done = 0;
+           ctx->data_rdy = 1;
            break;
 
     case 0x2: /* Read */
     case 0x6: /* Read */
     case 0xa: /* Read */
     case 0xe: /* Read */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
+           if ((ctx->sense[1] & SENSE_TUA) == 0) {
+               ctx->sense[0] = SENSE_INTERV;
                break;
            }
            ctx->sense[0] = 0;
@@ -719,6 +719,12 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            r = tape_read_forw(ctx->tape[ctx->cur_unit]);
            if (r < 0) {
                ctx->sense[0] = SENSE_INTERV;
+           } else if (r == TAPE_STATUS_EOT) {
+               ctx->sense[0] = SENSE_DATCHK;  /* Nothing recorded there */
+           } else if (r == TAPE_STATUS_BOT) {
+               ctx->cmd = 0;
+               ctx->status |= SNS_UNITCHK;
+               ctx->data_end = 1;
            } else {
                log_trace("Buffer = %x\n", (void *)&ctx->tape[ctx->cur_unit]);
                add_event(unit, &tape_callback, START_DELAY,
@@ -728,8 +734,8 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            break;
 
       case 0xc:  /* Read backwords. */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
+           if ((ctx->sense[1] & SENSE_TUA) == 0) {
+               ctx->sense[0] = SENSE_INTERV;
                break;
            }
            ctx->sense[0] = 0;
@@ -755,6 +761,12 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            log_device("Tape read back %d : %d\n", ctx->cur_unit, r);
            if (r < 0) {
                ctx->sense[0] = SENSE_INTERV;
+           } else if (r == TAPE_STATUS_EOT) {
+               ctx->sense[0] = SENSE_DATCHK;  /* Nothing recorded there */
+           } else if (r == TAPE_STATUS_BOT) {
+               ctx->cmd = 0;
+               ctx->status |= SNS_UNITCHK;
+               ctx->data_end = 1;
            } else {
                add_event(unit, &tape_callback, START_DELAY,
                      (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
@@ -771,11 +783,8 @@ device_cmd(struct _device *unit, uint8_t bus_out)
 
     case 0x3: /* Mode command */
     case 0xb: /* Mode command */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               ctx->cmd = 0;
-               ctx->cmd_done = 1;
-               ctx->data_end = 1;
+           if ((ctx->sense[1] & SENSE_TUA) == 0) {
+               ctx->sense[0] = SENSE_INTERV;
                break;
            }
            ctx->sense[0] = 0;
@@ -816,8 +825,8 @@ device_cmd(struct _device *unit, uint8_t bus_out)
 
     case 0x7:  /* Tape motion control */
     case 0xf:  /* Tape motion control */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
+           if ((ctx->sense[1] & SENSE_TUA) == 0) {
+               ctx->sense[0] = SENSE_INTERV;
                break;
            }
            ctx->sense[0] = 0;
@@ -855,10 +864,12 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                 ctx->data_end = 1;
                 /* Do a read start */
                 r = tape_read_forw(ctx->tape[ctx->cur_unit]);
-                if (r >= 0) {
+                if (r == TAPE_STATUS_EOT) {
+                    ctx->sense[0] = SENSE_DATCHK;  /* Nothing recorded there */
+                } else if (r >= 0) {
                     add_event(unit, &tape_callback, START_DELAY,
                             (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
-                 ctx->cmd_done = 0;
+                    ctx->cmd_done = 0;
                 } else {
                     ctx->sense[0] = SENSE_INTERV;
                 }
@@ -876,10 +887,13 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                 }
                 /* Do a read start */
                 r = tape_read_back(ctx->tape[ctx->cur_unit]);
-                if (r >= 0) {
+                if (r == TAPE_STATUS_BOT) {
+                    ctx->cmd = 0;
+                    ctx->status |= SNS_UNITCHK;
+                } else if (r >= 0) {
                     add_event(unit, &tape_callback, START_DELAY,
                              (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
-                 ctx->cmd_done = 0;
+                    ctx->cmd_done = 0;
                 } else {
                     ctx->sense[0] = SENSE_INTERV;
                 }
@@ -893,12 +907,10 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            }
            break;
     default:
-           ctx->cmd = 0;
-           ctx->data_end = 1;
-           ctx->cmd_done = 1;
+           ctx->sense[0] = SENSE_CMDREJ;
            break;
     }
-    if (ctx->cmd != 4 && ((ctx->sense[0] & ~(SENSE_WCZERO)) != 0 ||
+    if ((ctx->cmd & 0xf) != 4 && ((ctx->sense[0] & ~(SENSE_WCZERO)) != 0 ||
                             (ctx->sense[1] & BIT7) != 0)) {
         ctx->status |= SNS_UNITCHK;
         if (ctx->tape[ctx->cur_unit] != NULL) {
@@ -913,6 +925,41 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     }
     if (ctx->cmd_done != 0) {
         ctx->status |= SNS_DEVEND;
+    } else {
+        ctx->busy = 1;
+    }
+}
+
+/* Stop transfer when channel has no more data */
+static void
+device_stop(struct _device *unit)
+{
+    struct _2415_context *ctx = (struct _2415_context *)unit->dev;
+
+    if (ctx->data_end) {
+        return;
+    }
+    log_device("2415: stop %02x\n", ctx->cmd);
+    ctx->data_rdy = 0;
+    ctx->data_end = 1;    /* Tape stops at end of record */
+}
+
+/* Stop device when channel halts it */
+static void
+device_halt(struct _device *unit)
+{
+    struct _2415_context *ctx = (struct _2415_context *)unit->dev;
+
+    /* Status waiting already, ask for channel again */
+    if (ctx->status != 0) {
+        unit->request = 1;
+    }
+    if (ctx->data_end || ctx->cmd == 0) {
+        return;
+    }
+    device_stop(unit);
+    if ((ctx->cmd & 0xf) == 0x04) {
+        done_callback(unit, NULL, ctx->cur_unit);
     }
 }
 
-- 
2.43.0


From 677e7a453128fe6a16707cb6945a86b97a7e1b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 047/108] fix: model2415 follows the interface when halted,
 stacked, chained or polled

---
 src/model2415/model2415.c | 203 +++++++++++++++++++++++---------------
 1 file changed, 126 insertions(+), 77 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 4e22e4d..41a84c3 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -969,6 +969,9 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 {
     struct _2415_context *ctx = (struct _2415_context *)unit->dev;
     static   uint16_t  last_tags = 0;
+    uint16_t  unit_addr = (unit->addr & 0xf8) | ctx->cur_unit;
+    int       ready;
+    int       u;
 
     if (last_tags != *tags || unit->selected) {
         print_tags("2415", ctx->state, *tags, bus_out);
@@ -980,10 +983,24 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         if (unit->selected) {
            *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
         }
-        log_device("2415: %03x reset\n",unit->addr);
+        log_device("2415: %03x reset\n", unit->addr);
+        cancel_event(unit, &done_callback);
+        /* Stop tape after record it is in, reels keep rewinding */
+        if (ctx->busy && ctx->cmd != 0) {
+            cancel_event(unit, &tape_callback);
+            if ((ctx->cmd & 0x7) != 0x7 && (ctx->cmd & 0xf) != 0x4 && (ctx->sense[0] & SENSE_WCZERO) == 0) {
+                tape_finish_rec(ctx->tape[ctx->cur_unit]);
+            }
+        }
+        ctx->rst_flags |= ctx->rew_flags;
+        ctx->rdy_flags = 0;
+        ctx->ctrl_busy = 0;
+        ctx->end_status = 0;
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
+        ctx->status = 0;
         ctx->sense[0] = 0;
         ctx->cmd = 0;
         ctx->cmd_done = 0;
@@ -996,9 +1013,6 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     switch (ctx->state) {
     /* Idle wait for CPU to talk to us */
     case STATE_IDLE:
-//            log_device("2415: %03x idle r=%d s=%d e=%d p=%d b=%d cd=%d dly=%d %02x %02x\n",unit->addr,
-//                unit->request, unit->stacked, ctx->data_end, ctx->data_end_post,
-//                ctx->busy, ctx->cmd_done, ctx->delay, ctx->cmd, ctx->status);
             /* If operation out, reset device */
             if ((*tags & CHAN_OPR_OUT) == 0) {
                 log_device("2415: %03x oper dropped\n",unit->addr);
@@ -1006,25 +1020,24 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             }
 
             /* Scan if device is ready */
-            if ((ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
+            ready = (ctx->busy == 0 && ctx->status == 0 && ctx->rdy_flags != 0);
+            while (ready && (ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
                ctx->t_scan++;
                if (ctx->t_scan >= 6) {
                    ctx->t_scan = 0;
                }
-            } else {
-               unit->request = 1;
             }
 
             /* If operation in, another device has channel */
             if ((*tags & CHAN_OPR_IN) != 0) {
-                if (unit->request || unit->stacked) {
+                if (unit->request || unit->stacked || ready) {
                     *tags &= ~(CHAN_REQ_IN);
                 }
                 break;
             }
 
             /* If we have request and suppress out is down, post request */
-            if (unit->request || unit->stacked) {
+            if (unit->request || unit->stacked || ready) {
                 log_device("2415: %03x port request\n",unit->addr);
                 if ((*tags & (CHAN_SUP_OUT|CHAN_ADR_OUT)) == 0) {
                     *tags |= CHAN_REQ_IN;
@@ -1037,27 +1050,32 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             if ((*tags & CHAN_SEL_OUT) != 0) {
                  /* Check if looking for this device */
                  if ((*tags & CHAN_ADR_OUT) != 0) {
-                     if ((bus_out & 0xf8) == (unit->addr & 0xf8)) {
+                     u = bus_out & 0x7;
+                     if ((bus_out & 0xf8) == (unit->addr & 0xf8) && u < ctx->nunits) {
                         *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                         /* Check if parity error on bus */
                         if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
                             ctx->sense[0] |= SENSE_BUSCHK;
                         }
                         /* If device in operation, respond with busy status */
-                        /* If another unit has pending status. */
-                        if (ctx->busy || (ctx->rdy_flags != 0 && (ctx->rdy_flags & (1 << (bus_out & 0x7))) == 0)) {
+                        /* Or if another unit has pending status. */
+                        if (ctx->busy || (u != ctx->cur_unit && (unit->request || unit->stacked || ctx->status != 0))) {
                             *bus_in = SNS_BSY|SNS_SMS | odd_parity[SNS_BSY|SNS_SMS];
                             *tags |= CHAN_STA_IN;             /* Put Busy flag on bus */
                             ctx->state = STATE_BUSY;
-                            ctx->ctrl_busy = 1;
+                            ctx->addressed = u;
                             log_device("2415: %03x busy\n",unit->addr);
                             break;
                         }
-                        ctx->cur_unit = bus_out & 0x7;
+                        ctx->cur_unit = u;
+                        if (ctx->rdy_flags & (1 << u)) {
+                            ctx->rdy_flags &= ~(1 << u);
+                            ctx->status |= SNS_DEVEND;
+                        }
 
                         /* Clear select in, and raise operation in */
                         *tags |= CHAN_OPR_IN;             /* Put our address on bus */
-                        *bus_in = (unit->addr & 0xf8) | ctx->cur_unit;
+                        *bus_in = (unit->addr & 0xf8) | u;
                         *bus_in |= odd_parity[*bus_in];
                         ctx->state = STATE_INIT_SEL; /* Start initial select sequence */
                         unit->selected = 1;
@@ -1067,15 +1085,16 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  }
 
                  /* If no address out, see if we have request or stacked status */
-                 if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked)) {
+                 if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked || ready)) {
                      *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                      *tags |= CHAN_OPR_IN;      /* Put our address on bus */
-                     if ((ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
-                         *bus_in = (unit->addr & 0xf8) | ctx->t_scan;
-                         *bus_in |= odd_parity[*bus_in];
+                     if (!unit->request && !unit->stacked) {
                          ctx->cur_unit = ctx->t_scan;
+                         ctx->rdy_flags &= ~(1 << ctx->t_scan);
                          ctx->status |= SNS_DEVEND;
                      }
+                     *bus_in = (unit->addr & 0xf8) | ctx->cur_unit;
+                     *bus_in |= odd_parity[*bus_in];
                      unit->selected = 1;
                      ctx->state = STATE_INIT_SEL;
                      log_device("2415: %03x polling\n",unit->addr);
@@ -1087,9 +1106,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             /* Start of initial selection sequence */
     case STATE_INIT_SEL:
             *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-            *bus_in = ctx->cur_unit | (unit->addr & 0xf8);
-            *bus_in |= odd_parity[*bus_in];
-            log_device("2415: %03x address in unit %d\n",unit->addr, ctx->cur_unit);
+            *bus_in = unit_addr | odd_parity[unit_addr];
+            log_device("2415: %03x address in\n",unit->addr);
             /* Wait for Address out to drop */
             if ((*tags & (CHAN_ADR_OUT)) == 0) {
                  *tags |= CHAN_ADR_IN;
@@ -1103,7 +1121,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             unit->request = 0;
 
             log_device("2415: %03x waiting command %02x\n",unit->addr, ctx->status);
-            *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
+            *bus_in = unit_addr | odd_parity[unit_addr];
             /* we get command out, process command */
             if ((*tags & (CHAN_CMD_OUT)) != 0) {
                 *tags &= ~(CHAN_ADR_IN);        /* Command out, drop addressin */
@@ -1116,14 +1134,9 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
                     ctx->sense[0] |= SENSE_BUSCHK;
                     ctx->state = STATE_STATUS;
-                    ctx->rdy_flags &= ~(1 << ctx->cur_unit);
                     break;
                 }
                 if (ctx->busy) {
-                    if (ctx->data_end == 0) {
-                        ctx->state = STATE_DATA_1;
-                        break;
-                    }
                     if (ctx->status == 0) {
                         ctx->status = SNS_BSY;
                     }
@@ -1133,6 +1146,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 ctx->state = STATE_STATUS; /* Present status out */
                 if (!unit->stacked && ctx->status == 0) {       /* If no stacked status, process command */
                     device_cmd(unit, bus_out & 0xff);
+                } else if ((bus_out & 0xff) != 0) {
+                    ctx->status |= SNS_BSY;     /* Command not started, status pending */
                 }
                 break;
             }
@@ -1141,9 +1156,10 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             if ((*tags & (CHAN_ADR_OUT)) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
                 *tags &= ~(CHAN_ADR_IN|CHAN_OPR_IN);  /* Clear select in */
                 log_device("2415: Halt %03x device\n",unit->addr);
-                if (ctx->data_end == 0) {
-                    ctx->data_end = 1;
-                    ctx->status |= SNS_CHNEND;
+                device_halt(unit);
+                /* Keep asking to present status */
+                if (ctx->status != 0) {
+                    unit->request = 1;
                 }
                 ctx->state = STATE_STATUS_WAIT;
                 break;
@@ -1155,6 +1171,15 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS:
              /* Wait for Command out to drop */
              *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
+             if ((*tags & CHAN_CMD_OUT) != 0) {
+                 break;
+             }
+
+             /* Tell channel that control unit it found busy is free */
+             if (ctx->ctrl_busy && (ctx->status & SNS_DEVEND) != 0) {
+                 ctx->status |= SNS_CTLEND;
+                 ctx->ctrl_busy = 0;
+             }
              *bus_in = ctx->status | odd_parity[ctx->status];
              log_device("2415: %03x initial status %02x\n",unit->addr, ctx->status);
              *tags |= (CHAN_STA_IN);
@@ -1174,31 +1199,29 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  break;
              }
              if ((*tags & CHAN_SRV_OUT) != 0) {   /* CPU accepted the status, continue on */
-                 log_device("2415: %03x status accepted c=%02x d=%d\n",unit->addr,
-                              ctx->cmd, ctx->cmd_done);
-                 if ((*tags & CHAN_SUP_OUT) != 0) {
-                    ctx->chaining = 1;
-                 } else {
-                    ctx->chaining = 0;
-                 }
+                log_device("2415: %03x status accepted c=%02x d=%d\n",unit->addr,
+                             ctx->cmd, ctx->cmd_done);
+                ctx->chaining = ((*tags & CHAN_SUP_OUT) != 0);
 
+                u = ctx->status;
                 ctx->status = 0;
                 *tags &= ~(CHAN_STA_IN);
                 /* If end of command, and status accepted, all done */
                 if (ctx->cmd_done || ctx->cmd == 0) {
                     *tags &= ~(CHAN_OPR_IN);
+                    unit->request = 0;
                     unit->stacked = 0;
                     ctx->data_end = 0;
-                    ctx->data_end_post = 0;
                     ctx->cmd_done = 0;
                     ctx->cmd = 0;
                     ctx->busy = 0;
                     ctx->state = STATE_STATUS_WAIT;
-                    ctx->rdy_flags &= ~(1 << ctx->cur_unit);
                     break;
                 }
 
-                if (ctx->data_end) {
+                if ((u & SNS_CHNEND) != 0) {
+                    unit->request = 0;
+                    unit->stacked = 0;
                     if ((*tags & CHAN_HLD_OUT) == 0) {
                         *tags &= ~(CHAN_OPR_IN);
                     }
@@ -1238,13 +1261,11 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  /* If address out, halt device */
                  if ((*tags & CHAN_ADR_OUT) != 0) {
                      log_device("2415: %03x Halt IO\n",unit->addr);
-                     if (ctx->data_end == 0) {
-                         ctx->data_rdy = 0;
-                         ctx->data_end = 1;
-                         ctx->status |= SNS_CHNEND|SNS_DEVEND;
-                         ctx->cmd_done = 1;
-                         unit->request = 1;
+                     if (ctx->addressed == ctx->cur_unit) {
+                         device_halt(unit);
                      }
+                 } else {
+                     ctx->ctrl_busy = 1;
                  }
              }
              *tags &= ~(CHAN_SEL_OUT);
@@ -1257,6 +1278,12 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if ((*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT)) != 0) {
                   break;
              }
+
+             /* Tell channel that control unit it found busy is free */
+             if (ctx->ctrl_busy && (ctx->status & SNS_DEVEND) != 0) {
+                 ctx->status |= SNS_CTLEND;
+                 ctx->ctrl_busy = 0;
+             }
              *bus_in = ctx->status | odd_parity[ctx->status];
              *tags |= (CHAN_STA_IN);
 
@@ -1278,24 +1305,40 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  break;
              }
 
+             /* Channel halted us, keep status until asked for */
+             if ((*tags & CHAN_ADR_OUT) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
+                 unit->request = 1;
+                 ctx->state = STATE_STATUS_WAIT;
+                 *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
+                 break;
+             }
+
              /* CPU accepted status */
              if ((*tags & CHAN_SRV_OUT) != 0) {
 
-                 log_device("2415: %03x status accepted %d %02x\n",unit->addr, unit->request, ctx->status);
+                 log_device("2415: %03x status accepted %d\n",unit->addr, unit->request);
                  ctx->status = 0;
                  /* If end of command, and status accepted, all done */
                  if (ctx->cmd_done) {
                      *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
+                     unit->request = 0;
                      unit->stacked = 0;
                      ctx->cmd = 0;
                      ctx->cmd_done = 0;
                      ctx->busy = 0;
+                     ctx->data_end = 0;
                      ctx->state = STATE_STATUS_WAIT;
                      break;
                  }
 
                  if (ctx->data_end) {
-                     *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
+                     unit->request = 0;
+                     unit->stacked = 0;
+                     *tags &= ~(CHAN_STA_IN);
+                     /* Hold selector channel until device end */
+                     if ((*tags & CHAN_HLD_OUT) == 0) {
+                         *tags &= ~(CHAN_OPR_IN);
+                     }
                      ctx->state = STATE_STATUS_WAIT;
                      break;
                  }
@@ -1313,9 +1356,16 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
       /* Wait on device to finish, before posting status */
       case STATE_WAIT_DEVEND:
-            log_device("2415: %03x wait end b=%d cd=%d dly=%d %02x %02x\n",unit->addr,
-                ctx->busy, ctx->cmd_done, ctx->delay, ctx->cmd, ctx->status);
+            log_device("2415: %03x wait end b=%d cd=%d %02x %02x\n",unit->addr,
+                ctx->busy, ctx->cmd_done, ctx->cmd, ctx->status);
              *tags &= ~(CHAN_SEL_OUT);
+             /* Channel no longer waiting for us, let go of it */
+             if ((*tags & CHAN_HLD_OUT) == 0 || (ctx->busy == 0 && ctx->cmd_done == 0)) {
+                 unit->selected = 0;
+                 *tags &= ~(CHAN_OPR_IN);
+                 ctx->state = STATE_IDLE;
+                 break;
+             }
              if (ctx->cmd_done) {
                  unit->request = 0;
                  ctx->state = STATE_STATUS;
@@ -1331,17 +1381,10 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
              /* If address out, halt device */
              if ((*tags & CHAN_ADR_OUT) != 0) {
-                 ctx->data_end = 1;
-                 ctx->data_rdy = 0;
-                 ctx->status |= SNS_CHNEND;
+                 device_halt(unit);
                  *tags &= ~(CHAN_OPR_IN);
                  unit->selected = 0;
-                 if ((ctx->cmd & 0x10) != 0) {
-                    ctx->delay = 1000;
-                    ctx->state = STATE_END_STATUS;
-                 } else {
-                    ctx->state = STATE_IDLE;
-                 }
+                 ctx->state = STATE_IDLE;
                  break;
              }
 
@@ -1352,21 +1395,18 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              }
 
              /* If sense command advance counter */
-             if ((ctx->cmd & 0xf) == 0x04) {
+             if ((ctx->cmd & 0xf) == 0x04 && !ctx->cmd_done) {
                  if (ctx->sense_cnt < 6 && !ctx->data_end) {
                      ctx->data = ctx->sense[ctx->sense_cnt++];
                      ctx->data_rdy = 1;
                  } else {
                      ctx->data_end = 1;
-                     ctx->cmd_done = 1;
-                     ctx->busy = 0;
-                     ctx->status |= SNS_CHNEND|SNS_DEVEND;
-                }
+                     done_callback(unit, NULL, ctx->cur_unit);
+                 }
              }
 
              /* If at end of data or command, present status */
              if (ctx->cmd_done) {
-                 ctx->status |= SNS_DEVEND|SNS_CHNEND;
                  ctx->state = STATE_END_STATUS;
                  break;
              }
@@ -1375,10 +1415,15 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
       case STATE_DATA_1:      /* Send or recieve data from CPU */
              *tags &= ~CHAN_SEL_OUT;
-             if ((*tags & CHAN_SRV_OUT) != 0) {
-                  /* Wait for service out to drop */
+             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
+                  /* Wait for service out and command out to drop */
                   break;
              }
+             /* Channel was too late, or wants to halt us */
+             if (ctx->data_rdy == 0 || (*tags & CHAN_ADR_OUT) != 0) {
+                 ctx->state = STATE_OPR;
+                 break;
+             }
              if ((*tags & CHAN_SUP_OUT) != 0) {
                  /* If suppress out on, wait until sending request */
                  break;
@@ -1391,27 +1436,31 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
       case STATE_DATA_2:      /* Complete transfer */
              *tags &= ~CHAN_SEL_OUT;
              *bus_in = ctx->data | odd_parity[ctx->data];
+             /* If address out, halt device */
+             if ((*tags & CHAN_ADR_OUT) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
+                 *tags &= ~(CHAN_SRV_IN|CHAN_OPR_IN);
+                 device_halt(unit);
+                 unit->selected = 0;
+                 ctx->state = STATE_IDLE;
+                 break;
+             }
              if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
                  /* Wait for service out or command out */
                  *tags &= ~(CHAN_SRV_IN);   /* Clear service in request */
                  ctx->data_rdy = 0;
-                 if ((ctx->cmd & 1) != 0) { /* Write command */
+                 if ((ctx->cmd & 1) != 0 && (*tags & CHAN_SRV_OUT) != 0) { /* Write command */
                       /* Device selected */
                       if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
                           ctx->sense[0] |= SENSE_BUSCHK;
-                          ctx->status |= (SNS_UNITCHK);
-                          ctx->data_end = 1;
-                          ctx->status |= SNS_CHNEND|SNS_DEVEND;
-                          ctx->busy = 0;
-                          ctx->cmd_done = 1;
+                          ctx->end_status |= SNS_UNITCHK;
+                          device_stop(unit);
                       } else {
-                          ctx->data = bus_out; /* Grab data */
+                          ctx->data = bus_out & 0xff; /* Grab data */
                       }
                  }
                  ctx->state = STATE_OPR;   /* Go to process this data */
                  if ((*tags & CHAN_CMD_OUT) != 0) {  /* CPU is done sending data */
-                     ctx->data_end = 1;
-                     ctx->status = SNS_CHNEND;
+                     device_stop(unit);
                  }
              }
              break;
-- 
2.43.0


From f43b4002d7dba5969adc12bd2a9464ee7b12b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 048/108] fix: model 2050 floating point subtraction of
 magnitudes gave the wrong sign

---
 src/model2050/cpu2050.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 2d44f46..3750541 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3407,7 +3407,6 @@ cycle_2050()
             if ((t & 0x70) == 0 || (t & 0x70) == 0x70) {
                 s_update |= BIT6;
             }
-            t = (carries & CPOS0) != 0;
             t1 = (cpu_2050.right_bus & CPOS0) != 0;
             t2 = ((cpu_2050.left_bus & CPOS0) != 0);
             /* Stat 5 turned on:
@@ -3426,20 +3425,14 @@ cycle_2050()
                       But not both. (Add type result minus)
                    If S0 and S1 == 0 and left adder input bit 0 != right adder input
                      bit 0 */
-            if ((s_update & (BIT0|BIT1)) != 0 && t1 && t) {
+            if ((s_update & (BIT0|BIT1)) != 0) {     /* <-- */
+                /* Sign of the first operand, the difference is recomplemented
+                   with the sign reversed when the first operand is larger */
+                if (t1 != ((s_update & BIT5) == 0 && carry_out))     /* <-- */
+                    s_update |= BIT4;     /* <-- */
+            } else if ((t1 != t2) == ((s_update & BIT3) == 0)) {     /* <-- */
                 s_update |= BIT4;     /* <-- */
             }
-
-            if (((s_update & (BIT0)) != 0 && t1 == 0 && t2 == 0 && carry_out) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 == 0 && t2 != 0 && !t && carry_out) ||     /* <-- */
-                ((s_update & (BIT1)) != 0 && t1 == 0 && t2 != 0 && t && carry_out) ||     /* <-- */
-                ((s_update & (BIT0|BIT1)) != 0 && t1 != 0 && t2 == 0 && !t) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 == 0 && t && carry_out) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 != 0 && !carry_out) ||     /* <-- */
-                ((s_update & (BIT1)) != 0 && t1 != 0 && t2 != 0) ||     /* <-- */
-                ((s_update & (BIT0|BIT1|BIT3)) == 0 && t1 != t2) ||     /* <-- */
-                ((s_update & (BIT0|BIT1|BIT3)) == BIT3 && t1 == t2))     /* <-- */
-                s_update |= BIT4;     /* <-- */
             break;
 
     case 28: /* OPPANEL->S47 */
-- 
2.43.0


From 825d1137dd18ae42582db864a8d00c5965f6ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 049/108] fix: model 2050 treated floating point exponents 64
 or more apart as close

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 3750541..653779d 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3404,7 +3404,7 @@ cycle_2050()
                 s_update |= BIT7;
             /* Stat 6 turned on:
                    If abs(ED) < 16. */
-            if ((t & 0x70) == 0 || (t & 0x70) == 0x70) {
+            if ((t1 != 0 && (t & 0x70) == 0) || (t1 == 0 && (t & 0x70) == 0x70)) {
                 s_update |= BIT6;
             }
             t1 = (cpu_2050.right_bus & CPOS0) != 0;
-- 
2.43.0


From e64d8493b20bf9bb3aefb3dedaffb0d6e40b7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 050/108] fix: model 2050 unnormalized floating point
 subtraction gave zero

---
 src/model2050/ros.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/ros.txt b/src/model2050/ros.txt
index b9449c2..d5b5894 100644
--- a/src/model2050/ros.txt
+++ b/src/model2050/ros.txt
@@ -53,7 +53,7 @@ add   binary address   sheet  box  mode  binary bit pattern
 0020 0 0000 0010 0000  qv104  j1   io    0 000 00 101001 0100 100 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 000001 00001 0  000000
 0021 0 0000 0010 0001  qv540  j3   io    1 100 10 000000 1010 100 00000 0  0  00 111 1 000 00000 000 0  101 00 011 11 11 1 1000 000 1  000 000 0 000001 00001 0  000000
                                          p lu  mv zp     zf   zn  tr    zr ws  sf  p iv  al    wm   up md lb mb dg  ul ur p ce   lx  tc ry  ad   ab     bb    ux ss       92--97
-0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000001 00001 0  000000 00 0000000
+0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000010 00001 0  000000 00 0000000
                                          p lu  mv zp     zf   zn  tr    zr cs sa sf  p ct  al    wl  hc ms  cg mg  ul ur p ce   lx  tc ry  cl    ab     bb    ux ss       92--97
 0023 0 0000 0010 0011  qv110  g2   io    0 001 00 000000 1111 100 00000 0  0  00 111 0 011 00000 000 0  001 11 011 00 00 1 0000 001 1  000 000 0 000000 00000 0  000000
 0024 0 0000 0010 0100  qv105  j1   io    1 000 00 101000 0100 111 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 011100 11010 0  000000
-- 
2.43.0


From e7a97932557483c5e6c002238851a5bdc4979651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 051/108] fix: model 2050 EXECUTE used register 0 as the base
 of instructions which name none

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 653779d..da033e0 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3301,7 +3301,7 @@ cycle_2050()
             s_update &= ~(BIT0|BIT1);     /* <-- */
             if ((cpu_2050.aob_latch & 0x000f0000) == 0)
                 s_update |= BIT0;     /* <-- */
-            if ((cpu_2050.aob_latch & 0xf0000000) == 0)
+            if ((cpu_2050.aob_latch & 0x0000f000) == 0)
                 s_update |= BIT1;     /* <-- */
             if ((cpu_2050.aob_latch >> 28) <= 3) {
                 cpu_2050.SYLS1 = 1;
-- 
2.43.0


From be23382bc7e42ed71b7f758c979987bdb2d3e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 052/108] fix: model 2050 changed decimal digits of 15 to ASCII
 zones

---
 src/model2050/cpu2050.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index da033e0..552b8ed 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4026,13 +4026,13 @@ cycle_2050()
                 cpu_2050.G1NEG = 0;
                 cpu_2050.G2NEG = 0;
                 break;
-        case 12: /* W->MMB(E?)  */
+        case 12: /* W->MMB(E)  Sign or zone from emit field in current code */
                 if ((cpu_2050.AMWP & 0x8) != 0) {
-                    if ((cpu_2050.w_bus & 0xf) == 0xc)
+                    if (sal->ur == 0 && (cpu_2050.w_bus & 0xf) == 0xc)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xa;
-                    if ((cpu_2050.w_bus & 0xf) == 0xd)
+                    if (sal->ur == 0 && (cpu_2050.w_bus & 0xf) == 0xd)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xb;
-                    if ((cpu_2050.w_bus & 0xf0) == 0xf0)
+                    if (sal->ul == 0 && (cpu_2050.w_bus & 0xf0) == 0xf0)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0x0f) | 0x50;
                 }
                 cpu_2050.M_REG &= ~(0xff << (8 * (3-cpu_2050.MB_REG)));
-- 
2.43.0


From dfffa5e4c04c625d2980b17cd21e720c01374179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 053/108] fix: 2030 timer update request is an interrupt
 request

---
 src/model2030/cpu2030.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 06e3cfa..539f598 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -676,6 +676,10 @@ cycle_2030()
            timer_update = 1;
        }
    }
+   /* The microcode updates the timer between instructions */
+   if (timer_update) {
+       interrupt = 1;
+   }
    if ((cpu_2030.MASK & BIT7) && cpu_2030.F_REG != 0) {
        interrupt = 1;
    }
-- 
2.43.0


From 382bb1ec526c40ed8cffb7b514d540d4be708b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 054/108] fix: 2030 STOP stops a running program before the
 next instruction

---
 src/model2030/cpu2030.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 539f598..e1b763d 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -140,7 +140,6 @@ static int        clock_rst;            /* Reset clock start 03CB4 */
 static int        set_ic_allowed;       /* Set IC switch pressed 03CC3 */
 static int        set_ic_start;         /* Start of set IC */
 static int        cf_stop;
-static int        stop_req;
 static int        process_stop;         /* Stop CPU */
 static int        read_call;
 static int        proc_stop_loop_active;
@@ -692,7 +691,6 @@ cycle_2030()
    if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[1] || (cpu_2030.GF[1] & BIT4) != 0)) {
        interrupt = 1;
    }
-   stop_req = !(process_stop & (!interrupt) & cpu_2030.end_of_e_cycle);
 
    clock_rst = hard_stop | ((sal->CA != 0xE) & cf_stop);
    clock_stop = (proc_stop_loop_active & (!sel_ros_req));
@@ -2821,7 +2819,9 @@ chan_scan:
                 priority_stack_reg |= BIT3;
             if (stg_prot_req)
                 priority_stack_reg |= BIT4;
-            if (!stop_req)
+            /* Stop before the next instruction is fetched, or while waiting */
+            if (process_stop && !cf_stop && !interrupt && cpu_2030.end_of_e_cycle &&
+                   (cpu_2030.WX == 0x100 || cpu_2030.WX == 0x0AE))
                 priority_stack_reg |= BIT5;
             /* Select channel request */
             if ((cpu_2030.H_REG & BIT5) == 0 && sel_ros_req) {
-- 
2.43.0


From 982bc28ef4376855be11073c4b495f91f747a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 055/108] fix: 2030 START resets the stop latch once, not for
 ever

---
 src/model2030/cpu2030.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index e1b763d..63538ef 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -663,6 +663,7 @@ cycle_2030()
 
    if (set_ic_allowed || start_sw_rst) {
        process_stop = 0;
+       start_sw_rst = 0;
    }
 
    interrupt = 0;
-- 
2.43.0


From 491084a09c3c47530561ce1116a6ba9ae419af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 056/108] fix: 2030 clock stops in the stop loop when START is
 pressed during it

---
 src/model2030/cpu2030.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 63538ef..b2d2243 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -308,8 +308,6 @@ cycle_2030()
       e_cy_stop_sample = 1;
    }
 
-   proc_stop_loop_active = 0;
-
    /* Handle front panel switches */
    if (CHECK_RST) {
       suppr_half_trap_lch = 0;
@@ -695,6 +693,7 @@ cycle_2030()
 
    clock_rst = hard_stop | ((sal->CA != 0xE) & cf_stop);
    clock_stop = (proc_stop_loop_active & (!sel_ros_req));
+   proc_stop_loop_active = 0;
    if (clock_stop || clock_rst) {
       cpu_2030.clock_start_lch = 0;
       e_cy_stop_sample = 0;
-- 
2.43.0


From 65e7adf2e9745345369d13bae5290ee27768c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 057/108] fix: 2030 takes the storage protection trap before
 the next fetch

---
 src/model2030/cpu2030.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index b2d2243..e29893f 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1105,8 +1105,12 @@ cycle_2030()
            if (cpu_2030.dead_cycle == 0) {
                switch (sal->CM) {
                case 2:       /* Store */
-                       if (stg_prot_req)
+                       if (stg_prot_req) {
+                           /* End storage cycle so that trap is taken next */
+                           cpu_2030.allow_write = 0;
+                           inh_stg_prot = 0;
                            break;
+                       }
                        /* Fall through */
                case 0:       /* Write */
                       /* Do write to memory from this request */
-- 
2.43.0


From 1c8021ff5ab05014bb8949052c2bd7878b6eb8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 058/108] fix: 1052 data byte written keeps no parity bit

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 4ef8a68..f7e28a0 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -671,7 +671,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out;
+                          ctx->data = bus_out & 0xff;
                           add_event(unit, &send_callback, 5000, NULL, 0);
                       }
                  }
-- 
2.43.0


From ea4f80ad1caab43010c22cbc520a6f0488a24a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 059/108] fix: 1052 sense gives its byte and ends

---
 src/model1052/model1052.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index f7e28a0..055dd21 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -237,7 +237,6 @@ invalid:
     case 0x4:  /* Sense */
            ctx->data = ctx->sense;
            ctx->data_rdy = 1;
-           ctx->data_end = 1;
            ctx->busy = 1;
            log_device("console Sense %02x\n", ctx->sense);
            break;
@@ -675,7 +674,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           add_event(unit, &send_callback, 5000, NULL, 0);
                       }
                  }
-                 if ((*tags & CHAN_CMD_OUT) != 0) {  /* CPU is done sending data */
+                 if ((*tags & CHAN_CMD_OUT) != 0 || ctx->cmd == 0x4) {  /* CPU is done sending data */
                      ctx->data_end = 1;
                      ctx->cmd_done = 1;
                  }
-- 
2.43.0


From b2ab8c8e33fc8ab112b7dc34d098dea156066c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 060/108] fix: 1052 waits for command out to drop before
 initial status

---
 src/model1052/model1052.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 055dd21..bcace0c 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -418,6 +418,9 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS:
              /* Wait for Command out to drop */
              *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
+             if ((*tags & CHAN_CMD_OUT) != 0) {
+                 break;
+             }
 
              if (ctx->attn_flg) {
                  model1052_func(ctx, &out_tags, BIT6, NULL);
-- 
2.43.0


From d73cf789b15c4272c052596be5ca7041448123ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 061/108] fix: 1052 leaves the interface when halted and ends
 the command

---
 src/model1052/model1052.c | 47 ++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index bcace0c..0b9dfe5 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -179,6 +179,22 @@ send_callback(struct _device *unit, void *arg, int iarg)
 }
 
 
+/* Halt I/O, end the current command */
+static void
+halt_cmd(struct _device *unit)
+{
+    struct _1052_context *ctx = (struct _1052_context *)unit->dev;
+
+    if (ctx->data_end == 0) {
+        cancel_event(unit, &send_callback);
+        ctx->data_rdy = 0;
+        ctx->data_end = 1;
+        ctx->cmd_done = 1;
+        ctx->status |= SNS_CHNEND|SNS_DEVEND;
+    }
+    unit->request = 1;
+}
+
 /* Decode command to device */
 static void
 device_cmd(struct _device *unit, uint8_t bus_out)
@@ -404,9 +420,8 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             if ((*tags & (CHAN_ADR_OUT)) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
                 *tags &= ~(CHAN_ADR_IN|CHAN_OPR_IN);  /* Clear select in */
                 log_device("1052: Halt %03x device\n",unit->addr);
-                if (ctx->data_end == 0) {
-                    ctx->data_end = 1;
-                    ctx->status |= SNS_CHNEND;
+                if (ctx->busy) {
+                    halt_cmd(unit);
                 }
                 ctx->state = STATE_STATUS_WAIT;
                 break;
@@ -501,13 +516,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  /* If address out, halt device */
                  if ((*tags & CHAN_ADR_OUT) != 0) {
                      log_device("1052: %03x Halt IO\n",unit->addr);
-                     if (ctx->data_end == 0) {
-                         ctx->data_rdy = 0;
-                         ctx->data_end = 1;
-                         ctx->status |= SNS_CHNEND|SNS_DEVEND;
-                         ctx->cmd_done = 1;
-                         unit->request = 1;
-                     }
+                     halt_cmd(unit);
                  }
              }
              *tags &= ~(CHAN_SEL_OUT);
@@ -595,10 +604,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
              /* If address out, halt device */
              if ((*tags & CHAN_ADR_OUT) != 0) {
-                 ctx->data_end = 1;
-                 ctx->cmd_done = 1;
-                 ctx->data_rdy = 0;
-                 ctx->status |= SNS_CHNEND|SNS_DEVEND;
+                 halt_cmd(unit);
                  *tags &= ~(CHAN_OPR_IN);
                  unit->selected = 0;
                  ctx->state = STATE_IDLE;
@@ -643,8 +649,12 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
       case STATE_DATA_1:      /* Send or recieve data from CPU */
              *tags &= ~CHAN_SEL_OUT;
-             if ((*tags & CHAN_SRV_OUT) != 0) {
-                  /* Wait for service out to drop */
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                 ctx->state = STATE_OPR;
+                 break;
+             }
+             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
+                  /* Wait for service out and command out to drop */
                   break;
              }
              if ((*tags & CHAN_SUP_OUT) != 0) {
@@ -659,6 +669,11 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
       case STATE_DATA_2:      /* Complete transfer */
              *tags &= ~CHAN_SEL_OUT;
              *bus_in = ctx->data | odd_parity[ctx->data];
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                 *tags &= ~(CHAN_SRV_IN);
+                 ctx->state = STATE_OPR;
+                 break;
+             }
              if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
                  /* Wait for service out or command out */
                  *tags &= ~(CHAN_SRV_IN);   /* Clear service in request */
-- 
2.43.0


From 7c1cd63c03848e7dd3acd457055e49f70bee7b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 062/108] fix: 1052 reset clears status and pending character

---
 src/model1052/model1052.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 0b9dfe5..61b2f59 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -282,7 +282,9 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         log_device("1052: %03x reset\n",unit->addr);
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
+        ctx->status = 0;
         ctx->sense = 0;
         ctx->cmd = 0;
         ctx->cmd_done = 0;
@@ -291,6 +293,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         ctx->data_rdy = 0;
         model1052_func(ctx, &out_tags, BIT7|BIT6, NULL);
         cancel_event(unit, &poll_callback);
+        cancel_event(unit, &send_callback);
         add_event(unit, &poll_callback, 500, NULL, 0);
         return;
     }
-- 
2.43.0


From 110afd3f7e21230d8e187bea71737cbc3b9d7f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 063/108] fix: 1052 polls the keyboard only for a read, one
 character at a time

---
 src/model1052/model1052.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 61b2f59..b061230 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -133,22 +133,24 @@ poll_callback(struct _device *unit, void *arg, int iarg)
 
     model1052_func(ctx, &out_tags, 0, NULL);
 
-    if ((ctx->cmd & 1) == 0 && (out_tags & BIT1) != 0) {
-       log_console("1052: ready\n");
-       model1052_in(ctx, &ctx->data);
-       ctx->data &= 0xff;
-       ctx->data_rdy = 1;
-       unit->request = 1;
-    }
-    if ((out_tags & (BIT0|BIT2)) != 0) {
-       log_console("1052: data_end\n");
-       if ((out_tags & BIT0) != 0) {
-          ctx->status |= SNS_UNITEXP;
-          ctx->out_cr = 1;
-       }
-       ctx->data_end = 1;
-       ctx->cmd_done = 1;
-       unit->request = 1;
+    /* Give next character or end of line to a read, once last character was taken */
+    if (ctx->cmd == 0xa && !ctx->data_rdy && !ctx->data_end) {
+        if ((out_tags & BIT1) != 0) {
+           log_console("1052: ready\n");
+           model1052_in(ctx, &ctx->data);
+           ctx->data &= 0xff;
+           ctx->data_rdy = 1;
+           unit->request = 1;
+        } else if ((out_tags & (BIT0|BIT2)) != 0) {
+           log_console("1052: data_end\n");
+           if ((out_tags & BIT0) != 0) {
+              ctx->status |= SNS_UNITEXP;
+              ctx->out_cr = 1;
+           }
+           ctx->data_end = 1;
+           ctx->cmd_done = 1;
+           unit->request = 1;
+        }
     }
     if ((out_tags & BIT6) != 0) {
        unit->request = 1;
-- 
2.43.0


From 11027ffee12338138bffbc0374766e619c44df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 064/108] fix: 1052 keyboard takes ASCII only

---
 src/model1052/model1052.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index b061230..237e5db 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -937,6 +937,10 @@ model1052_done(void *data)
 static void
 push_char(struct _1052_context *ctx, char in_char)
 {
+    /* There is no code for anything but ASCII */
+    if ((in_char & 0x80) != 0) {
+       return;
+    }
     if (in_char == '\f') {
        log_enable = !log_enable;
        log_console("Log %s\n", (log_enable) ? "enable" : "disable");
-- 
2.43.0


From 967d4102c51db7d256f230f7050966ccf25da5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 065/108] fix: 1052 keyboard is locked from end of line to next
 read

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 237e5db..b7858cd 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -949,7 +949,7 @@ push_char(struct _1052_context *ctx, char in_char)
     if (in_char == '\033') {
        ctx->attn_flg = 1;
        log_console("Cons attn\n");
-    } else if (ctx->in_flg) {
+    } else if (ctx->in_flg && !ctx->eob_flg && !ctx->cancel_flg) {
        if (in_char == '\03') {
            ctx->cancel_flg = 1;
            log_console("Cons cancel\n");
-- 
2.43.0


From 3e7611b20b33159075df150eb66b7ef1e86f8dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 066/108] fix: 1052 telnet commands and carriage return padding
 are not input

---
 src/model1052/model1052.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index b7858cd..24197ed 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -52,7 +52,9 @@ DEV_LIST_STRUCT(1052, DEV_TYPE, 0);
 #define TN_DO           -3                              /* do */
 #define TN_WONT         -4                              /* wont */
 #define TN_WILL         -5                              /* will */
+#define TN_SB           -6                              /* subnegotiation */
 #define TN_BRK          -13                             /* break */
+#define TN_SE           -16                             /* end of subnegotiation */
 #define TN_BIN          0                               /* bin */
 #define TN_ECHO         1                               /* echo */
 #define TN_SGA          3                               /* sga */
@@ -69,6 +71,8 @@ DEV_LIST_STRUCT(1052, DEV_TYPE, 0);
 #define TNS_WONT        003                             /* WONT seen */
 #define TNS_SKIP        004                             /* skip next cmd */
 #define TNS_CRPAD       005                             /* CR padding */
+#define TNS_SB          006                             /* In subnegotiation */
+#define TNS_SB_IAC      007                             /* IAC in subnegotiation */
 
 /*
  *  Commands.
@@ -1049,24 +1053,41 @@ model1052_thrd(void *data)
 
                t = buffer[k++];
                switch(t_state) {
+               case TNS_CRPAD:
+                    t_state = TNS_NORM;
+                    if (t == TN_LF || t == TN_NUL)
+                       break;
+                    /* Fall through */
                case TNS_NORM:
-                    if (t == TN_IAC)
+                    if (t == TN_IAC) {
                        t_state = TNS_IAC;
-                    else
+                    } else {
                        push_char(ctx, t);
+                       if (t == TN_CR)
+                          t_state = TNS_CRPAD;
+                    }
                     break;
                case TNS_IAC:
                     if (t == TN_IAC) {
                        push_char(ctx, t);
                        t_state = TNS_NORM;
-                    } else if (t == TN_BRK) {
-                       t_state = TNS_NORM;
                     } else if (t == TN_WILL) {
                        t_state = TNS_WILL;
                     } else if (t == TN_WONT) {
                        t_state = TNS_WONT;
-                    } else
+                    } else if (t == TN_DO || t == TN_DONT) {
                        t_state = TNS_SKIP;
+                    } else if (t == TN_SB) {
+                       t_state = TNS_SB;
+                    } else
+                       t_state = TNS_NORM;
+                    break;
+                case TNS_SB:
+                    if (t == TN_IAC)
+                       t_state = TNS_SB_IAC;
+                    break;
+                case TNS_SB_IAC:
+                    t_state = (t == TN_SE) ? TNS_NORM : TNS_SB;
                     break;
                 case TNS_WILL:
                 case TNS_WONT:
-- 
2.43.0


From a5a8c93a8418787cb81365f081efed3e35758f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 067/108] fix: 1052 survives lost clients and failing network
 calls

---
 src/model1052/model1052.c | 49 ++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 24197ed..7efaab8 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -27,6 +27,7 @@
 #include <SDL_thread.h>
 #include <stdio.h>
 #include <stdint.h>
+#include <string.h>
 #ifndef _WIN32
 #include <unistd.h>
 #include <sys/socket.h>
@@ -37,6 +38,9 @@
 #include <winsock2.h>
 #include <ws2tcpip.h>
 #endif
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
 #include "logger.h"
 #include "event.h"
 #include "device.h"
@@ -983,9 +987,12 @@ int
 model1052_thrd(void *data)
 {
     struct _1052_context *ctx = (struct _1052_context *)data;
-    int            j, k;
+    int            j = 0;
+    int            k = 0;
     int            maxfd;
-    int            t_state;      /* Current tellnet state */
+    int            cr;
+    int            t_state = TNS_NORM; /* Current tellnet state */
+    char           ch;
     struct timeval tv = {1,0};
     fd_set         read_set;
     struct sockaddr_in client;
@@ -1000,46 +1007,50 @@ model1052_thrd(void *data)
         if (ctx->cons > 0 && ctx->cons > maxfd)
             maxfd = ctx->cons;
         read_set = ctx->fds_socks;
+        if (k < j && ctx->cons > 0)
+            FD_CLR(ctx->cons, &read_set);
         tv.tv_sec = 0;
         tv.tv_usec = 33000;
-        (void)select(maxfd+1, &read_set, NULL, NULL, &tv);
+        if (select(maxfd+1, &read_set, NULL, NULL, &tv) < 0)
+            FD_ZERO(&read_set);
 
         /* Do accept on socket. */
         if (FD_ISSET(ctx->sock, &read_set)) {
             size = sizeof(client);
             newsock = accept(ctx->sock, (struct sockaddr *)&client, &size);
             log_console("Accept\n\r");
-            if (ctx->cons == 0) {
+            if (newsock < 0) {
+               log_console("Accept failed\n");
+            } else if (ctx->cons == 0) {
                log_console("Connected\n");
                ctx->cons = newsock;
                FD_SET(newsock, &ctx->fds_socks);
-               send(newsock, init_string, 15, 0);
-               ctx->in_ptr = 0;
-               ctx->out_ptr = 0;
-               ctx->in_len = 0;
+               send(newsock, init_string, 15, MSG_NOSIGNAL);
                t_state = TNS_NORM;
            } else {
                static char *msg = "console already connected\n\r";
-               send(newsock, msg, sizeof(msg), 0);
+               send(newsock, msg, strlen(msg), MSG_NOSIGNAL);
                closesocket(newsock);
            }
         }
 
-        /* Send any data ready to send */
-        if (ctx->out_flg) {
-            send(ctx->cons, &ctx->out_buf, 1, 0);
-            log_console("Cons send socket char(%02x)\n", ctx->out_buf);
+        /* Send any data ready to send, a character goes before a carriage return set after it */
+        cr = ctx->out_cr;
+        if (ctx->cons > 0 && ctx->out_flg) {
+            ch = ctx->out_buf;
+            send(ctx->cons, &ch, 1, MSG_NOSIGNAL);
+            log_console("Cons send socket char(%02x)\n", ch);
+            if (ch == '\r')
+               send(ctx->cons, "\n", 1, MSG_NOSIGNAL);
             ctx->out_flg = 0;
-            if (ctx->out_buf == '\r')
-               send(ctx->cons, "\n", 1, 0);
         }
-        if (ctx->out_cr) {
-            send(ctx->cons, "\r\n", 2, 0);
+        if (ctx->cons > 0 && cr) {
             ctx->out_cr = 0;
+            send(ctx->cons, "\r\n", 2, MSG_NOSIGNAL);
         }
 
-        /* Collect any waiting input */
-        if (FD_ISSET(ctx->cons, &read_set)) {
+        /* Collect any waiting input, once all of last input was taken */
+        if (k >= j && FD_ISSET(ctx->cons, &read_set)) {
             j = recv(ctx->cons, buffer, 256, 0);
             if (j == 0) {
                log_console("Disonnected\n");
-- 
2.43.0


From d3f1bcaa900ddd0629840917daa9faa7c0a1af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 068/108] fix: 1052 input shared by console thread and
 processor, latches kept with no client

---
 src/model1052/model1052.c | 108 ++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 52 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 7efaab8..5a3a0b5 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -104,17 +104,16 @@ struct _1052_context {
     SOCKET                 sock;         /* Socket to wait for connection on */
     SOCKET                 cons;         /* Socket to send data over */
     int                    key_buf[256]; /* Buffer holding input record */
-    char                   out_buf;      /* Character to output */
-    int                    out_flg;      /* Output character full */
-    int                    out_cr;       /* Output carrage return when no charater in buffer */
-    int                    in_flg;       /* Accept input */
-    int                    in_ptr;       /* Pointer to where to insert data */
-    int                    out_ptr;      /* Pointer to where to grab data */
-    int                    in_len;       /* Number of characters pending */
+    volatile char          out_buf;      /* Character to output */
+    volatile int           out_flg;      /* Output character full */
+    volatile int           out_cr;       /* Output carrage return when no charater in buffer */
+    volatile int           in_flg;       /* Accept input */
+    volatile int           in_ptr;       /* Pointer to where to insert data, set by thread */
+    volatile int           out_ptr;      /* Pointer to where to grab data, set by CPU */
     int                    home_loop;    /* Home loop flag */
-    int                    attn_flg;     /* Attention key pressed */
-    int                    cancel_flg;   /* Cancel key pressed */
-    int                    eob_flg;      /* Eob key pressed */
+    volatile int           attn_flg;     /* Attention key pressed */
+    volatile int           cancel_flg;   /* Cancel key pressed */
+    volatile int           eob_flg;      /* Eob key pressed */
     fd_set                 fds_socks;    /* Current scaning sockets */
     SDL_Thread             *thrd;        /* Pointer to thread */
     int                    running;      /* Device running. */
@@ -809,13 +808,12 @@ model1052_in(void *data, uint16_t *in_char)
 {
    struct _1052_context *ctx = (struct _1052_context *)data;
    char   ch;
-   if (ctx->in_flg && ctx->in_len > 0) {
-       ch = ctx->key_buf[ctx->out_ptr++];
+   if (ctx->in_flg && ctx->in_ptr != ctx->out_ptr) {
+       ch = ctx->key_buf[ctx->out_ptr];
        *in_char = ascii_to_ebcdic[(ch & 0xff)];
        *in_char |= odd_parity[*in_char];
        log_console("Recieve %02x\n", ch);
-       ctx->out_ptr &= 0xff;
-       ctx->in_len--;
+       ctx->out_ptr = (ctx->out_ptr + 1) & 0xff;
    }
 }
 
@@ -848,59 +846,69 @@ void
 model1052_func(void *data, uint16_t *tags_out, uint16_t tags_in, uint16_t *t_request)
 {
    struct _1052_context *ctx = (struct _1052_context *)data;
+   int                   cancel;
+   int                   eob;
 
    if (t_request != NULL) {
        *t_request = 0;
    }
    *tags_out = 0;
-   if (ctx->cons != 0) {
-       /* Set default tags out */
-       *tags_out = BIT3;
+   /* If we have reset signal, clear pending input and flags */
+   if (tags_in & BIT7) {
+      ctx->in_flg = 0;
+      ctx->out_ptr = ctx->in_ptr;
+      ctx->cancel_flg = 0;
+      ctx->eob_flg = 0;
+      ctx->home_loop = 0;
+   }
 
-       /* If we have reset signal, clear pending input and flags */
-       if (tags_in & BIT7) {
-          ctx->in_flg = 0;
-          ctx->in_len = 0;
-          ctx->out_ptr = ctx->in_ptr;
-          ctx->cancel_flg = 0;
-          ctx->eob_flg = 0;
-          ctx->home_loop = 0;
-       }
+   /* Clear attention signal */
+   if (tags_in & BIT6) {
+       ctx->attn_flg = 0;
+   }
 
-       /* Clear attention signal */
-       if (tags_in & BIT6) {
-           ctx->attn_flg = 0;
-       }
+   /* If Output enabled, if input done, signal ready */
+   if ((tags_in & BIT0) != 0) {
+       ctx->home_loop = 1;
+   }
 
-       /* If Output enabled, if input done, signal ready */
-       if ((tags_in & BIT0) != 0) {
-           ctx->home_loop = 1;
-       }
+   /* If proceed set, signal that we can accept input */
+   if ((tags_in & (BIT1|BIT3)) == (BIT1|BIT3)) {
+      ctx->in_flg = 1;
+   }
+
+   /* If request CR signal to send one */
+   if ((tags_in & BIT5) != 0) {
+       ctx->out_cr = 1;
+   }
+
+   if (ctx->cons != 0) {
+       /* Set default tags out */
+       *tags_out = BIT3;
 
        /* If microshare enabled */
        if ((tags_in & BIT2) != 0) {
            *tags_out |= 0x00;
        }
 
-       /* If proceed set, signal that we can accept input */
-       if ((tags_in & (BIT1|BIT3)) == (BIT1|BIT3)) {
-          ctx->in_flg = 1;
-       }
-
        /* Check if sending characters and finished */
        if (ctx->home_loop != 0 && ctx->out_flg == 0 && ctx->out_cr == 0) {
            *tags_out |= BIT1;
        }
 
+       /* Characters before a cancel or EOB are in the buffer once it is seen */
+       cancel = ctx->cancel_flg;
+       eob = ctx->eob_flg;
+
        /* If we have any input ready flag it as available */
-       if (ctx->in_len > 0) {
+       if (ctx->in_ptr != ctx->out_ptr) {
            *tags_out |= BIT1;
        } else {
            /* Input all drained check of cancel or EOB set */
-           if (ctx->cancel_flg) {
+           if (cancel) {
                *tags_out |= BIT0;
            }
-           if (ctx->eob_flg) {
+           if (eob) {
                *tags_out |= BIT2;
            }
        }
@@ -910,11 +918,6 @@ model1052_func(void *data, uint16_t *tags_out, uint16_t tags_in, uint16_t *t_req
            *tags_out |= BIT6;
        }
 
-       /* If request CR signal to send one */
-       if ((tags_in & BIT5) != 0) {
-           ctx->out_cr = 1;
-       }
-
        /* Check if we need to notify the CPU of anything */
        if (t_request != NULL && (*tags_out & 0xef) != 0) {
            *t_request = 1;
@@ -966,11 +969,10 @@ push_char(struct _1052_context *ctx, char in_char)
            ctx->eob_flg = 1;
            ctx->out_cr = 1;
        } else {
-           ctx->key_buf[ctx->in_ptr++] = in_char;
-           ctx->in_ptr &= 0xff;
-           ctx->in_len++;
+           ctx->key_buf[ctx->in_ptr] = in_char;
+           ctx->in_ptr = (ctx->in_ptr + 1) & 0xff;
            log_console("Cons push_char(%02x)\n", in_char);
-           send(ctx->cons, &in_char, 1, 0);
+           send(ctx->cons, &in_char, 1, MSG_NOSIGNAL);
        }
     }
 }
@@ -1059,7 +1061,9 @@ model1052_thrd(void *data)
                ctx->cons = 0;
             }
             k = 0;
-            while(k < j && ctx->in_len < 256) {
+        }
+        if (k < j) {
+            while(k < j && (!ctx->in_flg || ((ctx->in_ptr + 1) & 0xff) != ctx->out_ptr)) {
                char t;
 
                t = buffer[k++];
-- 
2.43.0


From 52dcda6f6fbf77a3b42483d07e77474909cee11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 069/108] fix: text entry overran its buffer on long input,
 dropped the key that replaced a selection and cleared on a plain u

---
 src/panel/text.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/panel/text.c b/src/panel/text.c
index e3d09bd..0679113 100644
--- a/src/panel/text.c
+++ b/src/panel/text.c
@@ -23,6 +23,8 @@
  *
  */
 
+#include <stdio.h>
+#include <string.h>
 #include "text.h"
 #include "logger.h"
 
@@ -94,6 +96,8 @@ display_textedit(Widget wid, SDL_Renderer *render)
          char     buf[256];
 
          strncpy(buf, &data->text[data->spos], data->epos - data->spos);
+         buf[data->epos - data->spos] = '\0';
+         SDL_DestroyTexture(text);
          surf = TTF_RenderText_Blended(font14, buf, c_white);
          text = SDL_CreateTextureFromSurface( render, surf);
          SDL_QueryTexture(text, NULL, NULL, &sw, &sh);
@@ -196,7 +200,7 @@ textcutpaste(struct _text_t *text, int remove, int insert, int copy)
              buffer[i] = text->text[i];
          /* Copy the buffer into place */
          text->spos = i;
-         for (j = 0; i < sizeof(buffer) && p[j] != '\0'; j++) {
+         for (j = 0; text->len + j < sizeof(buffer) - 1 && p[j] != '\0'; j++) {
              if (p[j] == '\t')  /* Convert tabs to space */
                 p[j] = ' ';
              if (p[j] < ' ')   /* Anything not character, abort */
@@ -204,15 +208,15 @@ textcutpaste(struct _text_t *text, int remove, int insert, int copy)
              buffer[i++] = p[j];
          }
          /* Copy rest of buffer */
-         j = text->epos;
+         j = text->spos;
          text->epos = i;
          text->cpos = i;
-         while (i < sizeof(buffer) && text->text[j] != '\0')
+         while (text->text[j] != '\0')
              buffer[i++] = text->text[j++];
          buffer[i++] = '\0';
          /* Set text to new buffer */
          strcpy(text->text, buffer);
-         text->sel = 1;
+         text->sel = text->spos < text->epos;
          SDL_free(p);
      }
      /* Update pixel positions */
@@ -237,20 +241,22 @@ insert_textedit(Widget wid, SDL_TextInputEvent *text)
      t = text->text;
      /* Remove the selection before inserting new text */
      if (data->sel) {
-         return textcutpaste(data, 1, 0, 0);
+         textcutpaste(data, 1, 0, 0);
      }
      /* Copy up to start of selection */
      for (i = 0; i < data->cpos && data->text[i] != '\0'; i++) {
           buffer[i] = data->text[i];
      }
      j = i;  /* Save position */
-     while (i < sizeof(buffer) && *t != '\0')
+     while (data->len < sizeof(buffer) - 1 && *t != '\0') {
          buffer[i++] = *t++;
+         data->len++;
+     }
      data->cpos = i;
      buffer[i] = '\0';
      TTF_SizeText(font14, buffer, &w, &h);
      data->cpos_x = w;
-     while (i < sizeof(buffer) && data->text[j] != '\0')
+     while (data->text[j] != '\0')
           buffer[i++] = data->text[j++];
      buffer[i++] = '\0';
      /* Set text to new buffer */
@@ -309,7 +315,7 @@ static void
 motion_textedit(Widget wid, int x, int y)
 {
      struct _text_t *data = (struct _text_t *)wid->data;
-     int cur_pos = data->cpos;  /* Save current position */
+     int cur_pos = data->ipos;  /* Where selection was started */
      int pos;
 
      if (!data->selecting) {
@@ -375,6 +381,8 @@ keypress_textedit(Widget wid, SDL_KeyboardEvent *key)
      }
      switch (key->keysym.scancode) {
      case SDL_SCANCODE_U:
+          if ((key->keysym.mod & KMOD_CTRL) == 0)
+              break;
           data->cpos = 0;
           data->cpos_x = 0;
           data->sel = 0;
@@ -424,8 +432,10 @@ release_textedit(Widget wid)
 
      if (data->selecting) {
          data->selecting = 0;
-         data->cpos = data->epos;
-         data->cpos_x = data->srect.x + data->srect.w;
+         if (data->sel) {
+             data->cpos = data->epos;
+             data->cpos_x = data->srect.x + data->srect.w;
+         }
      }
 }
 
@@ -454,7 +464,7 @@ set_textbuffer(Widget wid, char *source)
      struct _text_t *data = (struct _text_t *)wid->data;
 
      if (source != NULL) {
-         strncpy(data->text, source, 256);
+         snprintf(data->text, sizeof(data->text), "%s", source);
      } else {
          data->text[0] = '\0';
      }
@@ -479,7 +489,7 @@ add_textinput(Panel win, int x, int y, int h, int w, char *text)
    }
 
    if (text != NULL) {
-       strncpy(txt->text, text, 256);
+       snprintf(txt->text, sizeof(txt->text), "%s", text);
    } else {
        txt->text[0] = '\0';
    }
-- 
2.43.0


From 15c9a9790e9f9f76b0f68a9ee5e4d0bf902e1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 070/108] fix: roller could be turned to a position past its
 last row and never back to the first

---
 src/model2050/panel2050.c | 8 ++++----
 src/panel/roller.c        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/model2050/panel2050.c b/src/model2050/panel2050.c
index 0cf13db..f06667f 100644
--- a/src/model2050/panel2050.c
+++ b/src/model2050/panel2050.c
@@ -216,7 +216,7 @@ setup_fp2050(char *title)
 
     roffset = 180;
 
-    add_roller(cpu_panel, roffset, pos, &rect, roll, 7, &roller_1, 36, roller_offset, LAMP_WHITE);
+    add_roller(cpu_panel, roffset, pos, &rect, roll, 8, &roller_1, 36, roller_offset, LAMP_WHITE);
     rect.y += 8 * rect.h;
     pos += (rect.h * 3) + 25;
 
@@ -241,13 +241,13 @@ setup_fp2050(char *title)
     add_label_center(cpu_panel, wx*2, p+(h1/2)+2, wx*8, "DISPLAY", font1, &c_black);
 
 
-    add_roller(cpu_panel, roffset, pos, &rect, roll, 7, &roller_2, 36, roller_offset, LAMP_WHITE);
+    add_roller(cpu_panel, roffset, pos, &rect, roll, 8, &roller_2, 36, roller_offset, LAMP_WHITE);
     rect.y += 8 * rect.h;
     pos += (rect.h * 3) + 25;
-    add_roller(cpu_panel, roffset, pos, &rect, roll, 7, &roller_3, 36, roller_offset, LAMP_WHITE);
+    add_roller(cpu_panel, roffset, pos, &rect, roll, 8, &roller_3, 36, roller_offset, LAMP_WHITE);
     rect.y += 8 * rect.h;
     pos += (rect.h * 3) + 25;
-    add_roller(cpu_panel, roffset, pos, &rect, roll, 7, &roller_4, 36, roller_offset, LAMP_WHITE);
+    add_roller(cpu_panel, roffset, pos, &rect, roll, 8, &roller_4, 36, roller_offset, LAMP_WHITE);
     pos += (rect.h * 3);
     add_area(cpu_panel, roffset, pos, hx, rw2, &c_black);
     h = hx*4 + (hx/2);
diff --git a/src/panel/roller.c b/src/panel/roller.c
index 2595c72..e1fa40b 100644
--- a/src/panel/roller.c
+++ b/src/panel/roller.c
@@ -90,8 +90,8 @@ click_roller(Widget wid, int x, int y)
          }
    } else {
          rol->pos--;
-         if (rol->pos <= 0) {
-             rol->pos = rol->rows;
+         if (rol->pos < 0) {
+             rol->pos = rol->rows - 1;
          }
    }
 }
-- 
2.43.0


From 63c354a063dd7a78eb357261aba6e016ba16dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 071/108] fix: devices behind a 2314 were left out of the
 device window

---
 src/panel/panel_device.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/panel/panel_device.c b/src/panel/panel_device.c
index 21ecac1..ad7369d 100644
--- a/src/panel/panel_device.c
+++ b/src/panel/panel_device.c
@@ -170,7 +170,7 @@ create_device_window()
                       np2->w = 0;
                       np2->dev = dev;
                       np2->unit = j + 1;
-                      np2->next = np;
+                      np->next = np2;
                       np = np2;
                   }
                   p = np;
-- 
2.43.0


From 996eccdd1e07aaeed68cb2805e09002dc0c132ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 072/108] fix: CPU thread was still using devices, locks and
 windows while they were shut down

---
 src/panel/panel.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/panel/panel.c b/src/panel/panel.c
index 31281f4..f27d91c 100644
--- a/src/panel/panel.c
+++ b/src/panel/panel.c
@@ -447,11 +447,13 @@ run_sim()
     }
 
 	log_trace("Done\n");
+    /* Stop everything that uses the devices before closing them */
+    SDL_WaitThread(thrd, NULL);
+    SDL_RemoveTimer(disp_timer);
     system_shutdown();
     close_windows();
 
-    SDL_WaitThread(thrd, NULL);
-    SDL_RemoveTimer(disp_timer);
+    TTF_CloseFont(font0);
     TTF_CloseFont(font1);
     TTF_CloseFont(font10);
     TTF_CloseFont(font12);
-- 
2.43.0


From 0a2e47b6278580ae3786c03437d1ab4968e4e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 073/108] fix: quit was ignored when its unused window field
 named a window

---
 src/panel/panel.c | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/panel/panel.c b/src/panel/panel.c
index f27d91c..0c6c39e 100644
--- a/src/panel/panel.c
+++ b/src/panel/panel.c
@@ -325,7 +325,13 @@ run_sim()
     thrd = SDL_CreateThread(process, "CPU", NULL);
     disp_timer = SDL_AddTimer(20, &timer_callback, NULL);
     while(POWER) {
-        while(SDL_PollEvent(&event)) {
+        while(POWER && SDL_PollEvent(&event)) {
+           /* Rest of quit event does not hold a window */
+           if (event.type == SDL_QUIT) {
+                log_trace("Quit\n");
+                POWER = 0;
+                break;
+           }
            if (event.type == SDL_WINDOWEVENT) {
                 if (event.window.event == SDL_WINDOWEVENT_CLOSE) {
                        for (winp = win_list_head; winp != NULL; winp = winp->next) {
@@ -419,26 +425,6 @@ run_sim()
                     if (fps < 18)
                         SDL_Delay(18 - fps);
                     break;
-               case SDL_WINDOWEVENT:
-                       switch (event.window.event) {
-                       case SDL_WINDOWEVENT_CLOSE:
-                            for (winp = win_list_head; winp != NULL; winp = winp->next) {
-                                if (winp->windowID == event.window.windowID) {
-                                    if (winp->popup) {
-                                       close_window(winp);
-                                    }
-                                    break;
-                                }
-                            }
-                            printf("Close\n");
-                            break;
-                        }
-                    break;
-               case SDL_QUIT:
-                    log_trace("Quit\n");
-                    POWER = 0;
-                    cpu_count = 0;
-                    break;
                default:
                     break;
                }
-- 
2.43.0


From e42e3558c7b0abba55372fffa9fcf933dd4d9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:59 +0000
Subject: [PATCH 074/108] fix: operator's windows changed devices while the CPU
 thread was using them

---
 src/panel/panel.c | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/panel/panel.c b/src/panel/panel.c
index 0c6c39e..0d11cee 100644
--- a/src/panel/panel.c
+++ b/src/panel/panel.c
@@ -83,6 +83,7 @@ int          fps;
 SDL_bool over_cycle = SDL_FALSE;     /* Indicates over number of count cycles */
 SDL_mutex  *display_mutex;           /* Lock for display update */
 SDL_cond   *display_wait;            /* Display waiting for update */
+volatile int ui_request;             /* Display wants CPU thread to pause */
 
 
 uint64_t step_count;
@@ -310,6 +311,28 @@ timer_callback(uint32_t interval, void *param)
     return interval;
 }
 
+/*
+ * Stop the CPU thread between steps. The CPU thread holds display_mutex while
+ * it is stepping, so nothing it uses can change under it.
+ */
+static void
+lock_sim()
+{
+    ui_request = 1;
+    SDL_LockMutex(display_mutex);
+    ui_request = 0;
+}
+
+/*
+ * Let CPU thread continue.
+ */
+static void
+unlock_sim()
+{
+    SDL_CondSignal(display_wait);
+    SDL_UnlockMutex(display_mutex);
+}
+
 void
 run_sim()
 {
@@ -337,7 +360,9 @@ run_sim()
                        for (winp = win_list_head; winp != NULL; winp = winp->next) {
                            if (winp->windowID == event.window.windowID) {
                                if (winp->popup) {
+                                  lock_sim();
                                   close_window(winp);
+                                  unlock_sim();
                                }
                                break;
                            }
@@ -352,6 +377,7 @@ run_sim()
            }
 
            if (winp != NULL) {
+               lock_sim();
                switch(event.type) {
                case SDL_MOUSEBUTTONDOWN:
                     /* Check for click */
@@ -411,15 +437,15 @@ run_sim()
                default:
                     break;
                }
+               unlock_sim();
            } else {
                switch(event.type) {
                case SDL_USEREVENT:
                     ticks = SDL_GetTicks();
                     draw_screen();
-                    SDL_LockMutex(display_mutex);
+                    lock_sim();
                     cpu_count = 0;
-                    SDL_CondSignal(display_wait);
-                    SDL_UnlockMutex(display_mutex);
+                    unlock_sim();
                     fps = (int)(SDL_GetTicks() - ticks);
                     SDL_FlushEvent(SDL_USEREVENT);
                     if (fps < 18)
@@ -455,22 +481,18 @@ run_sim()
 int process(void *data) {
     log_info("Process start %d\n", cpu_count);
     cpu_count = 0;
+    SDL_LockMutex(display_mutex);
     while(POWER) {
        cpu_count++;
        step_count++;
-       if (cpu_count > 20000) {
-          SDL_LockMutex(display_mutex);
-          while (cpu_count > 20000 && POWER) {
-               SDL_CondWaitTimeout(display_wait, display_mutex, 50);
-          }
-          SDL_UnlockMutex(display_mutex);
+       while ((cpu_count > 20000 || ui_request) && POWER) {
+            SDL_CondWaitTimeout(display_wait, display_mutex, 50);
        }
        (*step_cpu)();
        step_disk();
        step_disk();
        advance();
     }
+    SDL_UnlockMutex(display_mutex);
     return 0;
 }
-
-
-- 
2.43.0


From f920ee066b5b3557bc76fc69ec2e42ce3cdfc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:59 +0000
Subject: [PATCH 075/108] fix: clicking on or drawing a drive that is not
 configured dereferenced a null pointer

---
 src/model2415/panel2415.c | 6 +++++-
 src/model2844/panel2844.c | 4 ++++
 src/panel/panel_device.c  | 3 +++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/model2415/panel2415.c b/src/model2415/panel2415.c
index c525a65..7020c3f 100644
--- a/src/model2415/panel2415.c
+++ b/src/model2415/panel2415.c
@@ -72,7 +72,7 @@ model2415_draw(struct _device *unit, void *rend, int u)
     float        p;
 
 
-        if (ctx->tape[u]->file_name != NULL) {
+        if (ctx->tape[u] != NULL && ctx->tape[u]->file_name != NULL) {
             rect2.x = 0;
             rect2.y = 0;
             rect2.w = unit->rect[u].w;
@@ -347,6 +347,10 @@ model2415_control(struct _device *unit, int u, int x, int y)
     int    row;
     char   buffer[100];
 
+    /* No drive on this address */
+    if (ctx->tape[u] == NULL) {
+        return NULL;
+    }
     if (TTF_SizeText(font10, "M", &wx, &hx) != 0) {
         return NULL;
     }
diff --git a/src/model2844/panel2844.c b/src/model2844/panel2844.c
index d04cdca..55c7b37 100644
--- a/src/model2844/panel2844.c
+++ b/src/model2844/panel2844.c
@@ -309,6 +309,10 @@ model2314_control(struct _device *unit, int u, int x, int y)
     char   buffer[100];
     char   lab[2];
 
+    /* No drive on this address */
+    if (ctx->disk[u] == NULL) {
+        return NULL;
+    }
     if (TTF_SizeText(font10, "M", &wx, &hx) != 0) {
         return NULL;
     }
diff --git a/src/panel/panel_device.c b/src/panel/panel_device.c
index ad7369d..c5e8049 100644
--- a/src/panel/panel_device.c
+++ b/src/panel/panel_device.c
@@ -94,6 +94,9 @@ click_device(Widget wid, int x, int y)
     }
     if (ctrl->create_control != NULL) {
         popup = (Panel)(*ctrl->create_control)(ctrl->unit, ctrl->u, x, y);
+        if (popup == NULL) {
+            return;
+        }
         ctrl->popup = popup;
         ctrl->popupID = popup->windowID;
         popup->parentID =  ctrl->parentID;
-- 
2.43.0


From bddbb571f54489e7ea9b1f12fc75f07e1f84a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:05 +0000
Subject: [PATCH 076/108] fix: mounted tapes and disks were not written out at
 power off

---
 src/model2415/model2415.c | 16 ++++++++++++++++
 src/model2844/model2844.c | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 41a84c3..0580cee 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1467,6 +1467,21 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     }
 }
 
+/*
+ * Write out any buffered records at shutdown.
+ */
+static void
+model2415_close(struct _device *unit)
+{
+    struct _2415_context *ctx = (struct _2415_context *)unit->dev;
+    int    i;
+
+    for (i = 0; i < unit->n_units; i++) {
+        if (ctx->tape[i] != NULL)
+            tape_detach(ctx->tape[i]);
+    }
+}
+
 /*
  * Create a 2415 tape device.
  */
@@ -1574,6 +1589,7 @@ model2415_create(struct _option *opt)
          dev2415->draw_model = (void *)&model2415_draw;
          dev2415->create_ctrl = (void *)&model2415_control;
          dev2415->init_device = (void *)&model2415_init;
+         dev2415->close_device = &model2415_close;
          dev2415->type_name = "2415";
          dev2415->n_units = 6;
          if (opt->flags & 1) {
diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 68b5c74..10a6fd0 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -70,6 +70,21 @@ static char *cs_name[16] =
 
 
 
+/*
+ * Write out any changed cylinders at shutdown.
+ */
+static void
+model2844_close(struct _device *unit)
+{
+     struct _2844_context *ctx = (struct _2844_context *)unit->dev;
+     int    i;
+
+     for (i = 0; i < 8; i++) {
+         if (ctx->disk[i] != NULL)
+             dasd_detach(ctx->disk[i]);
+     }
+}
+
 struct _device *
 model2844_init(uint16_t addr)
 {
@@ -91,6 +106,7 @@ model2844_init(uint16_t addr)
      dev2844->draw_model = &model2314_draw;
      dev2844->create_ctrl = &model2314_control;
      dev2844->init_device = &model2314_init_graphics;
+     dev2844->close_device = &model2844_close;
      dev2844->dev = (void *)ctx;
      dev2844->type_name = "2844";
      dev2844->n_units = 8;
-- 
2.43.0


From 29c6b280c2f22f6ba9608a45d6546a0329abc345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:05 +0000
Subject: [PATCH 077/108] fix: 2415 and 2314 pictures read an uninitialised
 index and leaked a texture per frame

---
 src/model2415/panel2415.c | 2 +-
 src/model2844/panel2844.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2415/panel2415.c b/src/model2415/panel2415.c
index 7020c3f..0654682 100644
--- a/src/model2415/panel2415.c
+++ b/src/model2415/panel2415.c
@@ -148,7 +148,7 @@ model2415_draw(struct _device *unit, void *rend, int u)
                 rect.y = (75 * (j)) + 4;
             }
             SDL_RenderCopy(render, tape_images_img, &rect, &rect2);
-            if (ctx->supply_label[i]) {
+            if (ctx->supply_label[u]) {
                 if (rect.x > 1125)
                     rect.x -= (75 * 2);
                 else
diff --git a/src/model2844/panel2844.c b/src/model2844/panel2844.c
index 55c7b37..a88dc75 100644
--- a/src/model2844/panel2844.c
+++ b/src/model2844/panel2844.c
@@ -237,6 +237,7 @@ model2314_draw(struct _device *unit, void *rend, int u)
     rect2.x = x + 52;
     rect2.y = y + 20;
     SDL_RenderCopy(render, txt, NULL, &rect2);
+    SDL_DestroyTexture(txt);
 
     sprintf(buf, "%1X%02X", ctx->chan, ctx->addr + u + 1);
     text = TTF_RenderText_Solid(font14, buf, c_black);
-- 
2.43.0


From fbf1bcecb61b3238217b0fbe6c17d6ea4a10999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:05 +0000
Subject: [PATCH 078/108] fix: 2050 reset left a storage cycle going with an
 address outside storage

---
 src/model2050/cpu2050.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 552b8ed..853203b 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -703,7 +703,9 @@ cycle_2050()
         cpu_2050.init_mem = 0;
         cpu_2050.init_bump_mem = 0;
         cpu_2050.bump_mem = 0;
+        cpu_2050.update_d = 0;
         cpu_2050.mem_state = 0;
+        SA = 0;
         LOAD = 0;
         INTR = 0;
         cpu_2050.wait = 0;
@@ -748,6 +750,9 @@ cycle_2050()
         cpu_2050.init_mem = 0;
         cpu_2050.init_bump_mem = 0;
         cpu_2050.bump_mem = 0;
+        cpu_2050.update_d = 0;
+        cpu_2050.mem_state = 0;
+        SA = 0;
         cpu_2050.break_in = 0;
         cpu_2050.break_out = 0;
         cpu_2050.first_cycle = 0;
@@ -766,6 +771,9 @@ cycle_2050()
         cpu_2050.init_mem = 0;
         cpu_2050.init_bump_mem = 0;
         cpu_2050.bump_mem = 0;
+        cpu_2050.update_d = 0;
+        cpu_2050.mem_state = 0;
+        SA = 0;
         ROAR_RST = 0;
     }
 
-- 
2.43.0


From 9b604cf6a6877bfb02b6dbeca8b3ce2f314791dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:05 +0000
Subject: [PATCH 079/108] fix: 2050 panel read past its table of lamp offsets

---
 src/model2050/panel2050.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2050/panel2050.c b/src/model2050/panel2050.c
index f06667f..a85d024 100644
--- a/src/model2050/panel2050.c
+++ b/src/model2050/panel2050.c
@@ -253,7 +253,7 @@ setup_fp2050(char *title)
     h = hx*4 + (hx/2);
     add_outline(cpu_panel, roffset, pos, h, rw2, &c_black);
     p = roffset - 6;
-    for (i = 0; i < sizeof(lamp_row1) / sizeof(lamp_row); i++) {
+    for (i = 0; i < 36; i++) {
         p += roller_offset[i];
         switch (i) {
         case 4:
@@ -300,7 +300,7 @@ setup_fp2050(char *title)
         }
     }
     pos += hx;
-    add_lamp_row(cpu_panel, roffset, pos, lamp_row1, sizeof(lamp_row1) / sizeof(lamp_row), roller_offset, font0, &c_black);
+    add_lamp_row(cpu_panel, roffset, pos, lamp_row1, 36, roller_offset, font0, &c_black);
     pos += (rect.h * 2);
     add_area(cpu_panel, roffset, pos, hx, rw2, &c_black);
     h = hx*4 + (hx/2);
-- 
2.43.0


From c2de0abeab0e4bbb5fc09f5c05c1761be389d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 080/108] fix: 1442 reset left the command running and its
 events armed

---
 src/model1442/model1442.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index ce50eb6..6f119ab 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -372,8 +372,19 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
            *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
         }
         log_device("1442: %03x reset\n",unit->addr);
+        if (ctx->busy) {
+            cancel_event(unit, &read_callback);
+            cancel_event(unit, &write_callback);
+            cancel_event(unit, &feed_callback);
+            /* A card that is moving goes on to the next station */
+            if ((ctx->cmd & 03) == 3 || ((ctx->cmd & 03) == 2 && ctx->rdr_col != 0) ||
+                ((ctx->cmd & 03) == 1 && (ctx->cmd & 0x80) != 0 && ctx->data_end)) {
+                model1442_feed(ctx);
+            }
+        }
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
         ctx->status = 0;
         ctx->sense = 0;
-- 
2.43.0


From d72df18186f35c0535c4bfaa82177618336b8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 081/108] fix: 2415 device end lost when a rewind finished
 during selection

---
 src/model2415/model2415.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 0580cee..d5a7e2b 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1144,6 +1144,11 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     break;
                 }
                 ctx->state = STATE_STATUS; /* Present status out */
+                /* Rewind may have finished since unit was selected */
+                if (ctx->rdy_flags & (1 << ctx->cur_unit)) {
+                    ctx->rdy_flags &= ~(1 << ctx->cur_unit);
+                    ctx->status |= SNS_DEVEND;
+                }
                 if (!unit->stacked && ctx->status == 0) {       /* If no stacked status, process command */
                     device_cmd(unit, bus_out & 0xff);
                 } else if ((bus_out & 0xff) != 0) {
-- 
2.43.0


From 4dda7935ee62fc43baae34364fc7b8b89bb0c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 082/108] fix: 2050 channel could not end an instruction while
 another channel had broken in

---
 src/model2050/cpu2050.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 853203b..b968d65 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -592,6 +592,21 @@ static    char     *ss_name[] = {
                   "1->SERVOUT",
               };
 
+/*
+ * Set S3 to tell the processor that a channel finished an instruction.
+ * While another channel has broken in, the interrupted cycle is yet to be
+ * repeated, so hold the stat until the registers have been restored.
+ */
+static void
+set_s3()
+{
+    if (cpu_2050.break_out) {
+        cpu_2050.s3_set = 1;
+    } else {
+        cpu_2050.S_REG |= BIT3;
+    }
+}
+
 void
 cycle_2050()
 {
@@ -5500,7 +5515,7 @@ channel:
                                  cpu_2050.CHCLK[i] = 0;
                                  cpu_2050.CHCTL = 0;
                                  cpu_2050.inst_latch = 0;
-                                 cpu_2050.S_REG |= BIT3;
+                                 set_s3();
                                  break;
                              }
                          }
@@ -5516,7 +5531,7 @@ channel:
                                   cpu_2050.polling[i] = 1;
                                   cpu_2050.CHCTL = 0;
                                   cpu_2050.inst_latch = 0;
-                                  cpu_2050.S_REG |= BIT3;
+                                  set_s3();
                               } else {
                                   cpu_2050.CHREQ[i] = BIT3;   /* Request End processing */
                                   cpu_2050.IF_STOP[i] = 1;
@@ -5561,7 +5576,7 @@ channel:
                                  cpu_2050.polling[i] = 1;
                                  cpu_2050.CHCTL = 0;
                                  cpu_2050.inst_latch = 0;
-                                 cpu_2050.S_REG |= BIT3;
+                                 set_s3();
                              } else {
                                  cpu_2050.IOSTAT[i] = BIT4;  /* Status only */
                                  cpu_2050.BCHI |= BIT1 >> i;    /* Request interrupt */
@@ -5647,7 +5662,7 @@ channel:
                                  cpu_2050.polling[i] = 1;
                                  cpu_2050.CC = 0;
                                  cpu_2050.inst_latch = 0;
-                                 cpu_2050.S_REG |= BIT3;
+                                 set_s3();
                               }
                               break;
                          }
@@ -5694,7 +5709,7 @@ channel:
                                  cpu_2050.CC = 0;
                                  cpu_2050.CHCTL = 0;
                                  cpu_2050.inst_latch = 0;
-                                 cpu_2050.S_REG |= BIT3;
+                                 set_s3();
                              }
                              break;
                          }
@@ -5720,7 +5735,7 @@ channel:
                              cpu_2050.CC = 0;
                              cpu_2050.CHCTL = 0;
                              cpu_2050.inst_latch = 0;
-                             cpu_2050.S_REG |= BIT3;
+                             set_s3();
                              break;
                          }
                          break;
@@ -5736,7 +5751,7 @@ channel:
                          cpu_2050.polling[i] = 1;
                          cpu_2050.inst_latch = 0;
                          cpu_2050.CC = 1;
-                         cpu_2050.S_REG |= BIT3;
+                         set_s3();
                          break;
                }
             }
@@ -5909,7 +5924,7 @@ channel:
                         cpu_2050.CC = 1;
                         cpu_2050.CHCTL = 0;
                         cpu_2050.inst_latch = 0;
-                        cpu_2050.S_REG |= BIT3;
+                        set_s3();
                     }
                     cpu_2050.C3[i] = 0;
                     cpu_2050.FLAGS_REG[i] &= ~(0x08ff);
-- 
2.43.0


From d21550c85da06f186071a87c9c6f19d4ebb9021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 083/108] fix: 2050 selector channel routines acted on the
 cycles of other channels and on the instruction of another channel

---
 src/model2050/cpu2050.c   | 39 +++++++++++++++++++++------------------
 src/model2050/model2050.h |  1 +
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index b968d65..f063f28 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3932,6 +3932,7 @@ cycle_2050()
                 if (cpu_2050.CHCTL == 0x80) {
                     i = 0;
                 }
+                cpu_2050.inst_ch = (i - 1) & 3;    /* Channel of this instruction */
                 if (i > 3) {   /* Invalid channel */
                     cpu_2050.CC = 3;
                     s_update |= BIT3;     /* <-- */
@@ -5254,7 +5255,7 @@ channel:
                       cpu_2050.break_in |= mask;
                       break;
              case BIT4:  /* SIO Routine */
-                      if (cpu_2050.inst_latch && i == (((cpu_2050.L_REG >> 8) -1) & 0x3)) {
+                      if (cpu_2050.inst_latch && cpu_2050.inst_ch == i) {
                           cpu_2050.ROUTINE[i] = 0x10;   /* .STIO qv100 */
                           cpu_2050.FLAGS_REG[i] = 0;
                       } else {
@@ -5287,17 +5288,19 @@ channel:
     /* Flags register holds CCW flags in upper byte, check flags in lower byte */
     for (i = 0; i < 3; i++) {
         int   ch = i + 1;
-        int   inst = cpu_2050.inst_latch & (cpu_2050.CH == i);
+        int   full = 0;
+        int   inst = cpu_2050.inst_latch && (cpu_2050.inst_ch == i);
+        int   sel = (cpu_2050.CH == i);   /* Channel routine is for this channel */
         cpu_2050.TAGS_IN[ch] &= IN_TAGS;
         cpu_2050.TAGS_IN[ch] |= cpu_2050.TAGS[ch];
         for (dev = chan[ch]; dev != NULL; dev = dev->next) {
              dev->bus_func(dev, &cpu_2050.TAGS_IN[ch], cpu_2050.BUS_OUT[ch], &cpu_2050.BUS_IN[ch]);
         }
         if (cpu_2050.CHPOS[i] != 0) {
-            if (cpu_2050.CHPOS[i] == 0x200 && cpu_2050.last_cycle) {
+            if (cpu_2050.CHPOS[i] == 0x200 && cpu_2050.last_cycle && sel) {
                    cpu_2050.CHPOS[i] = 0;
             }
-            if (cpu_2050.CHPOS[i] == 0x400 && cpu_2050.last_cycle) {
+            if (cpu_2050.CHPOS[i] == 0x400 && cpu_2050.last_cycle && sel) {
                    cpu_2050.CHCLK[i] = 0;
                    cpu_2050.CHPOS[i] = 0;
                    cpu_2050.B_REG[i] = cpu_2050.aob_latch;
@@ -5307,7 +5310,7 @@ channel:
             /* UA Fetch */
             if (cpu_2050.CHPOS[i] == 0x100) {
                log_device("UA Fetch\n");
-               if (dtc2) {
+               if (dtc2 && sel) {
                    log_device("DTC2\n");
                    dtc2 = 0;
                    cpu_2050.C_REG[i] = cpu_2050.aob_latch;
@@ -5322,7 +5325,7 @@ channel:
                log_device("CCW1 D2=%d\n", cpu_2050.D2[i]);
                /* On entry IOS1 is SMS flag */
                /* D2 indicates last operation was TIC */
-               if (dtc2) {
+               if (dtc2 && sel) {
                    int   cmd;
                    log_selchn("DTC2 %x\n", cpu_2050.CHCLK[i]);
                    dtc2 = 0;
@@ -5394,7 +5397,7 @@ channel:
                            break;
                    }
                }
-               if (cpu_2050.last_cycle) {
+               if (cpu_2050.last_cycle && sel) {
                            cpu_2050.ROUTINE[i] = 0x30;  /* .CCW2 qv103 */
                            cpu_2050.CHPOS[i] = BIT1;
                            cpu_2050.CHCLK[i] = 0;
@@ -5408,7 +5411,7 @@ channel:
                 log_device("CCW2 D2=%d\n", cpu_2050.D2[i]);
                 /* IOSTAT 2 = TIC
                    IOSTAT 1 = BKWD */
-                if (dtc2) {
+                if (dtc2 && sel) {
                     log_selchn("DTC2 %x\n", cpu_2050.CHCLK[i]);
                     dtc2 = 0;
                     switch(cpu_2050.CHCLK[i]) {
@@ -5761,7 +5764,7 @@ channel:
                 /* IOSTAT 3 = LS loaded
                    IOSTAT 2 = SKIP
                    IOSTAT 1 = BKWD */
-                if (cpu_2050.last_cycle) {
+                if (cpu_2050.last_cycle && sel) {
                     log_trace("Last cycle\n");
                     cpu_2050.CHCLK[i] = 0;
                     cpu_2050.CHPOS[i] = 0;
@@ -5779,7 +5782,7 @@ channel:
             /* Write Fetch */
             if (cpu_2050.CHPOS[i] == BIT4) {
                log_device("Write fetch\n");
-               if (dtc2) {
+               if (dtc2 && sel) {
                    switch(cpu_2050.CHCLK[i]) {
                    case 0:
                             cpu_2050.CHCLK[i] = 1;
@@ -5798,7 +5801,7 @@ channel:
                             break;
                    }
                }
-               if (cpu_2050.last_cycle) {
+               if (cpu_2050.last_cycle && sel) {
                    log_trace("Last cycle\n");
                    cpu_2050.CHCLK[i] = 0;
                    cpu_2050.CHPOS[i] = 0;
@@ -5813,7 +5816,7 @@ channel:
                   IOSTAT 2 = Not 2 regs full and not 1 reg ful
                   IOSTAT 1 = WR CHAIN DATA AND NEW CCW NOT USED,
                   C3 indicates PCI */
-               if (dtc1) {
+               if (dtc1 && sel) {
                    log_device("DTC1\n");
                    dtc1 = 0;
                    switch(cpu_2050.CHCLK[i]) {
@@ -5861,7 +5864,7 @@ channel:
                           break;
                    }
                }
-               if (cpu_2050.last_cycle) {
+               if (cpu_2050.last_cycle && sel) {
                    /* Check for Short Length record. */
                    if (cpu_2050.C3[i] == 0 &&
                        (cpu_2050.FLAGS_REG[i] & ((CHAN_SLI_FLAG) << 8)) == 0 &&
@@ -5876,18 +5879,18 @@ channel:
             /* Compare */
             if (cpu_2050.CHPOS[i] == BIT6) {
                 log_device("Compare\n");
-                if (cpu_2050.first_cycle) {
+                if (cpu_2050.first_cycle && sel) {
                     cpu_2050.L_REG &= 0x00ffffff;
                     cpu_2050.L_REG |= cpu_2050.C_REG[i] & 0xff000000;
                 }
-                if (dtc2) {
+                if (dtc2 && sel) {
                     if ((cpu_2050.aob_latch & 0x00800000) != 0) {
                         cpu_2050.C1[i] = 1;
                     } else {
                         cpu_2050.C1[i] = 0;
                     }
                 }
-                if (cpu_2050.last_cycle) {
+                if (cpu_2050.last_cycle && sel) {
                     cpu_2050.CHPOS[i] = 0;
                     cpu_2050.TAGS[ch] |= CHAN_CMD_OUT;
                 }
@@ -5900,7 +5903,7 @@ channel:
                       1   1    Poll Proceed.
                  */
                 log_device("Intrp %d %d\n", cpu_2050.D1[i], cpu_2050.C3[i]);
-                if (dtc1) {
+                if (dtc1 && sel) {
                     log_device("DTC1\n");
                     dtc1 = 0;
                     switch(cpu_2050.CHCLK[i]) {
@@ -5915,7 +5918,7 @@ channel:
                            break;
                     }
                 }
-                if (cpu_2050.last_cycle) {
+                if (cpu_2050.last_cycle && sel) {
                     if ((cpu_2050.TAGS_IN[ch] & CHAN_OPR_IN) == 0) {
                         cpu_2050.polling[i] = 1;
                         cpu_2050.TAGS[ch] &= ~CHAN_SUP_OUT;
diff --git a/src/model2050/model2050.h b/src/model2050/model2050.h
index 694d69a..fc8a4d0 100644
--- a/src/model2050/model2050.h
+++ b/src/model2050/model2050.h
@@ -228,6 +228,7 @@ uint16_t    FLAGS_REG[4];       /* Selector Flags register */
  *  Bit 8   Irpt.
  */
 uint8_t     inst_latch;
+uint8_t     inst_ch;        /* Channel addressed by instruction */
 uint8_t     IO_KEY;             /* Key for last I/O operation */
 uint8_t     D1[4];              /* Channel flag D1, Not used? */
 uint8_t     D2[4];              /* Channel flag D2, Indicates TICH */
-- 
2.43.0


From cabc2c99d9db2f08bcbf513760d77ca09421ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 084/108] fix: 2050 multiplexer byte mask was destroyed by CPU
 and selector cycles

---
 src/model2050/cpu2050.c   | 64 +++++++++++++++++++++------------------
 src/model2050/model2050.h |  2 ++
 2 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index f063f28..8369cd1 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4163,6 +4163,9 @@ cycle_2050()
         for (i = 0; i < 4; i++) {
             if (cpu_2050.break_in & (1 << i)) {
                cpu_2050.CH = i;
+               if (i == 3) {
+                   cpu_2050.BI_REG = cpu_2050.MPX_BI;
+               }
                cpu_2050.break_in &= ~(1 << i);
                cpu_2050.polling[i] = 0;
                break;
@@ -4223,7 +4226,7 @@ channel:
                         cpu_2050.polling[3] = 0;
                         cpu_2050.ROUTINE[3] = 0x80;  /* RTA0 */
                         cpu_2050.break_in |= 8;
-                        cpu_2050.BI_REG = 0x3;
+                        cpu_2050.MPX_BI = 0x3;
                     }
                 }
                 break;
@@ -4274,11 +4277,11 @@ channel:
                         if ((cpu_2050.IOSTAT[3] & 0x60) == 0) {
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                             if ((cpu_2050.IOSTAT[3]  & 0x70) == 0x10) { /* Backword */
-                                cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                                cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                             } else if ((cpu_2050.IOSTAT[3] & 0x70) == 0x30) { /* Skip */
-                                cpu_2050.BI_REG = 0;
+                                cpu_2050.MPX_BI = 0;
                             } else {
-                                cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                                cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                             }
                         }
                         if (cpu_2050.BRC == 1 && (cpu_2050.IOSTAT[3] & 0x70) == 0x60) {   /* Output */
@@ -4351,18 +4354,18 @@ channel:
                              cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                              if ((cpu_2050.IOSTAT[3]  & 0x70) == 0x10) { /* Backword */
                                  switch(cpu_2050.BFR1 & 3) {
-                                 case 0:  cpu_2050.BI_REG = 0x1; break;
-                                 case 1:  cpu_2050.BI_REG = 0x8; break;
-                                 case 2:  cpu_2050.BI_REG = 0x4; break;
-                                 case 3:  cpu_2050.BI_REG = 0x2; break;
+                                 case 0:  cpu_2050.MPX_BI = 0x1; break;
+                                 case 1:  cpu_2050.MPX_BI = 0x8; break;
+                                 case 2:  cpu_2050.MPX_BI = 0x4; break;
+                                 case 3:  cpu_2050.MPX_BI = 0x2; break;
                                  }
                              } else if ((cpu_2050.IOSTAT[3] & 0x70) == 0x30) { /* Skip */
-                                 cpu_2050.BI_REG = 0;
+                                 cpu_2050.MPX_BI = 0;
                              } else {
-                                 cpu_2050.BI_REG = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
+                                 cpu_2050.MPX_BI = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
                             }
                         } else {
-                            cpu_2050.BI_REG = 0;
+                            cpu_2050.MPX_BI = 0;
                         }
                         cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
                         cpu_2050.break_in |= 8;
@@ -4446,18 +4449,18 @@ channel:
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                             if ((cpu_2050.IOSTAT[3]  & 0x70) == 0x10) { /* Backword */
                                  switch(cpu_2050.BFR1 & 3) {
-                                 case 0:  cpu_2050.BI_REG = 0x1; break;
-                                 case 1:  cpu_2050.BI_REG = 0x8; break;
-                                 case 2:  cpu_2050.BI_REG = 0x4; break;
-                                 case 3:  cpu_2050.BI_REG = 0x2; break;
+                                 case 0:  cpu_2050.MPX_BI = 0x1; break;
+                                 case 1:  cpu_2050.MPX_BI = 0x8; break;
+                                 case 2:  cpu_2050.MPX_BI = 0x4; break;
+                                 case 3:  cpu_2050.MPX_BI = 0x2; break;
                                  }
                             } else if ((cpu_2050.IOSTAT[3] & 0x70) == 0x30) { /* Skip */
-                                 cpu_2050.BI_REG = 0;
+                                 cpu_2050.MPX_BI = 0;
                             } else {
-                                 cpu_2050.BI_REG = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
+                                 cpu_2050.MPX_BI = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
                             }
                         } else {
-                                 cpu_2050.BI_REG = 0;
+                                 cpu_2050.MPX_BI = 0;
                         }
                         cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
                         cpu_2050.break_in |= 8;
@@ -4536,12 +4539,12 @@ channel:
                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
                         }
                         cpu_2050.break_in |= 8;
-                        cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                        cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                     }
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
                         cpu_2050.ROUTINE[3] = 0x8c;      /* RTA3 */
                         cpu_2050.break_in |= 8;
-                        cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                        cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                     }
                 }
                 if (cpu_2050.last_cycle && cpu_2050.CH == 3 && cpu_2050.BRC == 6) {        /* Fetch next CCW */
@@ -4685,9 +4688,9 @@ channel:
                 }
                 if (dtc1 && cpu_2050.CH == 3 && cpu_2050.BRC == 7) {
                     if ((cpu_2050.IOSTAT[3] & 0x70) == 0x10) {
-                         cpu_2050.BI_REG = 0x1 << (cpu_2050.BFR1 & 3);
+                         cpu_2050.MPX_BI = 0x1 << (cpu_2050.BFR1 & 3);
                     } else {
-                         cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                         cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                     }
                 }
 
@@ -4697,11 +4700,11 @@ channel:
                         if ((cpu_2050.IOSTAT[3] & 0x70) != 0x60) {   /* Not output */
                              cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                              if ((cpu_2050.IOSTAT[3]  & 0x70) == 0x10) { /* Backword */
-                                 cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                                 cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                              } else if ((cpu_2050.IOSTAT[3] & 0x70) == 0x30) { /* Skip */
-                                 cpu_2050.BI_REG = 0;
+                                 cpu_2050.MPX_BI = 0;
                              } else {
-                                 cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                                 cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                             }
                         }
                         cpu_2050.ROUTINE[3] = 0x88; /* RTA2 */
@@ -4989,14 +4992,14 @@ channel:
                             (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
                             cpu_2050.break_in |= 8;
-                            cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                            cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                         }
                         if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 &&
                             (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                             cpu_2050.ROUTINE[3] = 0x88;  /* RTA2 */
                             cpu_2050.break_in |= 8;
-                            cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                            cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                         }
                         if ((cpu_2050.TAGS_IN[0] & CHAN_OPR_IN) == 0) {
                             cpu_2050.ROUTINE[3] = 0xb4; /* RTB5 */
@@ -5089,7 +5092,7 @@ channel:
                             cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
                             cpu_2050.break_in |= 8;
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
-                            cpu_2050.BI_REG = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
+                            cpu_2050.MPX_BI = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
                         }
                     }
                     if (cpu_2050.BRC == 1 || cpu_2050.BRC == 3) {
@@ -5102,7 +5105,7 @@ channel:
                             cpu_2050.ROUTINE[3] = 0x88;  /* RTA2 */
                             cpu_2050.break_in |= 8;
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
-                            cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                            cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                         }
                         if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
                             if ((cpu_2050.IOSTAT[3] & 0x60) == 0) { /* If input set to output */
@@ -5193,6 +5196,9 @@ channel:
         } else {
             cpu_2050.ROAR = cpu_2050.ROUTINE[cpu_2050.CH];
             cpu_2050.break_in &= ~(1 << cpu_2050.CH);
+            if (cpu_2050.CH == 3) {
+                cpu_2050.BI_REG = cpu_2050.MPX_BI;
+            }
         }
     }
 
diff --git a/src/model2050/model2050.h b/src/model2050/model2050.h
index fc8a4d0..7577f35 100644
--- a/src/model2050/model2050.h
+++ b/src/model2050/model2050.h
@@ -143,6 +143,8 @@ uint8_t     Q_REG;              /* Q register */
 uint8_t     S_REG;              /* S status bits */
 uint8_t     BS_REG;             /* Byte mask regiser */
 uint8_t     BI_REG;             /* Byte mask in I/O mode */
+uint8_t     MPX_BI;             /* Byte mask for multiplexer channel */
+uint8_t     MPX_WAIT;           /* Interrupt waiting for multiplexer channel */
 uint8_t     IO_REG;             /* IO register. */
 uint8_t     ED_STAT;            /* Edit status bits */
 uint8_t     LSGNS;              /* Left sign flag */
-- 
2.43.0


From 5656a92eaf2d5fe1856ec4493a8bb83436d24347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 085/108] fix: 2050 selector channel reported wrong residual
 counts

---
 src/model2050/cpu2050.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 8369cd1..4de0b5f 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3235,6 +3235,18 @@ cycle_2050()
                        cpu_2050.GP_REG[cpu_2050.CH] |= last_forw[byte];
                        break;
                 }
+                /* On input, words that are waiting behind this one have been counted */
+                if (cpu_2050.OP_REG[cpu_2050.CH] != 1 && cpu_2050.CHPOS[cpu_2050.CH] == BIT3) {
+                    for (i = (cpu_2050.B_FULL[cpu_2050.CH] != 0) +
+                             (cpu_2050.C_FULL[cpu_2050.CH] != 0); i > 0; i--) {
+                       if ((cpu_2050.GP_REG[cpu_2050.CH] & BIT6) != 0) {
+                           cpu_2050.GP_REG[cpu_2050.CH] |= BIT5;
+                       }
+                       if ((cpu_2050.GP_REG[cpu_2050.CH] & BIT7) != 0) {
+                           cpu_2050.GP_REG[cpu_2050.CH] |= BIT6;
+                       }
+                    }
+                }
             }
             break;
 
@@ -6040,7 +6052,8 @@ channel:
 
             if (cpu_2050.LS_FULL[i] == 0 && cpu_2050.CHREQ[i] == 0 && cpu_2050.CHPOS[i] == 0 &&
                         (cpu_2050.TAGS_IN[ch] & CHAN_OPR_IN) != 0 && cpu_2050.OP_REG[i] == 1 &&
-                        cpu_2050.EOR[i] == 0) {
+                        cpu_2050.EOR[i] == 0 &&
+                        (cpu_2050.C_FULL[i] == 0 || cpu_2050.B_FULL[i] == 0)) {
                 /* Write */
                 log_device("Request load LS\n");
                 cpu_2050.CHREQ[i] = BIT0;
@@ -6051,6 +6064,8 @@ channel:
                     cpu_2050.C_FULL[i] = 1;
                 }
                 if (cpu_2050.OP_REG[i] == 1) {
+                    full = cpu_2050.C_FULL[i] + cpu_2050.B_FULL[i] + cpu_2050.LS_FULL[i];
+                    cpu_2050.EOR[i] = 1;           /* No more data needed */
                     cpu_2050.C_FULL[i] = 0;
                     cpu_2050.B_FULL[i] = 0;
                     cpu_2050.LS_FULL[i] = 0;
@@ -6063,15 +6078,24 @@ channel:
                     cpu_2050.CHREQ[i] = BIT3;   /* Request End */
                                    cpu_2050.C3[i] = 0;  /* Full status interrupt */
                     cpu_2050.IOSTAT[i] = 0;
-                    if (cpu_2050.OP_REG[i] == 0x6) {
-                        switch((cpu_2050.GP_REG[i] >> 3) & 3) {
+                    if (cpu_2050.OP_REG[i] == 1) {
+                        /* Fetched words which were not fully sent */
+                        if (full == 0 && ((cpu_2050.GP_REG[i] >> 5) & 3) != 0)
+                            full = 1;
+                        switch (full) {
+                        case 0: cpu_2050.IOSTAT[i] |= 0; break;
+                        case 1: cpu_2050.IOSTAT[i] |= BIT3; break;
+                        default: cpu_2050.IOSTAT[i] |= BIT2; break;
+                        }
+                    } else if (cpu_2050.OP_REG[i] == 0x6) {
+                        switch((cpu_2050.GP_REG[i] >> 5) & 3) {
                         case 0: cpu_2050.IOSTAT[i] |= BIT3; break;
                         case 1: cpu_2050.IOSTAT[i] |= BIT3; break;
                         case 2: cpu_2050.IOSTAT[i] |= BIT3; break;
                         case 3: cpu_2050.IOSTAT[i] |= 0; break;
                         }
                     } else {
-                        switch((cpu_2050.GP_REG[i] >> 3) & 3) {
+                        switch((cpu_2050.GP_REG[i] >> 5) & 3) {
                         case 0: cpu_2050.IOSTAT[i] |= 0; break;
                         case 1: cpu_2050.IOSTAT[i] |= BIT3; break;
                         case 2: cpu_2050.IOSTAT[i] |= BIT3; break;
@@ -6215,7 +6239,8 @@ channel:
                             cpu_2050.GP_REG[i] &= 0x7f;
                             cpu_2050.TAGS[ch] |= CHAN_SRV_OUT;
                             /* Check if empty */
-                            if (cpu_2050.EOR[i] && cpu_2050.B_FULL[i] == 0 && cpu_2050.LS_FULL[i] == 0) {
+                            if (cpu_2050.EOR[i] && cpu_2050.B_FULL[i] == 0 && cpu_2050.LS_FULL[i] == 0 &&
+                                         cpu_2050.CHPOS[i] != BIT4) {
                                 if ((((cpu_2050.GP_REG[i] >> 2) ^ (cpu_2050.GP_REG[i])) & 0x18) == 0) {
                                     log_device("Set C Empty last %02x  %02x\n", cpu_2050.GP_REG[i],
                                               ((cpu_2050.GP_REG[i] >> 2) ^ cpu_2050.GP_REG[i]) & 0x18);
-- 
2.43.0


From ca8bb07cca63ecbc756447def46e89a0699875f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 086/108] fix: 2050 selector channel command chaining after
 wrong length, errors and separate device end

---
 src/model2050/cpu2050.c | 42 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 4de0b5f..8b95753 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5845,12 +5845,18 @@ channel:
                            cpu_2050.CHCLK[i] = 0;
                            cpu_2050.IOSTAT[i] = 0;
                            if ((cpu_2050.TAGS_IN[ch] & CHAN_STA_IN) != 0) {
-                               if ((cpu_2050.FLAGS_REG[i] & (CHAN_CC_FLAG << 8)) != 0) {
+                               if ((cpu_2050.FLAGS_REG[i] & (CHAN_CC_FLAG << 8)) != 0 &&
+                                   (cpu_2050.C_REG[i] & (SNS_DEVEND << 24)) != 0) {
                                     cpu_2050.TAGS[ch] |= CHAN_SUP_OUT;
                                }
                                cpu_2050.TAGS[ch] |= CHAN_SRV_OUT;
                            }
                            if (cpu_2050.CHREQ[i] == 0 && (cpu_2050.FLAGS_REG[i] & 0xff) != 0) {
+                               /* On errors operation is over */
+                               if ((cpu_2050.TAGS_IN[ch] & CHAN_STA_IN) != 0 &&
+                                   (cpu_2050.FLAGS_REG[i] & 0x7f) != 0) {
+                                   cpu_2050.TAGS[ch] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
+                               }
                                cpu_2050.BCHI |= BIT1 >> i;
                                break;
                            }
@@ -5866,8 +5872,9 @@ channel:
                           } else {
                              /* Command chain */
                              if ((cpu_2050.TAGS_IN[ch] & CHAN_STA_IN) != 0) {
-                                 cpu_2050.TAGS[ch] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
+                                 /* Hold device until device end */
                                  if ((cpu_2050.C_REG[i] & (SNS_DEVEND << 24)) != 0) {
+                                      cpu_2050.TAGS[ch] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
                                       if ((cpu_2050.C_REG[i] & (SNS_SMS << 24)) != 0) {
                                           cpu_2050.IOSTAT[i] |= BIT1;
                                       }
@@ -5888,6 +5895,13 @@ channel:
                        (cpu_2050.FLAGS_REG[i] & ((CHAN_SLI_FLAG) << 8)) == 0 &&
                        (cpu_2050.aob_latch & 0xffff) != 0) {
                       cpu_2050.FLAGS_REG[i] |= CHAN_LENGTH;
+                      /* Wrong length ends command chain */
+                      if ((cpu_2050.FLAGS_REG[i] & (CHAN_CC_FLAG << 8)) != 0 &&
+                           cpu_2050.CHREQ[i] != BIT1) {
+                          cpu_2050.CHREQ[i] = 0;
+                          cpu_2050.TAGS[ch] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
+                          cpu_2050.BCHI |= BIT1 >> i;
+                      }
                    }
                    cpu_2050.C1[i] = 0;
                    cpu_2050.C2[i] = 0;
@@ -6070,7 +6084,29 @@ channel:
                     cpu_2050.B_FULL[i] = 0;
                     cpu_2050.LS_FULL[i] = 0;
                 }
-                if (cpu_2050.B_FULL[i] == 0 && cpu_2050.C_FULL[i] == 0 && cpu_2050.LS_FULL[i] == 0) {
+                if ((cpu_2050.FLAGS_REG[i] & (CHAN_CC_FLAG << 8)) != 0 &&
+                    (cpu_2050.BUS_IN[ch] & (SNS_CHNEND|SNS_DEVEND)) == SNS_DEVEND) {
+                    /* Device end after channel end, while command chaining */
+                    if ((cpu_2050.TAGS_IN[ch] & CHAN_SRV_OUT) == 0) {
+                        log_selchn("Chain on device end\n");
+                        cpu_2050.C_REG[i] &= 0x00ffffff;
+                        cpu_2050.C_REG[i] |= ((uint32_t)cpu_2050.BUS_IN[ch] & 0xff) << 24;
+                        cpu_2050.C3[i] = 0;
+                        cpu_2050.IOSTAT[i] = 0;
+                        cpu_2050.TAGS[ch] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
+                        cpu_2050.TAGS[ch] |= CHAN_SRV_OUT;
+                        if ((cpu_2050.BUS_IN[ch] & 0xb3) != 0 || (cpu_2050.FLAGS_REG[i] & 0x7f) != 0) {
+                            cpu_2050.BCHI |= BIT1 >> i;    /* Request interrupt */
+                        } else {
+                            if ((cpu_2050.BUS_IN[ch] & SNS_SMS) != 0) {
+                                cpu_2050.IOSTAT[i] |= BIT1;
+                            }
+                            cpu_2050.TAGS[ch] |= CHAN_SUP_OUT;
+                            cpu_2050.CHREQ[i] = BIT4;      /* Request CCW1 */
+                        }
+                    }
+                } else if (cpu_2050.B_FULL[i] == 0 && cpu_2050.C_FULL[i] == 0 && cpu_2050.LS_FULL[i] == 0 &&
+                           cpu_2050.CHREQ[i] != BIT3) {   /* End not requested yet */
                     log_selchn("Read GP=%02x %02x\n", cpu_2050.GP_REG[i], cpu_2050.BUS_IN[i] & 0xff);
                     cpu_2050.C_REG[i] &= 0x00ffffff;
                     cpu_2050.C_REG[i] |= ((uint32_t)cpu_2050.BUS_IN[ch] & 0xff) << 24;
-- 
2.43.0


From 6dd55c4eee8412e39eb3f4c192f3eab5d620d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 087/108] fix: 2050 selector channel did not drop command out
 after polling

---
 src/model2050/cpu2050.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 8b95753..922f496 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5987,6 +5987,10 @@ channel:
                  cpu_2050.C_REG[i] |= ((uint32_t)cpu_2050.BUS_IN[ch] & 0xff) << 24;
                  cpu_2050.TAGS[ch] |= CHAN_CMD_OUT;
             }
+            /* Drop command out once device has dropped address in */
+            if ((cpu_2050.TAGS_IN[ch] & (CHAN_CMD_OUT|CHAN_ADR_IN)) == CHAN_CMD_OUT) {
+                 cpu_2050.TAGS[ch] &= ~CHAN_CMD_OUT;
+            }
             if ((cpu_2050.TAGS_IN[ch] & (CHAN_STA_IN|CHAN_OPR_IN)) == (CHAN_STA_IN|CHAN_OPR_IN)) {
                  log_selchn("Post status\n");
                  cpu_2050.TAGS[ch] |= CHAN_SRV_OUT;
-- 
2.43.0


From 68d71e350e1166fbf1e25e923c677dcfa6e28ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 088/108] fix: 2050 selector channel polled a device while a
 routine was waiting

---
 src/model2050/cpu2050.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 922f496..8f4a0d5 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5977,7 +5977,8 @@ channel:
             if ((cpu_2050.TAGS_IN[ch] & (CHAN_ADR_OUT|CHAN_OPR_IN)) == (CHAN_ADR_OUT)) {
                  cpu_2050.TAGS[ch] &= ~CHAN_ADR_OUT;
             }
-            if ((cpu_2050.TAGS_IN[ch] & CHAN_REQ_IN) != 0) {
+            /* Do not take a request while a routine is waiting */
+            if ((cpu_2050.TAGS_IN[ch] & CHAN_REQ_IN) != 0 && cpu_2050.CHREQ[i] == 0) {
                  cpu_2050.TAGS[ch] |= CHAN_SEL_OUT|CHAN_HLD_OUT;
                  log_trace("Request in\n");
             }
-- 
2.43.0


From 36e4ead10f7a50c0c578fe8818062d8ce2a70ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 089/108] fix: 2050 selector channel ignored requests until
 first used

---
 src/model2050/cpu2050.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 8f4a0d5..deb24b7 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5968,6 +5968,7 @@ channel:
                 }
             }
         } else if (cpu_2050.polling[i]) {  /* Handle polling mode */
+            cpu_2050.TAGS[ch] |= CHAN_OPR_OUT;
             if ((cpu_2050.BCHI & (BIT1 >> i)) != 0) {
                 cpu_2050.TAGS[ch] |= CHAN_SUP_OUT;
             }
-- 
2.43.0


From ad0f2695a419ad7426d63ee7eb5aafcd45004726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 090/108] fix: 2050 selector channel took instructions while
 working or selecting a device

---
 src/model2050/cpu2050.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index deb24b7..0c4c191 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3960,7 +3960,8 @@ cycle_2050()
                     } else if ((cpu_2050.BCHI & (BIT0 >> i)) != 0) {
                        cpu_2050.CC = 1;
                     } else {
-                       if (cpu_2050.polling[i-1] == 0) {
+                       if (cpu_2050.polling[i-1] == 0 || cpu_2050.CHREQ[i-1] != 0 ||
+                           cpu_2050.CHPOS[i-1] != 0) {
                            cpu_2050.CC = 2;
                        } else {
                            cpu_2050.CC = 0;
@@ -3979,7 +3980,9 @@ cycle_2050()
                                 s_update |= BIT3;     /* <-- */
                                 break;
                             }
-                            if (cpu_2050.polling[i-1] == 0) {
+                            if (cpu_2050.polling[i-1] == 0 || cpu_2050.CHREQ[i-1] != 0 ||
+                                cpu_2050.CHPOS[i-1] != 0 ||
+                                (cpu_2050.TAGS[i] & CHAN_HLD_OUT) != 0) { /* Device being selected */
                                 cpu_2050.CC = 2;
                                 s_update |= BIT3;     /* <-- */
                             } else {
@@ -3996,7 +3999,8 @@ cycle_2050()
                                 break;
                             }
                             if (cpu_2050.polling[i-1] == 0 || cpu_2050.CHREQ[i-1] != 0 ||
-                                cpu_2050.CHPOS[i-1] != 0) {
+                                cpu_2050.CHPOS[i-1] != 0 ||
+                                (cpu_2050.TAGS[i] & CHAN_HLD_OUT) != 0) {
                                 cpu_2050.CC = 2;
                                 s_update |= BIT3;     /* <-- */
                                 break;
-- 
2.43.0


From 5985a4d983ddce3c84629a8ba84d457eb92693ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 091/108] fix: 2050 Start I/O and Test I/O cleared interruption
 of another selector device

---
 src/model2050/cpu2050.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 0c4c191..446b46c 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3993,6 +3993,14 @@ cycle_2050()
                             break;
                     case 4: /* TIO */
                             if ((cpu_2050.BCHI & (BIT0 >> i)) != 0) {
+                                /* Interrupt of another device, post busy */
+                                if ((cpu_2050.L_REG & 0xff) !=
+                                       (((cpu_2050.IOSTAT[i-1] & BIT0) ? cpu_2050.B_REG[i-1] :
+                                             cpu_2050.LS[((i-1) << 2) | 2]) >> 24)) {
+                                    cpu_2050.CC = 2;
+                                    s_update |= BIT3;     /* <-- */
+                                    break;
+                                }
                                 cpu_2050.CHREQ[i-1] = BIT1;
                                 cpu_2050.inst_latch = 1;
                                 log_trace("Post TIO interupt\n");
-- 
2.43.0


From 269b78b893258f42ccf74ca743cf625d0db0a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 092/108] fix: 2050 multiplexer interruption requested for
 channel program error of selector

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 446b46c..fdd78e9 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5423,7 +5423,7 @@ channel:
                            cpu_2050.FLAGS_REG[i] |= CHAN_PROG;
                            cpu_2050.CHCLK[i] = 0;
                            cpu_2050.CHPOS[i] = 0;
-                           cpu_2050.BCHI |= BIT0 >> i;    /* Request interrupt */
+                           cpu_2050.BCHI |= BIT1 >> i;    /* Request interrupt */
                            break;
                    }
                }
-- 
2.43.0


From 211bdedffbeb7b4fc7b34943e66fd13dfded70be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 093/108] fix: 2050 Test I/O chained commands of the previous
 selector operation

---
 src/model2050/cpu2050.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index fdd78e9..710d936 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5649,7 +5649,8 @@ channel:
                          }
                          if ((cpu_2050.TAGS_IN[ch] & CHAN_STA_IN) != 0) {
                          /* If command chain, request new CCW */
-                            if ((cpu_2050.FLAGS_REG[i] & (CHAN_CC_FLAG << 8)) != 0) {
+                            if ((cpu_2050.FLAGS_REG[i] & (CHAN_CC_FLAG << 8)) != 0 &&
+                                !(inst && cpu_2050.CHCTL == 4)) {
                                    /* Tell device this is chain */
                                  cpu_2050.TAGS[ch] |= CHAN_SUP_OUT;
                              }
-- 
2.43.0


From 7483d34bcc81ec0ca64f00aec7a4ef100c332baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 094/108] fix: 2050 Start I/O that ends with error status never
 completed when chaining

---
 src/model2050/cpu2050.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 710d936..edf450b 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5707,6 +5707,7 @@ channel:
                              if (inst) {
                                   log_selchn("End SIO error\n");
                                   /* If any error bits, quit chain. */
+                                  cpu_2050.FLAGS_REG[i] &= ~((CHAN_CD_FLAG|CHAN_CC_FLAG) << 8);
                                   cpu_2050.CHREQ[i] = BIT3;   /* Request end processing */
                                   cpu_2050.C3[i] = 0;
                                   cpu_2050.CC = 1;
-- 
2.43.0


From 4055ddfd619247f014416093846675e60b1ecf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 095/108] fix: 2050 multiplexer channel did not count last byte
 sent

---
 src/model2050/cpu2050.c   | 30 ++++++++++++++++++++----------
 src/model2050/model2050.h |  1 +
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index edf450b..29916a7 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4347,8 +4347,10 @@ channel:
                         cpu_2050.break_in |= 8;
                         break;
                     }
+                    cpu_2050.MPX_CNT = 0;
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
                         cpu_2050.TAGS[0] |= CHAN_SRV_OUT;
+                        cpu_2050.MPX_CNT = ((cpu_2050.IOSTAT[3] & 0x70) == 0x60);
                     }
 
                     if (cpu_2050.BRC == 3 && cpu_2050.MPX_LST) {  /* End of output */
@@ -4369,7 +4371,12 @@ channel:
                 if ((cpu_2050.break_in == 0 && cpu_2050.break_out == 0) || (cpu_2050.last_cycle && cpu_2050.CH == 3)) {
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                          log_trace("Status in\n");
-                         cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
+                         if (cpu_2050.MPX_CNT)
+                             cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3, count last byte sent */
+                         else if ((cpu_2050.LS[0x0e] & 0x60000000) == 0x60000000) /* Command Chain & SLI */
+                             cpu_2050.ROUTINE[3] = 0x94;  /* RTA5 */
+                         else
+                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
                          cpu_2050.break_in |= 8;
                     }
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
@@ -4438,15 +4445,13 @@ channel:
                          if ((cpu_2050.IOSTAT[3] & BIT0) == 0) {
                              cpu_2050.TAGS[0] |= CHAN_SRV_OUT;
                          }
+                         cpu_2050.MPX_CNT = ((cpu_2050.IOSTAT[3] & 0x70) == 0x60);
+                    } else {
+                         cpu_2050.MPX_CNT = 0;
                     }
+                    /* If status is waiting, handle it when routine is done */
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
-                        log_trace("Status in\n");
-                           if ((cpu_2050.BFR2 & 0x60) == 0x60) { /* Command Chain & SLI */
-                               cpu_2050.ROUTINE[3] = 0x94;  /* RTA5 */
-                           } else {
-                               cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
-                           }
-                        cpu_2050.break_in |= 8;
+                        break;
                     }
                     if ((cpu_2050.BRC == 7 && cpu_2050.MPX_LST) || cpu_2050.BRC == 5) {  /* End of output */
                         if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
@@ -4461,7 +4466,9 @@ channel:
                 if ((cpu_2050.break_in == 0 && cpu_2050.break_out == 0) || (cpu_2050.last_cycle && cpu_2050.CH == 3)) {
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                         log_trace("Status in\n");
-                        if ((cpu_2050.BFR1 & 0x60) == 0x60) {   /* Command Chain & SLI */
+                        if (cpu_2050.MPX_CNT) {
+                            cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3, count last byte sent */
+                        } else if ((cpu_2050.LS[0x0e] & 0x60000000) == 0x60000000) {   /* Command Chain & SLI */
                             cpu_2050.ROUTINE[3] = 0x94;  /* RTA5 */
                         } else {
                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
@@ -4490,7 +4497,10 @@ channel:
                         cpu_2050.break_in |= 8;
                     }
                     if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
-                        cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
+                        if (cpu_2050.MPX_CNT)
+                            cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3, count last byte sent */
+                        else
+                            cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
                         cpu_2050.break_in |= 8;
                     }
                 }
diff --git a/src/model2050/model2050.h b/src/model2050/model2050.h
index 7577f35..ee0b66d 100644
--- a/src/model2050/model2050.h
+++ b/src/model2050/model2050.h
@@ -201,6 +201,7 @@ uint8_t     IBFULL;             /* IB full */
 uint8_t     polling[4];         /* Polling state */
 uint8_t     MPX_PCI;            /* MPX PCI request */
 uint8_t     MPX_LST;            /* Last word for MPX */
+uint8_t     MPX_CNT;             /* Last byte sent is not yet counted */
 uint16_t    ROUTINE[4];         /* Current breaking routine */
 uint32_t    IOSTAT[4];          /* I/O Status register */
 
-- 
2.43.0


From 53f18c31d62c699332d2ceaf01cfcb8fe509d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 096/108] fix: 2050 multiplexer channel last byte flag left
 from previous operation

---
 src/model2050/cpu2050.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 29916a7..89310b3 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4354,6 +4354,7 @@ channel:
                     }
 
                     if (cpu_2050.BRC == 3 && cpu_2050.MPX_LST) {  /* End of output */
+                        cpu_2050.MPX_LST = 0;
                         cpu_2050.ROUTINE[3] = 0x9c;  /* RTA7 */
                         cpu_2050.break_in |= 8;
                         break;
@@ -4457,6 +4458,7 @@ channel:
                         if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
                             cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
                         } else {
+                            cpu_2050.MPX_LST = 0;
                             cpu_2050.ROUTINE[3] = 0x9c;  /* RTA7 */
                         }
                         cpu_2050.break_in |= 8;
-- 
2.43.0


From 5406240a2760800f1206ad5a792a48670710ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 097/108] fix: 2050 multiplexer channel chained commands after
 wrong length

---
 src/model2050/cpu2050.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 89310b3..45ff9ae 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4289,7 +4289,8 @@ channel:
                     /* Go grab end status */
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                         log_trace("Status in\n");
-                        if ((cpu_2050.BFR2 & 0x40) != 0) { /* Command Chain */
+                        /* Command Chain, unless length was wrong */
+                        if ((cpu_2050.BFR2 & 0x40) != 0 && (cpu_2050.LS[0x0e] & 0x00400000) == 0) {
                             cpu_2050.ROUTINE[3] = 0x94;  /* RTA5 */
                         } else {
                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
-- 
2.43.0


From 60dfdb4e8faa47acddfd2781bccaa308be0defd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 098/108] fix: 2050 multiplexer channel did not see control
 unit busy

---
 src/model2050/cpu2050.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 45ff9ae..6b6c22e 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4654,7 +4654,8 @@ channel:
                         cpu_2050.break_in |= 8;
                     }
                     /* Unit busy */
-                    if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN|CHAN_STA_IN)) == 0) {
+                    if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN|CHAN_STA_IN)) ==
+                              CHAN_STA_IN) {
                         cpu_2050.ROUTINE[3] = 0x96; /* RTC5 */
                         cpu_2050.break_in |= 8;
                     }
-- 
2.43.0


From 08527f4e6c9d2c635262f1fcdf9ca3e1d2d6668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 099/108] fix: 2050 interruption taken from channel that is
 masked off

---
 src/model2050/cpu2050.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 6b6c22e..8431017 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3625,6 +3625,13 @@ cycle_2050()
                    /* Fall through */
             case 9:  /* Issue proc with irpt */
                    log_selchn("Proceed interrupt\n");
+                   /* Take first channel that has an interruption allowed */
+                   for (i = 0; i < 4; i++) {
+                       if ((cpu_2050.BCHI & cpu_2050.MASK & (BIT0 >> i)) != 0) {
+                           cpu_2050.CH = (i == 0) ? 3 : (i - 1);
+                           break;
+                       }
+                   }
                    if (cpu_2050.break_out) {
                        cpu_2050.s3_set = 1;
                    }
-- 
2.43.0


From 76a3324f530e1846b9ae4250e30e080f64bd6373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 100/108] fix: 2050 channel broke in while already broken in

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 8431017..caf90a2 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4188,7 +4188,7 @@ cycle_2050()
 
     /* Handle break in cycle */
     if ((cpu_2050.init_mem | cpu_2050.init_bump_mem) == 0 &&
-              cpu_2050.mem_state == W1 && cpu_2050.break_in) {
+              cpu_2050.mem_state == W1 && cpu_2050.break_in && !cpu_2050.break_out) {
         dtc_latch = 0;
         log_trace("check breakout %x\n", cpu_2050.break_in);
         for (i = 0; i < 4; i++) {
-- 
2.43.0


From 811c2fded5b4640c843a8043c32740c2e73055c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:47 +0000
Subject: [PATCH 101/108] fix: 2050 multiplexer instructions disturbed a device
 being selected

---
 src/model2050/cpu2050.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index caf90a2..eb57787 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3948,6 +3948,7 @@ cycle_2050()
                 */
                 i = (cpu_2050.L_REG >> 8) & 0xf;
                 cpu_2050.CHCTL = cpu_2050.w_bus;
+                cpu_2050.MPX_WAIT = 0;
                 if (cpu_2050.CHCTL == 0x80) {
                     i = 0;
                 }
@@ -4050,10 +4051,14 @@ cycle_2050()
                             s_update |= BIT1|BIT2|BIT3;     /* <-- */
                     }
                 } else {
-                    if (cpu_2050.polling[3] == 1 && cpu_2050.ROUTINE[3] == 0) {
+                    if (cpu_2050.polling[3] == 1 && cpu_2050.ROUTINE[3] == 0 &&
+                        (cpu_2050.TAGS_IN[0] & CHAN_OPR_IN) == 0) {
+                        cpu_2050.TAGS[0] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
                         cpu_2050.ROUTINE[3] = 0xa0;
                         cpu_2050.break_in |= 8;
                         cpu_2050.inst_latch = 1;
+                    } else if (cpu_2050.CHCTL == 0x80) {
+                        cpu_2050.MPX_WAIT = 1;   /* Interrupt waits for channel */
                     } else {
                         cpu_2050.CC = 2;
                         s_update |= BIT3;     /* <-- */
@@ -4248,6 +4253,15 @@ channel:
                 /*  idle <- C-br, not op in, not status in, UCW store off */
                 cpu_2050.TAGS[0] |= CHAN_OPR_OUT;
                 if (cpu_2050.polling[3]) {
+                    if (cpu_2050.MPX_WAIT &&
+                        (cpu_2050.TAGS_IN[0] & CHAN_OPR_IN) == 0) {
+                        cpu_2050.TAGS[0] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
+                        cpu_2050.MPX_WAIT = 0;
+                        cpu_2050.ROUTINE[3] = 0xa0;
+                        cpu_2050.break_in |= 8;
+                        cpu_2050.inst_latch = 1;
+                        break;
+                    }
                     if ((cpu_2050.TAGS_IN[0] & CHAN_REQ_IN) != 0) {
                         cpu_2050.TAGS[0] |= CHAN_SEL_OUT|CHAN_HLD_OUT;
                         log_trace("Request in\n");
-- 
2.43.0


From c72826a5d20a6ca0b51fda8be28618939f688c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:47 +0000
Subject: [PATCH 102/108] fix: 2050 multiplexer interruption buffer cleared by
 instruction for another device

---
 src/model2050/cpu2050.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index eb57787..c6cf528 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3580,6 +3580,11 @@ cycle_2050()
             if ((sal->ce & 8) != 0) {
                 cpu_2050.IBFULL = 1;
                 cpu_2050.BCHI |= BIT0;
+            } else if (cpu_2050.break_out && (cpu_2050.ROUTINE[3] == 0xa4 ||
+                        cpu_2050.ROUTINE[3] == 0x86) &&
+                       (cpu_2050.LS[0x2e] >> 24) != (cpu_2050.BUS_OUT[0] & 0xff)) {
+                /* Start I/O and Test I/O must not drop interruption of another device */
+                log_trace("IB holds another device\n");
             } else {
                 cpu_2050.IBFULL = 0;
                 cpu_2050.TAGS[0] &= ~CHAN_SUP_OUT;
@@ -3610,7 +3615,10 @@ cycle_2050()
                            cpu_2050.inst_latch = 0;
                            cpu_2050.s3_set = 1;
                        }
-                       cpu_2050.BCHI &= ~BIT0;
+                       /* Keep interruption of another device pending */
+                       if (cpu_2050.IBFULL == 0) {
+                           cpu_2050.BCHI &= ~BIT0;
+                       }
                        cpu_2050.ROUTINE[cpu_2050.CH] = 0;
                    } else {
                        cpu_2050.BCHI &= ~(BIT1 >> cpu_2050.CH);
-- 
2.43.0


From 9a602cc114256b9deb0df2a29b7f5ded7f1dd37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:47 +0000
Subject: [PATCH 103/108] fix: 2050 multiplexer Test I/O used stale interface
 byte as status

---
 src/model2050/cpu2050.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index c6cf528..3dcadfb 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4866,6 +4866,8 @@ channel:
                         cpu_2050.s3_set = 1;      /* Set stat 3. */
                     }
                     if (cpu_2050.BRC == 1) {  /* Channel end queued. */
+                        /* Status comes from buffer, not from the interface */
+                        cpu_2050.BUS_IN[0] = cpu_2050.BFR2 | odd_parity[cpu_2050.BFR2];
                         cpu_2050.ROUTINE[3] = 0x9e; /* RTC7 */
                         cpu_2050.break_in |= 8;
                     }
-- 
2.43.0


From 8f6bcc50278a06521b45ebfc6bce5513b7af610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:47 +0000
Subject: [PATCH 104/108] fix: 2050 multiplexer channel did not end operation
 prepared for interruption

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 3dcadfb..2219fd2 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5089,7 +5089,7 @@ channel:
                             cpu_2050.ROUTINE[3] = 0xa2;  /* RTD0 */
                             cpu_2050.break_in |= 8;
                     }
-                    if (cpu_2050.BRC == 5) {        /* Fetch next CCW */
+                    if (cpu_2050.BRC == 5 || cpu_2050.BRC == 7) {   /* Interrupt prep */
                             cpu_2050.ROUTINE[3] = 0x98;  /* RTA6 */
                             cpu_2050.break_in |= 8;
                     }
-- 
2.43.0


From c24cbfd073e46d968965adfa58fedb98295d043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:06 +0000
Subject: [PATCH 105/108] fix: 2030 selector channel 2 interruption tested the
 latch of channel 1

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index e29893f..9ba81e1 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1404,7 +1404,7 @@ cycle_2030()
            case 0x1A: /* Select interrupt SEL1 -> 0,x SEL2 -> x,0, timer -> 0,0 */
                        if ((cpu_2030.MASK & BIT1) && (sel_intrp_lch[0] || (cpu_2030.GF[0] & BIT4) != 0))
                           nextWX &= 0xffe;
-                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[0] || (cpu_2030.GF[1] & BIT4) != 0))
+                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[1] || (cpu_2030.GF[1] & BIT4) != 0))
                           nextWX &= 0xffd;
                        else if (((cpu_2030.MASK & BIT7) && cpu_2030.F_REG != 0) || timer_update)
                           nextWX &= 0xffc;
-- 
2.43.0


From b00d2e92ac22626744c459eb4c4844a86f862516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:06 +0000
Subject: [PATCH 106/108] fix: 2030 multiplexer request raced with selection by
 an instruction

---
 src/model2030/cpu2030.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 9ba81e1..fa8c25c 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2158,6 +2158,7 @@ cycle_2030()
                         cpu_2030.MPX_TAGS |= CHAN_ADR_OUT;
                         if (sal->CK & BIT4) {
                             cpu_2030.MPX_TAGS |= (CHAN_SEL_OUT|CHAN_HLD_OUT);
+                            mpx_start_sel = 0;    /* Selection by program wins over request */
                         }
                    } else {
                         cpu_2030.MPX_TAGS &= ~(CHAN_ADR_OUT);
-- 
2.43.0


From c6ddbcdd080a9a2782f9bc04df105636cad28e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:06 +0000
Subject: [PATCH 107/108] fix: 2030 status of a selector channel in a chain set
 tags of the other channel

---
 src/model2030/cpu2030.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index fa8c25c..908f4c3 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2715,7 +2715,7 @@ chan_scan:
 
              /* Set poll control if halt I/O and not chaining requests */
              if (sel_halt_io[i] && sel_chain_req[i] == 0 && sel_intrp_lch[i] == 0) {
-                 sel_poll_ctrl[cpu_2030.ch_sel] = 1;
+                 sel_poll_ctrl[i] = 1;
                  cpu_2030.SEL_TAGS[i] &= ~(CHAN_ADR_OUT);  /* Drop address out */
              }
 
@@ -2749,7 +2749,7 @@ chan_scan:
                              sel_ros_req |= 1 << i;
                              log_selchn("Status chain interrupt\n");
                         } else {
-                             cpu_2030.SEL_TAGS[cpu_2030.ch_sel] |= (CHAN_SRV_OUT|CHAN_SUP_OUT);
+                             cpu_2030.SEL_TAGS[i] |= (CHAN_SRV_OUT|CHAN_SUP_OUT);
                              log_selchn("Status chain hold\n");
                         }
                    }
-- 
2.43.0


From 40082cf673043c61c55a0751114085417ea14a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:06 +0000
Subject: [PATCH 108/108] fix: 2030 selector channel missed incorrect length on
 output with a byte prefetched

---
 src/model2030/cpu2030.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 908f4c3..8d4ed64 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2755,7 +2755,12 @@ chan_scan:
                    }
                    if ((cpu_2030.GF[i] & (BIT1)) == (0)) {
                         /* Check if length incomplete */
-                        if (sel_cnt_rdy_not_zero[i] && sel_gr_full[i] == 0 && (cpu_2030.GF[i] & BIT2) == 0) {
+                        /* On output a byte waiting to be sent has not been used */
+                        if ((cpu_2030.GG[i] & 1) != 0) {
+                             if ((sel_cnt_rdy_not_zero[i] || sel_gr_full[i]) && (cpu_2030.GF[i] & BIT2) == 0) {
+                                  cpu_2030.GE[i] |= BIT1;
+                             }
+                        } else if (sel_cnt_rdy_not_zero[i] && sel_gr_full[i] == 0 && (cpu_2030.GF[i] & BIT2) == 0) {
                              cpu_2030.GE[i] |= BIT1;
                         }
                         sel_ros_req |= 1 << i;
-- 
2.43.0


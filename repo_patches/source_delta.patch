From 8e25ccc3f81b7a99c16a0ad0dd020ad165ae3953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 01/63] fix: withdraw the bundle waiter when bundle_wait ends
 for any reason

A coroutine whose bundle_wait deadline expired stayed registered as the
bundle's waiter until it ran. If the last coroutine of the bundle finished in
the meantime it was resumed a second time and the process aborted.
---
 cr.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cr.c b/cr.c
index fdd5bb0..46e6b40 100644
--- a/cr.c
+++ b/cr.c
@@ -127,6 +127,18 @@ static void dill_bundle_close(struct dill_hvfs *vfs) {
     if(!self->mem) free(self);
 }
 
+/* Clause used while waiting for a bundle to finish. */
+struct dill_bundleclause {
+    struct dill_clause cl;
+    struct dill_bundle *bundle;
+};
+
+static void dill_bundle_cancel(struct dill_clause *cl) {
+    struct dill_bundle *b =
+        dill_cont(cl, struct dill_bundleclause, cl)->bundle;
+    if(b->waiter == cl) b->waiter = NULL;
+}
+
 int dill_bundle_wait(int h, int64_t deadline) {
     int rc = dill_canblock();
     if(dill_slow(rc < 0)) return -1;
@@ -135,13 +147,13 @@ int dill_bundle_wait(int h, int64_t deadline) {
     /* If there are no coroutines in the bundle succeed immediately. */
     if(dill_list_empty(&self->crs)) return 0;
     /* Otherwise wait for all coroutines to finish. */
-    struct dill_clause cl;
-    self->waiter = &cl;
-    dill_waitfor(&cl, 0, NULL);
+    struct dill_bundleclause bcl;
+    bcl.bundle = self;
+    self->waiter = &bcl.cl;
+    dill_waitfor(&bcl.cl, 0, dill_bundle_cancel);
     struct dill_tmclause tmcl;
     dill_timer(&tmcl, 1, deadline);
     int id = dill_wait();
-    self->waiter = NULL;
     if(dill_slow(id < 0)) return -1;
     if(dill_slow(id == 1)) {errno = ETIMEDOUT; return -1;}
     dill_assert(id == 0);
-- 
2.43.0


From d4a1bc709f126a48b1d9e4df39706ac44071ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 02/63] fix: closing a coroutine that is itself closing a
 bundle must not abort

The closer was resumed early (by its own cancellation) or a second time (when
the coroutine it waited for finished), both of which hit an assertion.
---
 cr.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cr.c b/cr.c
index 46e6b40..72ec206 100644
--- a/cr.c
+++ b/cr.c
@@ -358,8 +358,9 @@ void dill_epilogue(void) {
     struct dill_ctx_cr *ctx = &dill_getctx->cr;
     /* Mark the coroutine as finished. */
     ctx->r->done = 1;
-    /* If there's a coroutine waiting for us to finish, unblock it now. */
-    if(ctx->r->closer)
+    /* If there's a coroutine waiting for us to finish, unblock it now, unless
+       it was already resumed because it is being closed itself. */
+    if(ctx->r->closer && !ctx->r->closer->ready.next)
         dill_cancel(ctx->r->closer, 0);
     /* Deallocate the coroutine, unless, of course, it is already
        in the process of being closed. */
@@ -403,12 +404,16 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
            coroutine that is being shut down is not permitted to block, we
            should get control back pretty quickly. */
         cr->closer = ctx->r;
-        int rc = dill_wait();
-        /* This assertion triggers when coroutine tries to close a bundle that
-           it is part of. There's no sane way to handle that so let's just
-           crash the process. */
-        dill_assert(!(rc == -1 && errno == ECANCELED));
-        dill_assert(rc == -1 && errno == 0);
+        do {
+            int rc = dill_wait();
+            /* This assertion triggers when coroutine tries to close a bundle
+               that it is part of. There's no sane way to handle that so let's
+               just crash the process. */
+            dill_assert(cr != ctx->r);
+            dill_assert(rc == -1);
+            /* If the closing coroutine is being closed itself it is woken up
+               early. Keep waiting. */
+        } while(!cr->done);
     }
 #if defined DILL_CENSUS
     /* Find the first overwritten byte on the stack.
-- 
2.43.0


From 4004b3529fbb96a01f1a237ead74c20fdb896a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 03/63] fix: do not lose the unused handles when the handle
 table grows

---
 handle.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handle.c b/handle.c
index 3d658ca..48cac3b 100644
--- a/handle.c
+++ b/handle.c
@@ -88,7 +88,8 @@ int dill_hmake(struct dill_hvfs *vfs) {
         for(i = ctx->nhandles; i != sz - 1; ++i)
             hndls[i].next = i + 1;
         hndls[sz - 1].next = -1;
-        ctx->first = ctx->nhandles;
+        if(ctx->first == -1) ctx->first = ctx->nhandles;
+        else hndls[ctx->last].next = ctx->nhandles;
         ctx->last = sz - 1; 
         /* Adjust the array. */
         ctx->handles = hndls;
-- 
2.43.0


From 70eee2308bcffa3893115dfb5e574d00e49515fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 04/63] fix: hclose must not use the handle table after it may
 have moved

---
 handle.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/handle.c b/handle.c
index 48cac3b..ea1b93a 100644
--- a/handle.c
+++ b/handle.c
@@ -156,6 +156,9 @@ int dill_hclose(int h) {
     hndl->vfs->close(hndl->vfs);
     /* Restore the previous state. */
     dill_no_blocking(old);
+    /* Other coroutines may have been running in the meantime. In case handle
+       array was reallocated we have to recompute the pointer. */
+    hndl = &ctx->handles[h];
     /* Mark the cache as invalid. */
     hndl->ptr = NULL;
     /* Return a handle to the shared pool. */
-- 
2.43.0


From b0d3e9db50c514028b786a41206a33b80530ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 05/63] fix: do not truncate the poll timeout for deadlines
 more than 2^31 ms away

---
 cr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index 72ec206..ab9b0f7 100644
--- a/cr.c
+++ b/cr.c
@@ -21,6 +21,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <string.h>
@@ -483,7 +484,8 @@ int dill_wait(void)  {
                     int64_t deadline = dill_cont(
                         dill_rbtree_first(&ctx->timers),
                         struct dill_tmclause, item)->item.val;
-                    timeout = (int) (nw >= deadline ? 0 : deadline - nw);
+                    int64_t left = nw >= deadline ? 0 : deadline - nw;
+                    timeout = left > INT_MAX ? INT_MAX : (int)left;
                 }
             }
             /* Wait for events. */
-- 
2.43.0


From b1c5dc6c56b35bc5a6dbd1206e9dbd2f2377673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 06/63] fix: refuse caller-supplied coroutine memory that is
 too small

---
 cr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index ab9b0f7..7c9ac32 100644
--- a/cr.c
+++ b/cr.c
@@ -263,6 +263,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     int new_bundle = bndl < 0;
     if(new_bundle) {
         if(*ptr) {
+            if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
+                err = ENOMEM; goto error1;}
             bndl = dill_bundle_mem(*ptr);
             *ptr = ((uint8_t*)*ptr) + sizeof(struct dill_bundle_storage);
             len -= sizeof(struct dill_bundle_storage);
@@ -287,10 +289,10 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
         uintptr_t top = (uintptr_t)*ptr;
         top += len;
         top &= ~(uintptr_t)15;
+        if(dill_slow(top < (uintptr_t)*ptr + sizeof(struct dill_cr))) {
+            err = ENOMEM; goto error2;}
         stacksz = top - (uintptr_t)*ptr;
         cr = (struct dill_cr*)top;
-        if(dill_slow(stacksz < sizeof(struct dill_cr))) {
-            err = ENOMEM; goto error2;}
     }
 #if defined DILL_CENSUS
     /* Mark the bytes in the stack as unused. */
-- 
2.43.0


From 3419b64af5fdab7483610eb37ceb636a13398c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 07/63] fix: fdclean looked up descriptors outside of the table

---
 epoll.c.inc  | 2 ++
 kqueue.c.inc | 2 ++
 poll.c.inc   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/epoll.c.inc b/epoll.c.inc
index c925125..2add57f 100644
--- a/epoll.c.inc
+++ b/epoll.c.inc
@@ -175,6 +175,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* There's nothing cached for a file descriptor outside of the table. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/kqueue.c.inc b/kqueue.c.inc
index 92a0674..6678630 100644
--- a/kqueue.c.inc
+++ b/kqueue.c.inc
@@ -172,6 +172,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* There's nothing cached for a file descriptor outside of the table. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/poll.c.inc b/poll.c.inc
index a575799..02327c1 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -166,6 +166,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* There's nothing cached for a file descriptor outside of the table. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     if(dill_slow(fdi->in || fdi->out)) {errno = EBUSY; return -1;}
-- 
2.43.0


From f1b910ad68b752226905a792e97436f1ddc20fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 08/63] fix: poll back end waited for garbage events

---
 poll.c.inc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poll.c.inc b/poll.c.inc
index 02327c1..a959b4a 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -132,6 +132,7 @@ int dill_pollset_in(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->in)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLIN;
@@ -155,6 +156,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->out)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLOUT;
-- 
2.43.0


From 51c307fd483f3b8f0c30bc5205bc61f408d0d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 09/63] fix: poll back end reported a resumption for events
 nobody waits for

---
 poll.c.inc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/poll.c.inc b/poll.c.inc
index a959b4a..88f769d 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -195,6 +195,7 @@ int dill_pollset_poll(int timeout) {
     if(numevs < 0 && errno == EINTR) return -1;
     dill_assert(numevs >= 0);
     /* Fire file descriptor events as needed. */
+    int resumed = 0;
     int i;
     for(i = 0; i != ctx->pollset_size; ++i) {
         struct pollfd *pfd = &ctx->pollset[i];
@@ -204,11 +205,13 @@ int dill_pollset_poll(int timeout) {
               pfd->revents & (POLLIN | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLIN;
             dill_trigger(&fdi->in->cl, 0);
+            resumed = 1;
         }
         if(fdi->out && 
               pfd->revents & (POLLOUT | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLOUT;
             dill_trigger(&fdi->out->cl, 0);
+            resumed = 1;
         }
         /* If nobody is polling for the fd remove it from the pollset. */
         if(!pfd->events) {
@@ -226,6 +229,8 @@ int dill_pollset_poll(int timeout) {
             --i;
         }
     }
-    return numevs > 0;
+    /* There may be events on descriptors that nobody waits for any more, so
+       the number of events doesn't say whether a coroutine was resumed. */
+    return resumed;
 }
 
-- 
2.43.0


From ef3c658f755324639350bb7a3b294c4313cbf3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 10/63] fix: close the owned descriptor when fromfd fails

---
 ipc.c | 12 ++++++++----
 tcp.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ipc.c b/ipc.c
index 06d64ab..0ecef4e 100644
--- a/ipc.c
+++ b/ipc.c
@@ -106,12 +106,14 @@ int dill_ipc_fromfd_mem(int fd, struct dill_ipc_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -399,12 +401,14 @@ int dill_ipc_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
diff --git a/tcp.c b/tcp.c
index cdc72c9..7c859b1 100644
--- a/tcp.c
+++ b/tcp.c
@@ -100,12 +100,14 @@ int dill_tcp_fromfd_mem(int fd, struct dill_tcp_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -311,12 +313,14 @@ int dill_tcp_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
-- 
2.43.0


From f8c03c6f38853925bc417fe51695eb630d74c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 11/63] fix: tcp_close and ipc_close must release the handle

---
 ipc.c | 5 ++---
 tcp.c | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/ipc.c b/ipc.c
index 0ecef4e..88e6a87 100644
--- a/ipc.c
+++ b/ipc.c
@@ -323,10 +323,9 @@ int dill_ipc_close(int s, int64_t deadline) {
     int rc = dill_ipc_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_ipc_hclose(&self->hvfs);
-    return 0;
+    return dill_hclose(s);
 error:
-    dill_ipc_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
diff --git a/tcp.c b/tcp.c
index 7c859b1..600a086 100644
--- a/tcp.c
+++ b/tcp.c
@@ -235,10 +235,9 @@ int dill_tcp_close(int s, int64_t deadline) {
     int rc = dill_tcp_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_tcp_hclose(&self->hvfs);
-    return 0;
+    return dill_hclose(s);
 error:
-    dill_tcp_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From 58b423d1bcd037a1681bc003437b54c8faabafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 12/63] fix: ipc_pair leaked the second connection when its
 handle could not be made

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index 88e6a87..e51c2e1 100644
--- a/ipc.c
+++ b/ipc.c
@@ -561,6 +561,7 @@ int dill_ipc_pair(int s[2]) {
     conn1->mem = 0;
     return 0;
 error6:
+    free(conn1);
     rc = dill_hclose(s[0]);
     goto error2;
 error5:
-- 
2.43.0


From 0c97dd378d730dac3a57360fa27069dcf1f457af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 13/63] fix: detach functions must release the handle of the
 detached socket

---
 http.c   |  4 +++-
 prefix.c |  4 +++-
 suffix.c |  4 +++-
 term.c   |  8 +++++---
 tls.c    |  5 +++--
 ws.c     | 21 ++++++++++++++++-----
 6 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/http.c b/http.c
index 8dcb106..3f4c369 100644
--- a/http.c
+++ b/http.c
@@ -117,7 +117,9 @@ int dill_http_detach(int s, int64_t deadline) {
     u = dill_suffix_detach(u, deadline);
     if(dill_slow(u < 0)) {err = errno; goto error;}
 error:
-    if(!obj->mem) free(obj);
+    obj->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return u;
 }
diff --git a/prefix.c b/prefix.c
index 1746872..68d1325 100644
--- a/prefix.c
+++ b/prefix.c
@@ -117,7 +117,9 @@ int dill_prefix_detach(int s) {
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/suffix.c b/suffix.c
index 1dce9e8..c577aed 100644
--- a/suffix.c
+++ b/suffix.c
@@ -121,7 +121,9 @@ int dill_suffix_detach(int s, int64_t deadline) {
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/term.c b/term.c
index 5c91677..b0fd312 100644
--- a/term.c
+++ b/term.c
@@ -145,11 +145,13 @@ int dill_term_detach(int s, int64_t deadline) {
         }
     }
     int u = self->u;
-    if(!self->mem) free(self);
-    return u;
-error:;
+    self->u = -1;
     int rc = dill_hclose(s);
     dill_assert(rc == 0);
+    return u;
+error:
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return -1;
 }
diff --git a/tls.c b/tls.c
index 958b10e..d2cf04d 100644
--- a/tls.c
+++ b/tls.c
@@ -277,10 +277,11 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     int u = self->u;
     self->u = -1;
-    dill_tls_hclose(&self->hvfs);
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
-    dill_tls_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
diff --git a/ws.c b/ws.c
index 013a516..f763b26 100644
--- a/ws.c
+++ b/ws.c
@@ -541,11 +541,12 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
 
 int dill_ws_detach(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
+    int err;
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(!self->outdone) {
         int rc = dill_ws_done(s, status, buf, len, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) {err = errno; goto error;}
     }
     while(1) {
         struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
@@ -553,18 +554,28 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
             deadline);
         if(sz < 0) {
              if(errno == EPIPE) break;
-             return -1;
+             err = errno;
+             goto error;
         }
     }
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
+error:
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
+    errno = err;
+    return -1;
 }
 
 static void dill_ws_hclose(struct dill_hvfs *hvfs) {
     struct dill_ws_sock *self = (struct dill_ws_sock*)hvfs;
-    int rc = dill_hclose(self->u);
-    dill_assert(rc == 0);
+    if(dill_fast(self->u >= 0)) {
+        int rc = dill_hclose(self->u);
+        dill_assert(rc == 0);
+    }
     if(!self->mem) free(self);
 }
 
-- 
2.43.0


From 46d9adde010aeb8f0343e281c46558145ea6c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 14/63] fix: ws_attach_client must close the socket when the
 upgrade is refused

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index f763b26..04c6b1e 100644
--- a/ws.c
+++ b/ws.c
@@ -119,7 +119,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     char reason[256];
     rc = dill_http_recvstatus(s, reason, sizeof(reason), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto error;}
-    if(dill_slow(rc != 101)) {errno = EPROTO; return -1;}
+    if(dill_slow(rc != 101)) {err = EPROTO; goto error;}
     int has_upgrade = 0;
     int has_connection = 0;
     int has_key = 0;
-- 
2.43.0


From 7faca06ed216c8dd92efc0921d88bf98a54f8bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 15/63] fix: udp_open must report that bind failed

---
 udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index c3bda63..bc7b22c 100644
--- a/udp.c
+++ b/udp.c
@@ -82,7 +82,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Start listening. */
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
-        if(s < 0) {err = errno; goto error2;}
+        if(dill_slow(rc < 0)) {err = errno; goto error2;}
         /* Get the ephemeral port number. */
         if(dill_ipaddr_port(local) == 0) {
             struct dill_ipaddr baddr;
-- 
2.43.0


From 4c6f8ff1036a0309fcf96ae8f44ed32f407d2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 16/63] fix: report errors hit while skipping inbound data

---
 fd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fd.c b/fd.c
index 92e9388..67bde4e 100644
--- a/fd.c
+++ b/fd.c
@@ -328,6 +328,7 @@ int dill_fd_recv(int s, struct dill_fd_rxbuf *rxbuf, struct dill_iolist *first,
                 /* Skip specified number of bytes. */
                 dill_assert(it == begin);
                 int rc = dill_fd_skip(s, it->iol_len, deadline);
+                if(dill_slow(rc < 0)) return -1;
                 goto next;
             }
             if(it == end || !it->iol_next->iol_base || !it->iol_next->iol_len) {
-- 
2.43.0


From 3d664d9e06aa3252bde035d52bc04b3d548bcf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 17/63] fix: tls_attach must not free the BIO twice nor leak
 OpenSSL objects

---
 tls.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/tls.c b/tls.c
index d2cf04d..a4681e7 100644
--- a/tls.c
+++ b/tls.c
@@ -96,7 +96,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -117,15 +117,14 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
         ERR_clear_error();
         int rc = SSL_connect(ssl);
         if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_slow(errno != 0)) {err = errno; goto error3;}
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
+    /* This releases the BIO as well. */
     SSL_free(ssl);
 error2:
     SSL_CTX_free(ctx);
@@ -182,7 +181,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -203,15 +202,14 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
         ERR_clear_error();
         rc = SSL_accept(ssl);
         if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_slow(errno != 0)) {err = errno; goto error3;}
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
+    /* This releases the BIO as well. */
     SSL_free(ssl);
 error2:
     SSL_CTX_free(ctx);
-- 
2.43.0


From 553ff1b3aba668ea2d4dc361c465fd046bddf4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 18/63] fix: socks5: set errno when authentication or address
 conversion fails

---
 socks5.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socks5.c b/socks5.c
index a919801..ac04dfa 100644
--- a/socks5.c
+++ b/socks5.c
@@ -203,6 +203,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         resp[1] = S5AUTH_FAIL;
         err = dill_bsend(s, (void *)resp, 2, deadline);
         if(dill_slow(err)) return -1;
+        errno = EACCES;
         return -1;
     }
     // no compatible AUTH (auth fail)
@@ -210,6 +211,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
     resp[1] = S5METH_NOMETHOD;
     err = dill_bsend(s, (void *)resp, 2, deadline);
     if(dill_slow(err)) return -1;
+    errno = EACCES;
     return -1;
 accept_noauth:
     // accept NOAUTH, no further auth req'd
@@ -248,6 +250,7 @@ static int s5_ipaddr_to_s5addr(_socks5_addr *s5, struct dill_ipaddr *addr) {
             memcpy((void *)s5->addr, (void *)&ipv6->sin6_addr, s5->alen);
             return 0;}
     }
+    errno = EINVAL;
     return -1;
 }
 
-- 
2.43.0


From fc020f0acdfbdff3f5a49a8b9a95ea971cfe99f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 19/63] fix: set errno when bundle_mem is passed NULL

---
 cr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index 7c9ac32..fcfc063 100644
--- a/cr.c
+++ b/cr.c
@@ -86,8 +86,7 @@ DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
 int dill_bundle_mem(struct dill_bundle_storage *mem) {
-    int err;
-    if(dill_slow(!mem)) {err = EINVAL; return -1;}
+    if(dill_slow(!mem)) {errno = EINVAL; return -1;}
     struct dill_bundle *b = (struct dill_bundle*)mem;
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
-- 
2.43.0


From 5eb6458a439507eaae070a14645ac24ca2d77a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 20/63] fix: preserve errno when hown closes the handle

---
 handle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/handle.c b/handle.c
index ea1b93a..4f899cd 100644
--- a/handle.c
+++ b/handle.c
@@ -113,8 +113,10 @@ int dill_hown(int h) {
     /* Create a new handle for the same object. */
     int res = dill_hmake(hndl->vfs);
     if(dill_slow(res < 0)) {
+        int err = errno;
         int rc = dill_hclose(h);
         dill_assert(rc == 0);
+        errno = err;
         return -1;
     }
     /* In case handle array was reallocated we have to recompute the pointer. */
-- 
2.43.0


From fb90cb45bdab28e74787f5e87ce446afb372aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 21/63] fix: term: fail with EPIPE once a direction is done

---
 term.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/term.c b/term.c
index b0fd312..732969d 100644
--- a/term.c
+++ b/term.c
@@ -159,6 +159,7 @@ error:
 static int dill_term_msendl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     /* TODO: Check that it's not the terminal message. */
     return dill_msendl(self->u, first, last, deadline);
 }
@@ -166,6 +167,7 @@ static int dill_term_msendl(struct dill_msock_vfs *mvfs,
 static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(self->len == 0) {
         ssize_t sz = dill_mrecvl(self->u, first, last, deadline);
         if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From 89fef5b4d941bdeb4d55c54ab8a776948f58c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 22/63] fix: ws: remember that a direction is broken

---
 ws.c | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/ws.c b/ws.c
index 04c6b1e..548940f 100644
--- a/ws.c
+++ b/ws.c
@@ -41,6 +41,8 @@ struct dill_ws_sock {
     int flags;
     unsigned int indone : 1;
     unsigned int outdone: 1;
+    unsigned int inerr : 1;
+    unsigned int outerr : 1;
     unsigned int server : 1;
     unsigned int mem : 1;
     uint16_t status;
@@ -82,6 +84,8 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
+    self->outerr = 0;
     self->server = 0;
     self->mem = 1;
     self->status = 0;
@@ -204,6 +208,8 @@ int dill_ws_attach_server_mem(int s, int flags,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
+    self->outerr = 0;
     self->server = 1;
     self->mem = 1;
     self->status = 0;
@@ -321,6 +327,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
@@ -350,11 +357,11 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
         sz += 4;
     }
     rc = dill_bsend(self->u, buf, sz, deadline);
-    if(dill_slow(rc < 0)) return -1;
+    if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
     /* On the server side we can send the payload as is. */
     if(self->server) {
         rc = dill_bsendl(self->u, first, last, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
         return 0;
     }
     /* On the client side, the payload has to be masked. */
@@ -365,7 +372,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
             uint8_t b = ((uint8_t*)first->iol_base)[i] ^
                 mask[pos++ % sizeof(mask)];
             rc = dill_bsend(self->u, &b, 1, deadline); 
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
         }
         first = first->iol_next;
     }
@@ -375,10 +382,12 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
 static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
+    if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
+    int closing = 0;
     /* Message may consist of multiple frames. Read them one by one. */
     struct dill_iolist it;
     if(first) it = *first;
@@ -386,8 +395,8 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         struct dill_iolist iol_msg;
         uint8_t hdr1[2];
         rc = dill_brecv(self->u, hdr1, sizeof(hdr1), deadline);
-        if(dill_slow(rc < 0)) return -1;
-        if(hdr1[0] & 0x70) {errno = EPROTO; return -1;}
+        if(dill_slow(rc < 0)) goto error;
+        if(hdr1[0] & 0x70) {errno = EPROTO; goto error;}
         int opcode = hdr1[0] & 0x0f;
         /* TODO: Other opcodes. */
         switch(opcode) {
@@ -408,41 +417,41 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             iol_msg.iol_len = sizeof(self->msg);
             iol_msg.iol_next = NULL;
             iol_msg.iol_rsvd = 0;
-            self->indone = 1;
+            closing = 1;
             break;
         default:
             errno = EPROTO;
-            return -1;
+            goto error;
         }
-        if(!self->server ^ !(hdr1[1] & 0x80)) {errno = EPROTO; return -1;}
+        if(!self->server ^ !(hdr1[1] & 0x80)) {errno = EPROTO; goto error;}
         size_t sz = hdr1[1] & 0x7f;
         if(sz == 126) {
             uint8_t hdr2[2];
             rc = dill_brecv(self->u, hdr2, sizeof(hdr2), deadline);
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) goto error;
             sz = dill_gets(hdr2);
         }
         else if(sz == 127) {
             uint8_t hdr2[8];
             rc = dill_brecv(self->u, hdr2, sizeof(hdr2), deadline);
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) goto error;
             sz = dill_getll(hdr2);
         }
         res += sz;
         /* Control frames cannot be fragmented or longer than 125 bytes. */
         if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80)))) {
-            errno = EPROTO; return -1;}
+            errno = EPROTO; goto error;}
         uint8_t mask[4];
         if(self->server) {
             rc = dill_brecv(self->u, mask, sizeof(mask), deadline);
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) goto error;
         }
         /* Frame may be read into multiple iolist elements. */
         while(1) {
             size_t toread = sz < it.iol_len ? sz : it.iol_len;
             if(toread > 0) {
                 rc = dill_brecv(self->u, it.iol_base, toread, deadline);
-                if(dill_slow(rc < 0)) return -1;
+                if(dill_slow(rc < 0)) goto error;
                 if(self->server) {
                     size_t i;
                     for(i = 0; i != toread; ++i)
@@ -451,24 +460,29 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             }
             sz -= toread;
             if(sz == 0) break;
-            if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; return -1;}
+            if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; goto error;}
             it = *it.iol_next;
         }
         if(hdr1[0] & 0x80) break;
     }
-    if(dill_slow(self->indone)) {
-        if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
+    if(dill_slow(closing)) {
+        if(dill_slow(res == 1)) {errno = EPROTO; goto error;}
         if(res >= 2) {
            self->status = dill_gets((uint8_t*)&self->status);
            if(dill_slow(self->status < 1000 || self->status > 4999)) {
-               errno = EPROTO; return -1;}
+               errno = EPROTO; goto error;}
            self->msglen = (uint8_t)res - 2;
         }
         else self->msglen = 0;
+        self->indone = 1;
         errno = EPIPE;
         return -1;
     }
     return res;
+error:
+    /* The position in the stream of frames is lost. */
+    self->inerr = 1;
+    return -1;
 }
 
 int dill_ws_send(int s, int flags, const void *buf, size_t len,
-- 
2.43.0


From 2e90e4ff149be0486fa70f561e5c6f17fcc89161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 23/63] fix: ipc: handle failures of passing descriptors

---
 ipc.c | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/ipc.c b/ipc.c
index e51c2e1..454f7ed 100644
--- a/ipc.c
+++ b/ipc.c
@@ -33,6 +33,12 @@
 #include "fd.h"
 #include "utils.h"
 
+#if defined MSG_NOSIGNAL
+#define IPC_NOSIGNAL MSG_NOSIGNAL
+#else
+#define IPC_NOSIGNAL 0
+#endif
+
 static int dill_ipc_resolve(const char *addr, struct sockaddr_un *su);
 
 dill_unique_id(dill_ipc_listener_type);
@@ -234,15 +240,18 @@ int dill_ipc_sendfd(int s, int fd, int64_t deadline) {
     cmsg->cmsg_len = CMSG_LEN(sizeof(fd));
     *((int*)CMSG_DATA(cmsg)) = fd;
     msg.msg_controllen = cmsg->cmsg_len;
-    int rc = dill_fdout(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = sendmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->outdone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+    while(1) {
+        self->sbusy = 1;
+        int rc = dill_fdout(self->fd, deadline);
+        self->sbusy = 0;
+        if(dill_slow(rc < 0)) return -1;
+        ssize_t sz = sendmsg(self->fd, &msg, IPC_NOSIGNAL);
+        if(dill_fast(sz >= 0)) return 0;
+        if(errno == EAGAIN || errno == EWOULDBLOCK) continue;
+        if(errno == EPIPE) errno = ECONNRESET;
+        if(errno == ECONNRESET) self->outerr = 1;
+        return -1;
     }
-    return 0;
 }
 
 int dill_ipc_recvfd(int s, int64_t deadline) {
@@ -263,13 +272,17 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     unsigned char control[1024];
     msg.msg_control = control;
     msg.msg_controllen = sizeof(control);
-    int rc = dill_fdin(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = recvmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+    while(1) {
+        self->rbusy = 1;
+        int rc = dill_fdin(self->fd, deadline);
+        self->rbusy = 0;
+        if(dill_slow(rc < 0)) return -1;
+        ssize_t sz = recvmsg(self->fd, &msg, 0);
+        if(dill_fast(sz > 0)) break;
+        if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
+        if(errno == EAGAIN || errno == EWOULDBLOCK) continue;
+        if(errno == ECONNRESET) self->inerr = 1;
+        return -1;
     }
     /* Loop over the auxiliary data to find the embedded file descriptor. */
     int fd = -1;
-- 
2.43.0


From ee2f9001071855d913102b335aac3b7a51b9fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 24/63] fix: tls: use the caller's deadline for handshakes

---
 tls.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index a4681e7..25230e3 100644
--- a/tls.c
+++ b/tls.c
@@ -106,7 +106,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -191,7 +191,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -242,6 +242,7 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    self->deadline = deadline;
     while(1) {
         ERR_clear_error();
         int rc = SSL_shutdown(self->ssl);
@@ -266,6 +267,7 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     /* Wait for the handshake acknowledgement from the peer. */
     if(!self->indone) {
+        self->deadline = deadline;
         while(1) {
             ERR_clear_error();
             int rc = SSL_shutdown(self->ssl);
-- 
2.43.0


From c89e7bce19f88e5bc93c9dafbd43b196f6c37a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 25/63] fix: tls: tolerate BIO commands introduced by newer
 OpenSSL

---
 tls.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tls.c b/tls.c
index 25230e3..77c30f4 100644
--- a/tls.c
+++ b/tls.c
@@ -456,7 +456,9 @@ static long dill_tls_cbio_ctrl(BIO *bio, int cmd, long larg, void *parg) {
     case BIO_CTRL_POP:
         return 0;
     default:
-        dill_assert(0);
+        /* Newer versions of OpenSSL use additional commands. The correct
+           answer to an unsupported one is zero. */
+        return 0;
     }
 }
 
-- 
2.43.0


From acea40d9abf8fdd92a0b01dc80014f718a9cf41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 26/63] fix: tls: report failed handshakes

---
 tls.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tls.c b/tls.c
index 77c30f4..1d97a62 100644
--- a/tls.c
+++ b/tls.c
@@ -116,8 +116,10 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     while(1) {
         ERR_clear_error();
         int rc = SSL_connect(ssl);
-        if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error3;}
+        if(dill_tls_followup(self, rc)) {
+            if(dill_slow(errno != 0)) {err = errno; goto error3;}
+            break;
+        }
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
@@ -201,8 +203,10 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     while(1) {
         ERR_clear_error();
         rc = SSL_accept(ssl);
-        if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error3;}
+        if(dill_tls_followup(self, rc)) {
+            if(dill_slow(errno != 0)) {err = errno; goto error3;}
+            break;
+        }
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-- 
2.43.0


From b26b0c132fefad2cf044b6c49bdca59b43404cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 27/63] fix: udp functions use handles of other message sockets
 as UDP sockets

---
 udp.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/udp.c b/udp.c
index bc7b22c..a483829 100644
--- a/udp.c
+++ b/udp.c
@@ -200,32 +200,32 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
       const void *buf, size_t len) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_sendl_(m, addr, &iol, &iol);
+    return dill_udp_sendl_(&obj->mvfs, addr, &iol, &iol);
 }
 
 ssize_t dill_udp_recv(int s, struct dill_ipaddr *addr, void *buf, size_t len,
       int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_recvl_(m, addr, &iol, &iol, deadline);
+    return dill_udp_recvl_(&obj->mvfs, addr, &iol, &iol, deadline);
 }
 
 int dill_udp_sendl(int s, const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_sendl_(m, addr, first, last);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_sendl_(&obj->mvfs, addr, first, last);
 }
 
 ssize_t dill_udp_recvl(int s, struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_recvl_(m, addr, first, last, deadline);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_recvl_(&obj->mvfs, addr, first, last, deadline);
 }
 
 static int dill_udp_msendl(struct dill_msock_vfs *mvfs,
-- 
2.43.0


From 78ca51c020496739d663abd0150c071f023d0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 28/63] fix: align the opaque storage types for the objects
 placed in them

---
 libdill.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libdill.h b/libdill.h
index 7063aa0..538f812 100644
--- a/libdill.h
+++ b/libdill.h
@@ -86,11 +86,9 @@ extern "C" {
    architectures
  */
 
-#if (defined __arm__) || (defined __thumb__)
-#define DILL_ALIGN __attribute__ ((aligned(__SIZEOF_POINTER__)))
-#else
-#define DILL_ALIGN
-#endif
+/* The objects placed in the opaque structures contain pointers and 64-bit
+   integers. */
+#define DILL_ALIGN __attribute__ ((aligned(8)))
 
 /******************************************************************************/
 /*  Helpers                                                                   */
-- 
2.43.0


From b838571617bc1cc8a6a011fa352f1df11cbc4f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 29/63] fix: tls: initialise the shared BIO method once for all
 threads

---
 tls.c | 52 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/tls.c b/tls.c
index 1d97a62..e165d1c 100644
--- a/tls.c
+++ b/tls.c
@@ -28,6 +28,9 @@
 #include <openssl/ssl.h>
 #include <stdint.h>
 #include <stdlib.h>
+#if defined DILL_THREADS
+#include <pthread.h>
+#endif
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
@@ -472,28 +475,39 @@ static void dill_tls_term(void) {
     EVP_cleanup();
 }
 
+static void dill_tls_init_once(void) {
+    SSL_library_init();
+    SSL_load_error_strings();
+    /* Create our own custom BIO type. */
+    int idx = BIO_get_new_index();
+    dill_tls_cbio = BIO_meth_new(idx, "bsock");
+    dill_assert(dill_tls_cbio);
+    int rc = BIO_meth_set_create(dill_tls_cbio, dill_tls_cbio_create);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_destroy(dill_tls_cbio, dill_tls_cbio_destroy);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_write(dill_tls_cbio, dill_tls_cbio_write);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_read(dill_tls_cbio, dill_tls_cbio_read);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_ctrl(dill_tls_cbio, dill_tls_cbio_ctrl);
+    dill_assert(rc == 1);
+    /* Deallocate the method once the process exits. */
+    rc = atexit(dill_tls_term);
+    dill_assert(rc == 0);
+}
+
 static void dill_tls_init(void) {
+#if defined DILL_THREADS
+    /* The method is shared by all the threads. */
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+    int rc = pthread_once(&once, dill_tls_init_once);
+    dill_assert(rc == 0);
+#else
     static int init = 0;
     if(dill_slow(!init)) {
-        SSL_library_init();
-        SSL_load_error_strings();
-        /* Create our own custom BIO type. */
-        int idx = BIO_get_new_index();
-        dill_tls_cbio = BIO_meth_new(idx, "bsock");
-        dill_assert(dill_tls_cbio);
-        int rc = BIO_meth_set_create(dill_tls_cbio, dill_tls_cbio_create);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_destroy(dill_tls_cbio, dill_tls_cbio_destroy);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_write(dill_tls_cbio, dill_tls_cbio_write);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_read(dill_tls_cbio, dill_tls_cbio_read);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_ctrl(dill_tls_cbio, dill_tls_cbio_ctrl);
-        dill_assert(rc == 1);
-        /* Deallocate the method once the process exits. */
-        rc = atexit(dill_tls_term);
-        dill_assert(rc == 0);
+        dill_tls_init_once();
         init = 1;
     }
+#endif
 }
-- 
2.43.0


From 0e76a714f5010a8a2c28d60498ec5742989b0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 30/63] fix: open the random device once for all threads

---
 utils.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/utils.c b/utils.c
index eb3582d..ca7ac08 100644
--- a/utils.c
+++ b/utils.c
@@ -25,6 +25,9 @@
 
 #include <ctype.h>
 #include <fcntl.h>
+#if defined DILL_THREADS
+#include <pthread.h>
+#endif
 #include <string.h>
 #include <sys/param.h>
 #include <sys/resource.h>
@@ -109,13 +112,23 @@ const char *dill_rstrip(const char *string, char delim) {
     return ++end;
 }
 
+/* The file descriptor is shared by all the threads. */
+static int dill_random_fd = -1;
+
+static void dill_random_init(void) {
+    dill_random_fd = open("/dev/urandom", O_RDONLY);
+    dill_assert(dill_random_fd >= 0);
+}
+
 int dill_random(uint8_t *buf, size_t len) {
-    static int fd = -1;
-    if(dill_slow(fd < 0)) {
-        fd = open("/dev/urandom", O_RDONLY);
-        dill_assert(fd >= 0);
-    }
-    ssize_t sz = read(fd, buf, len);
+#if defined DILL_THREADS
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+    int rc = pthread_once(&once, dill_random_init);
+    dill_assert(rc == 0);
+#else
+    if(dill_slow(dill_random_fd < 0)) dill_random_init();
+#endif
+    ssize_t sz = read(dill_random_fd, buf, len);
     if(dill_slow(sz < 0)) return -1;
     dill_assert(sz == len);
     return 0;
-- 
2.43.0


From be5498703d7b0d69609a189116b0b0cfaf2856e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 31/63] fix: load the DNS configuration under a lock

---
 ipaddr.c | 52 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 005777d..996a42a 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -31,6 +31,9 @@
 #include <arpa/inet.h>
 #include <errno.h>
 #include <netinet/in.h>
+#if defined DILL_THREADS
+#include <pthread.h>
+#endif
 #include <string.h>
 #include <sys/types.h>
 #include <sys/socket.h>
@@ -54,6 +57,39 @@ DILL_CT_ASSERT(sizeof(struct dill_ipaddr) >= sizeof(struct sockaddr_in6));
 static struct dns_resolv_conf *dill_dns_conf = NULL;
 static struct dns_hosts *dill_dns_hosts = NULL;
 static struct dns_hints *dill_dns_hints = NULL;
+#if defined DILL_THREADS
+static pthread_mutex_t dill_dns_mutex = PTHREAD_MUTEX_INITIALIZER;
+#endif
+
+/* Loads the DNS config files, unless they are already cached. The cache is
+   shared by all the threads. */
+static int dill_dns_load(void) {
+    int err = 0;
+    int rc;
+#if defined DILL_THREADS
+    rc = pthread_mutex_lock(&dill_dns_mutex);
+    dill_assert(rc == 0);
+#endif
+    if(dill_slow(!dill_dns_conf)) {
+        /* TODO: Maybe re-read the configuration once in a while? */
+        dill_dns_conf = dns_resconf_local(&rc);
+        if(dill_dns_conf) {
+            dill_dns_hosts = dns_hosts_local(&rc);
+            dill_assert(dill_dns_hosts);
+            dill_dns_hints = dns_hints_local(dill_dns_conf, &rc);
+            dill_assert(dill_dns_hints);
+        }
+        else {
+            err = ENOENT;
+        }
+    }
+#if defined DILL_THREADS
+    rc = pthread_mutex_unlock(&dill_dns_mutex);
+    dill_assert(rc == 0);
+#endif
+    if(dill_slow(err != 0)) {errno = err; return -1;}
+    return 0;
+}
 
 static int dill_ipaddr_ipany(struct dill_ipaddr *addr, int port, int mode)
 {
@@ -317,19 +353,9 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
         return rc1 + rc2;
     }
     /* We are going to do a DNS query here so load DNS config files,
-       unless they are already chached. */
-    if(dill_slow(!dill_dns_conf)) {
-        /* TODO: Maybe re-read the configuration once in a while? */
-        dill_dns_conf = dns_resconf_local(&rc);
-        if(!dill_dns_conf) {
-            errno = ENOENT;
-            return -1;
-        }
-        dill_dns_hosts = dns_hosts_local(&rc);
-        dill_assert(dill_dns_hosts);
-        dill_dns_hints = dns_hints_local(dill_dns_conf, &rc);
-        dill_assert(dill_dns_hints);
-    }
+       unless they are already cached. */
+    rc = dill_dns_load();
+    if(dill_slow(rc < 0)) return -1;
     /* Launch the actual DNS query. */
     struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
         dill_dns_hosts, dill_dns_hints, NULL, dns_opts(), &rc);
-- 
2.43.0


From 25d1f440ac352a63ebf5f94eadec1c7082e2cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 32/63] fix: declare the registers a context switch does not
 preserve

---
 libdill.h | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/libdill.h b/libdill.h
index 538f812..0bb58e0 100644
--- a/libdill.h
+++ b/libdill.h
@@ -139,6 +139,38 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
    musl, but glibc implements pointer mangling, which is hard to support.
    This should be binary-compatible with musl, though. */
 
+/* No floating-point or vector register is preserved when the context is
+   switched. */
+#if defined(__x86_64__)
+#define DILL_SETJMP_FPU \
+    "st", "st(1)", "st(2)", "st(3)", "st(4)", "st(5)", "st(6)", "st(7)", \
+    "mm0", "mm1", "mm2", "mm3", "mm4", "mm5", "mm6", "mm7"
+#if defined(__AVX512F__)
+#define DILL_SETJMP_FPREGS DILL_SETJMP_FPU, \
+    "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", \
+    "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15", \
+    "xmm16", "xmm17", "xmm18", "xmm19", "xmm20", "xmm21", "xmm22", "xmm23", \
+    "xmm24", "xmm25", "xmm26", "xmm27", "xmm28", "xmm29", "xmm30", "xmm31", \
+    "k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"
+#elif defined(__SSE__)
+#define DILL_SETJMP_FPREGS DILL_SETJMP_FPU, \
+    "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", \
+    "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15"
+#else
+#define DILL_SETJMP_FPREGS DILL_SETJMP_FPU
+#endif
+#elif defined(__i386__)
+#define DILL_SETJMP_FPU \
+    "st", "st(1)", "st(2)", "st(3)", "st(4)", "st(5)", "st(6)", "st(7)"
+#if defined(__SSE__)
+#define DILL_SETJMP_FPREGS DILL_SETJMP_FPU, \
+    "mm0", "mm1", "mm2", "mm3", "mm4", "mm5", "mm6", "mm7", \
+    "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7"
+#else
+#define DILL_SETJMP_FPREGS DILL_SETJMP_FPU
+#endif
+#endif
+
 /* Stack-switching on X86-64. */
 #if defined(__x86_64__) && !defined DILL_ARCH_FALLBACK
 #define dill_setjmp(ctx) __extension__ ({\
@@ -156,7 +188,8 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
         "LJMPRET%=:\n\t"\
         : "=a" (ret)\
         : "d" (ctx)\
-        : "memory", "rcx", "rsi", "rdi", "r8", "r9", "r10", "r11", "cc");\
+        : "memory", "rcx", "rsi", "rdi", "r8", "r9", "r10", "r11", "cc",\
+          DILL_SETJMP_FPREGS);\
     ret;\
 })
 #define dill_longjmp(ctx) \
@@ -181,7 +214,7 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
         : : "d" (ctx), "a" (1))
 #define dill_setsp(x) \
     asm(""::"r"(alloca(sizeof(size_t))));\
-    asm volatile("leaq (%%rax), %%rsp"::"rax"(x));
+    asm volatile("leaq (%%rax), %%rsp"::"a"(x));
 
 /* Stack switching on X86. */
 #elif defined(__i386__) && !defined DILL_ARCH_FALLBACK
@@ -196,7 +229,8 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
         "movl   %%ecx, 20(%%edx)\n\t"\
         "xorl   %%eax, %%eax\n\t"\
         "LJMPRET%=:\n\t"\
-        : "=a" (ret) : "d" (ctx) : "memory");\
+        : "=a" (ret) : "d" (ctx)\
+        : "memory", "ecx", "cc", DILL_SETJMP_FPREGS);\
     ret;\
 })
 #define dill_longjmp(ctx) \
@@ -217,7 +251,7 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
         : : "d" (ctx), "a" (1))
 #define dill_setsp(x) \
     asm(""::"r"(alloca(sizeof(size_t))));\
-    asm volatile("leal (%%eax), %%esp"::"eax"(x));
+    asm volatile("leal (%%eax), %%esp"::"a"(x));
 
 /* Stack-switching on other microarchitectures. */
 #else
-- 
2.43.0


From fd55a93eb8602dd7348a40acdf97dae574e315ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 33/63] fix: a rejected iolist is left with no elements marked
 as used

---
 iol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iol.c b/iol.c
index c1d4d12..46678a9 100644
--- a/iol.c
+++ b/iol.c
@@ -51,7 +51,7 @@ int dill_iolcheck(struct iolist *first, struct iolist *last,
     return 0;
 error:;
     struct iolist *it2;
-    for(it2 = first; it2 != it; it2 = it2->iol_next) it->iol_rsvd = 0;
+    for(it2 = first; nbf; it2 = it2->iol_next, --nbf) it2->iol_rsvd = 0;
     errno = EINVAL;
     return -1;
 }
-- 
2.43.0


From 1e60fb2d2019bb031adb18d92381638449b45391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 34/63] fix: prefix: a message may end before the last element
 of the iolist

---
 prefix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefix.c b/prefix.c
index 68d1325..d0ca779 100644
--- a/prefix.c
+++ b/prefix.c
@@ -182,7 +182,7 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     struct dill_iolist *old_next = it->iol_next;
     it->iol_len = rmn;
     it->iol_next = NULL;
-    rc = dill_brecvl(self->u, first, last, deadline);
+    rc = dill_brecvl(self->u, first, it, deadline);
     /* Get iolist to its original state. */
     it->iol_len = old_len;
     it->iol_next = old_next;
-- 
2.43.0


From cbe8c4246f04e872fd76a1ca6b72856c492f6064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 35/63] fix: prefix: sizes that cannot be represented are
 rejected

---
 prefix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prefix.c b/prefix.c
index d0ca779..74e2f20 100644
--- a/prefix.c
+++ b/prefix.c
@@ -142,6 +142,7 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
         szbuf[self->bigendian ? (self->hdrlen - i - 1) : i] = sz & 0xff;
         sz >>= 8;
     }
+    if(dill_slow(sz)) {errno = EMSGSIZE; return -1;}
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
     int rc = dill_bsendl(self->u, &hdr, last, deadline);
     if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
@@ -160,9 +161,12 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     int i;
     for(i = 0; i != self->hdrlen; ++i) {
         uint8_t c = szbuf[self->bigendian ? i : (self->hdrlen - i - 1)];
+        if(dill_slow(sz >> 56)) {self->inerr = 1; errno = EMSGSIZE; return -1;}
         sz <<= 8;
         sz |= c;
     }
+    if(dill_slow(sz > SIZE_MAX / 2)) {
+        self->inerr = 1; errno = EMSGSIZE; return -1;}
     /* Skip the message. */
     if(!first) {
         rc = dill_brecv(self->u, NULL, sz, deadline);
-- 
2.43.0


From 73314aab9084df85647c49aef2f36c3ca5296dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 36/63] fix: suffix: iolists are filled in exactly and not
 beyond

---
 suffix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/suffix.c b/suffix.c
index c577aed..33a2953 100644
--- a/suffix.c
+++ b/suffix.c
@@ -158,21 +158,22 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
     size_t sz = 0;
-    struct dill_iolist it = *first;
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
+    if(first) it = *first;
     while(1) {
         /* Check for suffix. */
         if(memcmp(self->buf, self->suffix, self->suffixlen) == 0) break;
         /* Ignore empty iolist items. */
-        while(first->iol_len == 0) {
+        while(it.iol_len == 0) {
             if(!it.iol_next) {self->inerr = 1; errno = EMSGSIZE; return -1;}
             it = *it.iol_next;
         }
         /* Move one character to the user's iolist. */
-        if(it.iol_base && it.iol_len > 0) {
+        if(it.iol_base) {
             ((uint8_t*)it.iol_base)[0] = self->buf[0];
             it.iol_base = ((uint8_t*)it.iol_base) + 1;
-            it.iol_len--;
         }
+        it.iol_len--;
         /* Read new character into the temporary buffer. */
         memmove(self->buf, self->buf + 1, self->suffixlen - 1);
         rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
-- 
2.43.0


From ac3b5544a47c0ff4def22253f3faca14eef02438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 37/63] fix: term: short messages, small buffers and split
 iolists are handled

---
 term.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/term.c b/term.c
index 732969d..f9113f6 100644
--- a/term.c
+++ b/term.c
@@ -178,11 +178,16 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         }
         return sz;
     }
+    /* If the message should be skipped there's no limit on its size. */
+    struct dill_iolist skip = {NULL, SIZE_MAX, NULL, 0};
+    if(!first) first = last = &skip;
     struct dill_iolist trimmed = {0};
     int rc = dill_ioltrim(first, self->len, &trimmed);
     uint8_t buf[self->len];
     struct dill_iolist iol = {buf, self->len, rc < 0 ? NULL : &trimmed, 0}; 
-    ssize_t sz = dill_mrecvl(self->u, &iol, rc < 0 ? &iol : last, deadline);
+    if(rc < 0) last = &iol;
+    else if(!trimmed.iol_next) last = &trimmed;
+    ssize_t sz = dill_mrecvl(self->u, &iol, last, deadline);
     if(dill_slow(sz < 0)) return -1;
     if(dill_slow(sz == self->len &&
           dill_slow(memcmp(self->buf, buf, self->len) == 0))) {
@@ -190,7 +195,8 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         errno = EPIPE;
         return -1;
     }
-    dill_iolto(buf, self->len, first);
+    rc = dill_iolto(buf, sz < self->len ? sz : self->len, first);
+    if(dill_slow(rc < 0)) {errno = EMSGSIZE; return -1;}
     return sz;
 }
 
-- 
2.43.0


From 1341317f851bcc562816a5913356d50febe477d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:03 +0000
Subject: [PATCH 38/63] fix: iolists are validated before they are used

---
 bsock.c | 10 ++++++----
 msock.c | 12 ++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/bsock.c b/bsock.c
index e659a0d..386b7eb 100644
--- a/bsock.c
+++ b/bsock.c
@@ -27,6 +27,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_bsock_type);
@@ -49,8 +50,9 @@ int dill_bsendl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow(!first || !last || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(!first)) {errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return b->bsendl(b, first, last, deadline);
 }
 
@@ -58,8 +60,8 @@ int dill_brecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow((first && !last) || (!first && last) || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return b->brecvl(b, first, last, deadline);
 }
 
diff --git a/msock.c b/msock.c
index c493bba..6f70af4 100644
--- a/msock.c
+++ b/msock.c
@@ -27,6 +27,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_msock_type);
@@ -49,8 +50,9 @@ int dill_msendl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
     if(dill_slow(!m)) return -1;
-    if(dill_slow(!first || !last || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(!first)) {errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return m->msendl(m, first, last, deadline);
 }
 
@@ -58,10 +60,8 @@ ssize_t dill_mrecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
     if(dill_slow(!m)) return -1;
-    if(dill_slow((last && last->iol_next) ||
-          (!first && last) ||
-          (first && !last))) {
-        errno = EINVAL; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     return m->mrecvl(m, first, last, deadline);
 }
 
-- 
2.43.0


From 39b2ec573669856c7c5a5399a3808fba72593977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 39/63] fix: term: a terminator that does not fit into the
 object is rejected

---
 term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.c b/term.c
index f9113f6..cd3198e 100644
--- a/term.c
+++ b/term.c
@@ -67,7 +67,7 @@ static void *dill_term_hquery(struct dill_hvfs *hvfs, const void *type) {
 int dill_term_attach_mem(int s, const void *buf, size_t len,
       struct dill_term_storage *mem) {
     int err;
-    if(dill_slow(!mem && len > DILL_MAX_TERMINATOR_LENGTH)) {
+    if(dill_slow(!mem || len > DILL_MAX_TERMINATOR_LENGTH)) {
         err = EINVAL; goto error;}
     if(dill_slow(len > 0 && !buf)) {err = EINVAL; goto error;}
     /* Take ownership of the underlying socket. */
-- 
2.43.0


From 49797ba81550ab02431d2984d1df0c4809ad71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 40/63] fix: udp: a datagram that does not fit into the buffer
 is reported

---
 udp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index a483829..addf606 100644
--- a/udp.c
+++ b/udp.c
@@ -181,12 +181,14 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     hdr.msg_iov = (struct iovec*)iov;
     hdr.msg_iovlen = niov;
     while(1) {
-        ssize_t sz = recvmsg(obj->fd, &hdr, 0);
+        ssize_t sz = recvmsg(obj->fd, &hdr, first ? 0 : MSG_TRUNC);
         if(sz >= 0) {
             /* If remote IP address is specified we'll silently drop all
                packets coming from different addresses. */
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
+            if(dill_slow(first && (hdr.msg_flags & MSG_TRUNC))) {
+                errno = EMSGSIZE; return -1;}
             if(addr) *addr = raddr;
             return sz;
         }
-- 
2.43.0


From 1a4a02614087b83a0bfb052d1c838c06e752bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 41/63] fix: udp: elements of an iolist without a buffer skip
 data

---
 udp.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/udp.c b/udp.c
index addf606..a9e308b 100644
--- a/udp.c
+++ b/udp.c
@@ -178,6 +178,17 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     if(dill_slow(rc < 0)) return -1;
     struct iovec iov[niov];
     dill_ioltoiov(first, iov);
+    /* Bytes to be skipped are received into a temporary buffer. No datagram
+       is larger than 64kB, so that limiting the size changes nothing. */
+    size_t i, skipsz = 1;
+    for(i = 0; i != niov; ++i) {
+        if(iov[i].iov_base) continue;
+        if(iov[i].iov_len > 65536) iov[i].iov_len = 65536;
+        if(iov[i].iov_len > skipsz) skipsz = iov[i].iov_len;
+    }
+    uint8_t skip[skipsz];
+    for(i = 0; i != niov; ++i)
+        if(!iov[i].iov_base) iov[i].iov_base = skip;
     hdr.msg_iov = (struct iovec*)iov;
     hdr.msg_iovlen = niov;
     while(1) {
-- 
2.43.0


From 3dcc61bdbbacd6ded729f7d0f6fc7b970232f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:39 +0000
Subject: [PATCH 42/63] fix: tls: iolists with elements without a buffer or of
 no length can be received

---
 tls.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tls.c b/tls.c
index e165d1c..bab8aa5 100644
--- a/tls.c
+++ b/tls.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <openssl/bio.h>
 #include <openssl/err.h>
 #include <openssl/ssl.h>
@@ -305,7 +306,8 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         size_t len = it->iol_len;
         while(len > 0) {
             ERR_clear_error();
-            int rc = SSL_write(self->ssl, base, len);
+            int rc = SSL_write(self->ssl, base,
+                len > INT_MAX ? INT_MAX : len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->outerr = 1;
@@ -327,21 +329,28 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     self->deadline = deadline;
+    /* If there's no iolist, skip all data until error occurs. */
+    struct dill_iolist all = {NULL, SIZE_MAX, NULL, 0};
+    if(!first) first = last = &all;
     struct dill_iolist *it = first;
     while(1) {
         uint8_t *base = it->iol_base;
         size_t len = it->iol_len;
-        while(1) {
+        while(len > 0) {
+            /* Bytes to be skipped are read into a temporary buffer. */
+            uint8_t skip[512];
+            size_t toread = len;
+            if(!base && toread > sizeof(skip)) toread = sizeof(skip);
+            if(toread > INT_MAX) toread = INT_MAX;
             ERR_clear_error();
-            int rc = SSL_read(self->ssl, base, len);
+            int rc = SSL_read(self->ssl, base ? base : skip, toread);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     if(errno == EPIPE) self->indone = 1;
                     else self->inerr = 1;
                     return -1;
                 }
-                if(rc == len) break;
-                base += rc;
+                if(base) base += rc;
                 len -= rc;
             }
         }
-- 
2.43.0


From dccf373a07a2e4a0500f3008cd13439b78d8ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:21 +0000
Subject: [PATCH 43/63] fix: ws: make room for the longest frame header

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 548940f..22bf7db 100644
--- a/ws.c
+++ b/ws.c
@@ -331,7 +331,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
-    uint8_t buf[12];
+    uint8_t buf[14];
     size_t sz;
     buf[0] = 0x80 | type;
     if(len > 0xffff) {
-- 
2.43.0


From 4c7072490344985d3cf6ea94c64d53eae4a1eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 44/63] fix: ws: fragments of a message are received one after
 the other

---
 ws.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 22bf7db..2fe5324 100644
--- a/ws.c
+++ b/ws.c
@@ -447,16 +447,20 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) goto error;
         }
         /* Frame may be read into multiple iolist elements. */
+        size_t pos = 0;
         while(1) {
             size_t toread = sz < it.iol_len ? sz : it.iol_len;
             if(toread > 0) {
                 rc = dill_brecv(self->u, it.iol_base, toread, deadline);
                 if(dill_slow(rc < 0)) goto error;
-                if(self->server) {
+                if(self->server && it.iol_base) {
                     size_t i;
                     for(i = 0; i != toread; ++i)
-                        ((uint8_t*)it.iol_base)[i] ^= mask[i % 4];
+                        ((uint8_t*)it.iol_base)[i] ^= mask[(pos + i) % 4];
                 }
+                pos += toread;
+                if(it.iol_base) it.iol_base = ((uint8_t*)it.iol_base) + toread;
+                it.iol_len -= toread;
             }
             sz -= toread;
             if(sz == 0) break;
-- 
2.43.0


From ab30885ba618eabb03cc620b73acffbb41107383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 45/63] fix: ws: a message can be received without an iolist

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 2fe5324..5e4ab45 100644
--- a/ws.c
+++ b/ws.c
@@ -389,7 +389,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     size_t res = 0;
     int closing = 0;
     /* Message may consist of multiple frames. Read them one by one. */
-    struct dill_iolist it;
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
     while(1) {
         struct dill_iolist iol_msg;
-- 
2.43.0


From 4d6e0c911ab0963d96268f99c29b6938d22711de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 46/63] fix: ws: frames out of sequence are protocol errors

---
 ws.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 5e4ab45..5bdfd5c 100644
--- a/ws.c
+++ b/ws.c
@@ -388,6 +388,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
     int closing = 0;
+    int started = 0;
     /* Message may consist of multiple frames. Read them one by one. */
     struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
@@ -401,14 +402,17 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         /* TODO: Other opcodes. */
         switch(opcode) {
         case 0:
+            if(dill_slow(!started)) {errno = EPROTO; goto error;}
             break;
         case 1:
-            if(flags) *flags = DILL_WS_TEXT;
-            break;
         case 2:
-            if(flags) *flags = DILL_WS_BINARY;
+            if(dill_slow(started)) {errno = EPROTO; goto error;}
+            started = 1;
+            if(flags) *flags = opcode == 1 ? DILL_WS_TEXT : DILL_WS_BINARY;
             break;
         case 8:
+            /* Fragments of an unfinished message don't belong to the frame. */
+            res = 0;
             it.iol_base = &self->status;
             it.iol_len = 2;
             it.iol_next = &iol_msg;
-- 
2.43.0


From 5840d89b46615302c4d93f7d2f83b3de69138f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 47/63] fix: ws: lengths with the most significant bit set are
 protocol errors

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 5bdfd5c..5c5affb 100644
--- a/ws.c
+++ b/ws.c
@@ -441,6 +441,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) goto error;
             sz = dill_getll(hdr2);
         }
+        if(dill_slow(sz > SIZE_MAX / 2 - res)) {errno = EPROTO; goto error;}
         res += sz;
         /* Control frames cannot be fragmented or longer than 125 bytes. */
         if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80)))) {
-- 
2.43.0


From ca4755c45bab40d55c7f0231769e9a0b1bc394cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 48/63] fix: ws: sending without an iolist fails before any
 output

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index 5c5affb..3445ab4 100644
--- a/ws.c
+++ b/ws.c
@@ -328,6 +328,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
+    if(dill_slow(!first)) {errno = EINVAL; return -1;}
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
-- 
2.43.0


From 4b6671338a9232bf2702e77226953b5373eac8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 49/63] fix: ws: a close frame never exceeds the limits of
 control frames

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 3445ab4..ec90fd7 100644
--- a/ws.c
+++ b/ws.c
@@ -548,7 +548,8 @@ static ssize_t dill_ws_mrecvl(struct dill_msock_vfs *mvfs,
 int dill_ws_done(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
     if(dill_slow((status != 0 && (status < 1000 || status > 4999)) ||
-        (!buf && len > 0))) {errno = EINVAL; return -1;}
+        (!buf && len > 0) || len > (status ? 123 : 0))) {
+        errno = EINVAL; return -1;}
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-- 
2.43.0


From 18eb53618751247d86396a7cace696b79e5fab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:07 +0000
Subject: [PATCH 50/63] fix: http: the protocol version is checked

---
 http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http.c b/http.c
index 3f4c369..833c947 100644
--- a/http.c
+++ b/http.c
@@ -179,7 +179,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     /* Protocol. */
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -228,7 +228,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From 8a967491b612b057f1b4ff3c2e898befc42ab4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 51/63] fix: http: a buffer of no length receives nothing

---
 http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/http.c b/http.c
index 833c947..7154347 100644
--- a/http.c
+++ b/http.c
@@ -164,7 +164,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > commandlen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= commandlen)) {errno = EMSGSIZE; return -1;}
     memcpy(command, obj->rxbuf + start, pos - start);
     command[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -172,7 +172,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > resourcelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= resourcelen)) {errno = EMSGSIZE; return -1;}
     memcpy(resource, obj->rxbuf + start, pos - start);
     resource[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -246,7 +246,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
         (obj->rxbuf[start + 2] - '0');
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Reason. */
-    if(sz - pos > reasonlen - 1) {errno = EMSGSIZE; return -1;}
+    if(sz - pos >= reasonlen) {errno = EMSGSIZE; return -1;}
     memcpy(reason, obj->rxbuf + pos, sz - pos);
     reason[sz - pos] = 0;
     return status;
@@ -296,7 +296,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ':')
         ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > namelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -306,7 +306,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     /* Value. */
     start = pos;
     pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
-    if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From cf833b15a267eef202c31b9a31f04b5d945644b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:37 +0000
Subject: [PATCH 52/63] fix: http: a field of nothing but spaces is rejected

---
 http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 7154347..94a5163 100644
--- a/http.c
+++ b/http.c
@@ -271,7 +271,7 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     iol[1].iol_rsvd = 0;
     const char *start = dill_lstrip(value, ' ');
     const char *end = dill_rstrip(start, ' ');
-    dill_assert(start < end);
+    if(dill_slow(start >= end)) {errno = EPROTO; return -1;}
     iol[2].iol_base = (void*)start;
     iol[2].iol_len = end - start;
     iol[2].iol_next = NULL;
-- 
2.43.0


From e709928407a1d90249cfa7efc9cee08e7e886ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 53/63] fix: ipaddr: failures of the resolver are reported

---
 ipaddr.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 996a42a..6cf8b60 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -317,6 +317,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
         errno = EINVAL;
         return -1;
     }
+    if(dill_slow(port < 0 || port > 0xffff)) {errno = EINVAL; return -1;}
     /* Name may be a IP address literal. */
     memset(addrs, 0, sizeof(struct dill_ipaddr));
     int rc = dill_ipaddr_literal(addrs, name, port, mode);
@@ -360,12 +361,9 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
         dill_dns_hosts, dill_dns_hints, NULL, dns_opts(), &rc);
     if(!resolver) {
-        if(errno == ENFILE || errno == EMFILE) {
-            return -1;
-        }
-        dill_assert(resolver);
+        errno = rc >= DNS_EBASE && rc <= DNS_ELAST ? EINVAL : rc;
+        return -1;
     }
-    dill_assert(port >= 0 && port <= 0xffff);
     char portstr[8];
     snprintf(portstr, sizeof(portstr), "%d", port);
     struct addrinfo hints;
@@ -374,8 +372,11 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     struct dns_addrinfo *ai = dns_ai_open(name, portstr,
         mode == DILL_IPADDR_IPV4 ? DNS_T_A : DNS_T_AAAA, &hints,
         resolver, &rc);
-    dill_assert(ai);
     dns_res_close(resolver);
+    if(dill_slow(!ai)) {
+        errno = rc >= DNS_EBASE && rc <= DNS_ELAST ? EINVAL : rc;
+        return -1;
+    }
     /* Wait for the results. */
     int nresults = 0;
     struct addrinfo *it = NULL;
@@ -400,6 +401,11 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             continue;
         }
         if(rc == ENOENT || (rc >= DNS_EBASE && rc <= DNS_ELAST)) break;
+        if(dill_slow(rc != 0)) {
+            dns_ai_close(ai);
+            errno = rc;
+            return -1;
+        }
         if(naddrs && mode == DILL_IPADDR_IPV4 && it->ai_family == AF_INET) {
             struct sockaddr_in *inaddr = (struct sockaddr_in*)addrs;
             memcpy(inaddr, it->ai_addr, sizeof (struct sockaddr_in));
-- 
2.43.0


From f619e051d4dbc40f9af799e3b733c27476704d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 54/63] fix: dns: compound literals outlive the expression that
 makes them

---
 dns/dns.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dns/dns.h b/dns/dns.h
index dc88ab5..8c42085 100644
--- a/dns/dns.h
+++ b/dns/dns.h
@@ -149,9 +149,8 @@ extern int dns_debug;
 #define DNS_PRAGMA_QUIET _Pragma("GCC diagnostic ignored \"-Woverride-init\"")
 #define DNS_PRAGMA_POP _Pragma("GCC diagnostic pop")
 
-/* GCC parses the _Pragma operator less elegantly than clang. */
-#define dns_quietinit(...) \
-	__extension__ ({ DNS_PRAGMA_PUSH DNS_PRAGMA_QUIET __VA_ARGS__; DNS_PRAGMA_POP })
+/* A statement expression would end the lifetime of the compound literal. */
+#define dns_quietinit(...) __VA_ARGS__
 #else
 #define DNS_PRAGMA_PUSH
 #define DNS_PRAGMA_QUIET
-- 
2.43.0


From 8cf969a12b7d498ca24589584ca4155cd73c80d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 55/63] fix: base64: characters index the table as unsigned

---
 utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.c b/utils.c
index ca7ac08..446de0c 100644
--- a/utils.c
+++ b/utils.c
@@ -179,11 +179,11 @@ int dill_base64_decode(const char *in, size_t in_len, uint8_t *out,
         0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF};
 
     for(io = 0, ii = 0, v = 0, rem = 0; ii < in_len; ii++) {
-        if(isspace(in[ii]))
+        if(isspace((uint8_t)in[ii]))
             continue;
         if(in[ii] == '=')
             break;
-        ch = DECODEMAP[(int)(in[ii])];
+        ch = DECODEMAP[(uint8_t)in[ii]];
         /*  Discard invalid characters as per RFC 2045. */
         if(ch == 0xFF)
             break; 
-- 
2.43.0


From 19a4f7e214139f78d2e471eb1f4f97af351820fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 56/63] fix: socks5: room for the longest name and password

---
 socks5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socks5.c b/socks5.c
index ac04dfa..3e4ed96 100644
--- a/socks5.c
+++ b/socks5.c
@@ -107,7 +107,7 @@ static int s5_client_auth(int s, const char *username, const char *password,
             dill_assert(!!password);
             // USER/PASS AUTH - per RFC 1929
             // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN)
-            uint8_t upauth[513];
+            uint8_t upauth[514];
             // previously range checked, safe to cast to uint8_t
             uint8_t ulen = (uint8_t)strlen(username);
             uint8_t plen = (uint8_t)strlen(password);
-- 
2.43.0


From 78c9230059b6f5a6123459edc797dec07c5d43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:02 +0000
Subject: [PATCH 57/63] fix: socks5: an authentication method not offered is a
 protocol error

---
 socks5.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/socks5.c b/socks5.c
index 3e4ed96..7de23bb 100644
--- a/socks5.c
+++ b/socks5.c
@@ -103,8 +103,7 @@ static int s5_client_auth(int s, const char *username, const char *password,
             // proxy accepted NO AUTH REQ'D, so we're done
             return 0;
         case S5METH_USERPASS:
-            dill_assert(!!username);
-            dill_assert(!!password);
+            if(dill_slow(!username || !password)) {errno = EPROTO; return -1;}
             // USER/PASS AUTH - per RFC 1929
             // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN)
             uint8_t upauth[514];
@@ -128,7 +127,7 @@ static int s5_client_auth(int s, const char *username, const char *password,
             errno = EACCES; return -1;
         default:
             // something is fishy as the proxy accepted something not requested
-            dill_assert(0);
+            errno = EPROTO; return -1;
     }
     return -1;
 }
-- 
2.43.0


From 115e833b37a94c22b23cb2dfa1aadb118d2bb52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:50 +0000
Subject: [PATCH 58/63] fix: ipaddr: interfaces with several addresses of a
 family

---
 ipaddr.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 6cf8b60..a3c6d11 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -171,7 +171,8 @@ static int dill_ipaddr_literal(struct dill_ipaddr *addr, const char *name, int p
             return 0;
         return dill_ipaddr_ipv4_literal(addr, name, port);
     default:
-        dill_assert(0);
+        errno = EINVAL;
+        return -1;
     }
 }
 
@@ -228,8 +229,7 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
     /* Address is not a literal. It must be an interface name then. */
     struct ifaddrs *ifaces = NULL;
     rc = getifaddrs (&ifaces);
-    dill_assert (rc == 0);
-    dill_assert (ifaces);
+    if(dill_slow(rc != 0)) return -1;
     /*  Find first IPv4 and first IPv6 address. */
     struct ifaddrs *ipv4 = NULL;
     struct ifaddrs *ipv6 = NULL;
@@ -241,12 +241,10 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
             continue;
         switch(it->ifa_addr->sa_family) {
         case AF_INET:
-            dill_assert(!ipv4);
-            ipv4 = it;
+            if(!ipv4) ipv4 = it;
             break;
         case AF_INET6:
-            dill_assert(!ipv6);
-            ipv6 = it;
+            if(!ipv6) ipv6 = it;
             break;
         }
         if(ipv4 && ipv6)
@@ -270,7 +268,9 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
            ipv4 = NULL;
         break;
     default:
-        dill_assert(0);
+        freeifaddrs(ifaces);
+        errno = EINVAL;
+        return -1;
     }
     if(ipv4) {
         struct sockaddr_in *inaddr = (struct sockaddr_in*)addr;
-- 
2.43.0


From 635bcfd69acdc37ce1f7833b6edc6b04fd2b8ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 59/63] fix: ipc: a listener needs memory to live in

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index 454f7ed..3b6007f 100644
--- a/ipc.c
+++ b/ipc.c
@@ -429,6 +429,7 @@ error1:
 int dill_ipc_listen_mem(const char *addr, int backlog,
       struct dill_ipc_listener_storage *mem) {
     int err;
+    if(dill_slow(!mem)) {err = EINVAL; goto error1;}
     /* Create a UNIX address out of the address string. */
     struct sockaddr_un su;
     int rc = dill_ipc_resolve(addr, &su);
-- 
2.43.0


From e62e73a9492e43b6ed4c377968e5d061a4b949b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:08 +0000
Subject: [PATCH 60/63] fix: http: blanks after a field's value are not part of
 it

---
 http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 94a5163..c73c7b4 100644
--- a/http.c
+++ b/http.c
@@ -305,7 +305,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Value. */
     start = pos;
-    pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
+    pos = dill_rstrip(obj->rxbuf + start, ' ') - obj->rxbuf;
     if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
-- 
2.43.0


From bad7065ca7f0804a0fc4a5a6988bca8b29fdf563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 61/63] fix: ipc: surplus descriptors a peer sends are closed

---
 ipc.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipc.c b/ipc.c
index 3b6007f..0f11956 100644
--- a/ipc.c
+++ b/ipc.c
@@ -284,13 +284,19 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
         if(errno == ECONNRESET) self->inerr = 1;
         return -1;
     }
-    /* Loop over the auxiliary data to find the embedded file descriptor. */
+    /* Loop over the auxiliary data to find the embedded file descriptor.
+       If the peer has sent more of them, they are closed. */
     int fd = -1;
     struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg);
     while(cmsg) {
         if (cmsg->cmsg_level == SOL_SOCKET && cmsg->cmsg_type  == SCM_RIGHTS) {
-            fd = *(int*)CMSG_DATA(cmsg);
-            break;
+            int *fds = (int*)CMSG_DATA(cmsg);
+            size_t nfds = (cmsg->cmsg_len - CMSG_LEN(0)) / sizeof(int);
+            size_t i;
+            for(i = 0; i != nfds; ++i) {
+                if(fd < 0) {fd = fds[i]; continue;}
+                close(fds[i]);
+            }
         }
         cmsg = CMSG_NXTHDR(&msg, cmsg);
     }
-- 
2.43.0


From 7bacede9264a43e74eca3e59e5a7aca28a05555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 62/63] fix: ipaddr: a bad port or mode is refused whatever the
 name is

---
 ipaddr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipaddr.c b/ipaddr.c
index a3c6d11..6b16c55 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -217,6 +217,11 @@ const char *dill_ipaddr_str(const struct dill_ipaddr *addr, char *ipstr) {
 int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
       int mode) {
     if(mode == 0) mode = DILL_IPADDR_PREF_IPV4;
+    if(dill_slow(mode < DILL_IPADDR_IPV4 || mode > DILL_IPADDR_PREF_IPV6 ||
+          port < 0 || port > 0xffff)) {
+        errno = EINVAL;
+        return -1;
+    }
     memset(addr, 0, sizeof(struct dill_ipaddr));
     if(!name) 
         return dill_ipaddr_ipany(addr, port, mode);
-- 
2.43.0


From 3583b05dd1015a3afe44977dc031f9ea979aa35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:53 +0000
Subject: [PATCH 63/63] fix: happyeyeballs: 300 ms between attempts however
 late the addresses come

---
 happyeyeballs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 9fedfb3..e5066fd 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -107,20 +107,20 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     int64_t nw;
     if(dill_fast(rc == 0)) {
         idx = 0;
-        nw = dill_now();
         goto use_address;
     }
     dill_assert(errno == ETIMEDOUT);
     /* From now we can use any address. */
     while(1) {
-        nw = dill_now();
         idx = dill_choose(cls, 2, -1);
         if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(idx >= 0 && errno == 0);
 use_address:
         /* Ignore 0.0.0.0 addresses. */
         if(dill_ipaddr_equal(&addr, &nulladdr, 0)) continue;
-        /* Launch the connect attempt. */
+        /* Launch the connect attempt. The time is taken here, not before
+           waiting for the address, which may have taken long. */
+        nw = dill_now();
         rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch));
         if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(rc == 0);
-- 
2.43.0


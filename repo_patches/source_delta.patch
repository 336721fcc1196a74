From dbaac67f7d42fa968fc5d06ffdb84b19daad6233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:33 +0000
Subject: [PATCH 01/57] fix: do not convert the session of an unlinked client

A suspended client whose console was stolen is unlinked but remains open
until it resumes.  If it then sent a force/join/monitor escape, the (now
empty) writers list yielded a NULL console that was dereferenced, crashing
the daemon.
---
 src/server-esc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index cee005e..c308329 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -236,6 +236,12 @@ static void perform_console_writer_linkage(obj_t *client)
         return;
     assert(list_count(client->readers) <= 1);
 
+    /*  A client that has been unlinked from its console (eg, stolen) but not
+     *    yet closed no longer has a session to convert.
+     */
+    if (list_is_empty(client->writers))
+        return;
+
     /*  A R/O or R/W client will have exactly one console writer.
      */
     assert(list_count(client->writers) == 1);
-- 
2.43.0


From 09206318081417d840b1c4f258a981881bb0eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:33 +0000
Subject: [PATCH 02/57] fix: remove suspended clients that close their
 connection

When a suspended client with buffered output closed its connection, POLLIN
was cleared while POLLOUT was disabled by the suspend.  No further event
could occur for the client, so its console remained in use until stolen.
---
 src/server-obj.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index a7a6cda..c634250 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -921,6 +921,13 @@ again:
         obj->gotEOF = 1;
         tpoll_clear(tp_global, obj->fd, POLLIN);
         isEmpty = (obj->bufInPtr == obj->bufOutPtr);
+        /*
+         *  A suspended client that has closed its connection will never
+         *    resume, so do not wait for its buffer to be drained.
+         */
+        if (is_client_obj(obj) && obj->aux.client.gotSuspend) {
+            isEmpty = 1;
+        }
         return(isEmpty ? shutdown_obj(obj) : 0);
     }
     else {
-- 
2.43.0


From 190ecc7795b85bae092d8e18d8146db5478a4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 03/57] fix: disconnect stolen clients that have no pending
 output

Stealing a console unlinks its writers and relies on their buffers being
drained in order to close them.  A client in quiet-mode has nothing to be
drained, so it was never closed: its connection lingered with no console.
---
 src/server-obj.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index c634250..d8a0b2a 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -56,6 +56,7 @@ extern tpoll_t tp_global;               /* defined in server.c */
 
 static char * sanitize_file_string(char *str);
 static char * find_trailing_int_str(char *str);
+static void set_client_eof(obj_t *client);
 #ifndef NDEBUG
 static int validate_obj_links(obj_t *obj);
 #endif /* !NDEBUG */
@@ -680,6 +681,21 @@ void link_objs(obj_t *src, obj_t *dst)
 }
 
 
+static void set_client_eof(obj_t *client)
+{
+/*  Sets the EOF flag of a (client) that has become completely unlinked.
+ *  The client will be closed by write_to_obj() once its buffer is empty.
+ *    Ensure this happens even if there is no data left to be written,
+ *    unless the client is currently suspended.
+ */
+    client->gotEOF = 1;
+    if ((client->fd >= 0) && !client->aux.client.gotSuspend) {
+        tpoll_set(tp_global, client->fd, POLLOUT);
+    }
+    return;
+}
+
+
 void unlink_objs(obj_t *src, obj_t *dst)
 {
 /*  Destroys the link allowing data read from (src) to be written to (dst)
@@ -724,12 +740,12 @@ void unlink_objs(obj_t *src, obj_t *dst)
     if (is_client_obj(src)
             && list_is_empty(src->readers) && list_is_empty(src->writers)) {
         assert(is_console_obj(dst));
-        src->gotEOF = 1;
+        set_client_eof(src);
     }
     else if (is_client_obj(dst)
             && list_is_empty(dst->readers) && list_is_empty(dst->writers)) {
         assert(is_console_obj(src));
-        dst->gotEOF = 1;
+        set_client_eof(dst);
     }
 
     DPRINTF((10, "Unlinked [%s] reads from [%s] writes.\n",
-- 
2.43.0


From 0ac92c8bb56b31181f637ff3072cda3f3867ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 04/57] fix: survive client disconnecting before its address is
 looked up

getpeername() fails with ENOTCONN if the peer resets the connection right
after it has been accepted.  This was treated as a fatal error, allowing
any such client to terminate the daemon.
---
 src/server-sock.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index a5a9c6c..5b3b797 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -171,8 +171,11 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
     assert(sd >= 0);
 
     req->sd = sd;
-    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0)
-        log_err(errno, "Unable to get address of remote peer");
+    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0) {
+        log_msg(LOG_INFO, "Unable to get address of remote peer: %s",
+            strerror(errno));
+        return(-1);
+    }
     if (!inet_ntop(AF_INET, &addr.sin_addr, buf, sizeof(buf)))
         log_err(errno, "Unable to convert network address into string");
     req->port = ntohs(addr.sin_port);
-- 
2.43.0


From d796de6bdb50485c7d19ffa67558ff8f3851ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 05/57] fix: do not terminate the daemon when accept() fails

Running out of descriptors or memory, or a network error pending on a new
connection (cf. accept(2)), affects that connection attempt only.  Pause
before accepting again instead of exiting.
---
 src/server.c | 24 +++++++++++++++++++++++-
 src/server.h |  2 ++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 6b91370..dea776b 100644
--- a/src/server.c
+++ b/src/server.c
@@ -72,6 +72,7 @@ static void mux_io(server_conf_t *conf);
 static void open_daemon_logfile(server_conf_t *conf);
 static void reopen_logfiles(server_conf_t *conf);
 static void accept_client(server_conf_t *conf);
+static void resume_accept(server_conf_t *conf);
 
 /*  Signal handler flags and whatnot.
  */
@@ -982,7 +983,18 @@ static void accept_client(server_conf_t *conf)
         if (errno == ECONNABORTED) {
             return;
         }
-        log_err(errno, "Unable to accept new connection");
+        log_msg(LOG_WARNING, "Unable to accept new connection: %s",
+            strerror(errno));
+        /*
+         *  The pending connection remains readable on the listen socket.
+         *    Pause before retrying so as not to spin on a lack of resources.
+         */
+        tpoll_clear(conf->tp, conf->ld, POLLIN);
+        if (tpoll_timeout_relative(conf->tp,
+                (callback_f) resume_accept, conf, ACCEPT_RETRY_MSECS) < 0) {
+            tpoll_set(conf->tp, conf->ld, POLLIN);
+        }
+        return;
     }
     DPRINTF((5, "Accepted new client on fd=%d.\n", sd));
 
@@ -1016,3 +1028,13 @@ static void accept_client(server_conf_t *conf)
     }
     return;
 }
+
+
+static void resume_accept(server_conf_t *conf)
+{
+/*  Timer callback to resume accepting new client connections
+ *    after accept() has failed.
+ */
+    tpoll_set(conf->tp, conf->ld, POLLIN);
+    return;
+}
diff --git a/src/server.h b/src/server.h
index 44c513c..084e88c 100644
--- a/src/server.h
+++ b/src/server.h
@@ -69,6 +69,8 @@
 #define PROCESS_MAX_TIMEOUT             1800
 #define PROCESS_MIN_TIMEOUT             60
 
+#define ACCEPT_RETRY_MSECS              1000
+
 #define RESET_CMD_TIMEOUT               60
 
 #define RESOLVE_RETRY_TIMEOUT           1800
-- 
2.43.0


From 88b760ff967c4d3987ee4c540c2e67f4ef042939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 06/57] fix: do not terminate the daemon when a client cannot
 be set up

Failing to set a socket option or to create a thread for a new client (eg,
at the limit on the number of threads) is not a reason to drop all others.
Refuse that client instead.
---
 src/server.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index dea776b..b50f05d 100644
--- a/src/server.c
+++ b/src/server.c
@@ -1010,7 +1010,8 @@ static void accept_client(server_conf_t *conf)
     if (conf->enableKeepAlive) {
         if (setsockopt(sd, SOL_SOCKET, SO_KEEPALIVE,
           (const void *) &on, sizeof(on)) < 0) {
-            log_err(errno, "Unable to set KEEPALIVE socket option");
+            log_msg(LOG_WARNING, "Unable to set KEEPALIVE socket option: %s",
+                strerror(errno));
         }
     }
     /*  Create a tmp struct to hold two args to pass to the thread.
@@ -1024,7 +1025,9 @@ static void accept_client(server_conf_t *conf)
 
     if ((rc = pthread_create(&tid, NULL,
       (PthreadFunc) process_client, args)) != 0) {
-        log_err(rc, "Unable to create new thread");
+        log_msg(LOG_WARNING, "Unable to create new thread: %s", strerror(rc));
+        free(args);
+        (void) close(sd);
     }
     return;
 }
-- 
2.43.0


From c3692325e6889560b6ed1809751f240071ab2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 07/57] fix: close new client sockets on exec

A socket accepted from a client did not have its close-on-exec flag set
until the client's request had been processed.  A process console or reset
command started in the meantime inherited the descriptor, and kept the
connection open for as long as it ran.
---
 src/server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.c b/src/server.c
index b50f05d..e623cf0 100644
--- a/src/server.c
+++ b/src/server.c
@@ -1006,6 +1006,7 @@ static void accept_client(server_conf_t *conf)
      *  Consequently, we force the new fd to be blocking here for portability.
      */
     set_fd_blocking(sd);
+    set_fd_closed_on_exec(sd);
 
     if (conf->enableKeepAlive) {
         if (setsockopt(sd, SOL_SOCKET, SO_KEEPALIVE,
-- 
2.43.0


From 1f940948f60857c3a361769c1508eeb1c3236540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 08/57] fix: retry telnet consoles that fail to create a socket

A lack of descriptors when (re)connecting to one terminal server caused the
daemon to exit.  Schedule another attempt as for any other failure.
---
 src/server-telnet.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index fb66864..769595a 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -204,16 +204,22 @@ static int connect_telnet_obj(obj_t *telnet)
             return(-1);
         }
         if ((telnet->fd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
-            log_err(errno, "Unable to create socket for [%s]", telnet->name);
+            log_msg(LOG_WARNING, "Unable to create socket for [%s]: %s",
+                telnet->name, strerror(errno));
+            disconnect_telnet_obj(telnet);
+            return(-1);
         }
         if (setsockopt(telnet->fd, SOL_SOCKET, SO_OOBINLINE,
                 (const void *) &on, sizeof(on)) < 0) {
-            log_err(errno, "Unable to set OOBINLINE socket option");
+            log_msg(LOG_WARNING, "Unable to set OOBINLINE socket option: %s",
+                strerror(errno));
         }
         if (telnet->aux.telnet.enableKeepAlive) {
             if (setsockopt(telnet->fd, SOL_SOCKET, SO_KEEPALIVE,
                     (const void *) &on, sizeof(on)) < 0) {
-                log_err(errno, "Unable to set KEEPALIVE socket option");
+                log_msg(LOG_WARNING,
+                    "Unable to set KEEPALIVE socket option: %s",
+                    strerror(errno));
             }
         }
         set_fd_nonblocking(telnet->fd);
-- 
2.43.0


From 0d504360572acc3ad78a91fde79fca30896375a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 09/57] fix: reset telnet escape state for each connection

If a connection was lost within an escape sequence, the first byte(s)
received on the next connection were taken to be the remainder of it.
---
 src/server-telnet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 769595a..18443d2 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -271,6 +271,7 @@ static int connect_telnet_obj(obj_t *telnet)
             telnet->aux.telnet.state);
     }
     telnet->gotEOF = 0;
+    telnet->aux.telnet.iac = -1;
     telnet->aux.telnet.state = CONMAN_TELNET_UP;
     tpoll_set(tp_global, telnet->fd, POLLIN);
 
-- 
2.43.0


From c82c969355ec74abe0ea1917504bfc0392b16030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 10/57] fix: ignore escaped IAC within telnet subnegotiation

The IAC IAC sequence was taken as the end of a subnegotiation, so its
remaining bytes were output as console data.
---
 src/server-telnet.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 18443d2..ddc7b62 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -431,11 +431,17 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
         case SB:
             /*
              *  Ignore subnegotiation opts.  Consume bytes until IAC SE.
-             *    Remain in the SB state until an IAC is found; then reset
-             *    the state to IAC assuming the next byte will be the SE cmd.
+             *    Remain in the SB state until an IAC is found; then switch to
+             *    the SE state to check if the next byte is the SE cmd.
              */
             if (*p == IAC)
-                telnet->aux.telnet.iac = *p;
+                telnet->aux.telnet.iac = SE;
+            break;
+        case SE:
+            /*
+             *  An IAC within a subnegotiation is escaped by another IAC.
+             */
+            telnet->aux.telnet.iac = (*p == SE) ? -1 : SB;
             break;
         default:
             log_err(0, "Reached invalid state %#.2x%.2x for console [%s]",
-- 
2.43.0


From b1f64a67d6f8122e8e4ff70762aca98a7cadac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 11/57] fix: escape IAC in data written to telnet consoles

A client byte of 255 was sent as a lone IAC, so the terminal server took it
and the following byte to be a telnet command.
---
 src/server-obj.c    |  3 +++
 src/server-telnet.c | 29 +++++++++++++++++++++++++++++
 src/server.h        |  2 ++
 3 files changed, 34 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index d8a0b2a..cb724d3 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -970,6 +970,9 @@ again:
                 if (is_logfile_obj(reader)) {
                     write_log_data(reader, buf, n);
                 }
+                else if (is_telnet_obj(reader)) {
+                    write_telnet_data(reader, buf, n);
+                }
                 else {
                     write_obj_data(reader, buf, n, 0);
                 }
diff --git a/src/server-telnet.c b/src/server-telnet.c
index ddc7b62..8ea1041 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -457,6 +457,35 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
 }
 
 
+int write_telnet_data(obj_t *telnet, const void *src, int len)
+{
+/*  Writes the data (src) of length (len) into the telnet obj's buffer,
+ *    escaping each IAC so it is not interpreted as a telnet command.
+ *  Returns the number of bytes written.
+ */
+    const unsigned char *p = src;
+    const unsigned char *last = p + len;
+    unsigned char buf[OBJ_BUF_SIZE - 1];
+    unsigned char *q = buf;
+    int n = 0;
+
+    assert(is_telnet_obj(telnet));
+
+    while (p < last) {
+        if (q > &buf[sizeof(buf)] - 2) {
+            n += write_obj_data(telnet, buf, q - buf, 0);
+            q = buf;
+        }
+        if (*p == IAC) {
+            *q++ = IAC;
+        }
+        *q++ = *p++;
+    }
+    n += write_obj_data(telnet, buf, q - buf, 0);
+    return(n);
+}
+
+
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt)
 {
 /*  Sends the given telnet (cmd) and (opt) to the (telnet) console;
diff --git a/src/server.h b/src/server.h
index 084e88c..98d5682 100644
--- a/src/server.h
+++ b/src/server.h
@@ -505,6 +505,8 @@ int open_telnet_obj(obj_t *telnet);
 
 int process_telnet_escapes(obj_t *telnet, void *src, int len);
 
+int write_telnet_data(obj_t *telnet, const void *src, int len);
+
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt);
 
 
-- 
2.43.0


From c8a6e5e98bbfc03026b119f55ad4239b3436e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 12/57] fix: do not use objects concurrently destroyed by the
 main loop

A client thread added its client object to the master list before linking
it to its consoles.  If the client disconnected meanwhile, mux_io() destroyed
the object while it was still being linked and logged, corrupting memory;
and input received before the link was complete was discarded.  Similarly,
the objects traversed when matching consoles or describing the writers of a
busy console could be destroyed at the same time.

Add a lock that is held by mux_io() except while waiting for events, and
publish a client object once it has been linked.
---
 src/server-conf.c |   2 +
 src/server-obj.c  |  34 +++++++++++----
 src/server-sock.c | 103 ++++++++++++++++++++++++++++------------------
 src/server.c      |   9 ++++
 src/server.h      |   3 ++
 5 files changed, 102 insertions(+), 49 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index d836f8d..bc7ea69 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -48,6 +48,7 @@
 #include "util-file.h"
 #include "util-str.h"
 #include "util.h"
+#include "wrapper.h"
 
 
 enum server_conf_toks {
@@ -231,6 +232,7 @@ server_conf_t * create_server_conf(void)
     conf->port = -1;
     conf->ld = -1;
     conf->objs = list_create((ListDelF) destroy_obj);
+    x_pthread_mutex_init(&conf->objsLock, NULL);
     if (!(conf->tp = tpoll_create(0))) {
         log_err(0, "Unable to create object for multiplexing I/O");
     }
diff --git a/src/server-obj.c b/src/server-obj.c
index cb724d3..30ae5c9 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -102,8 +102,10 @@ obj_t * create_obj(
 
 obj_t * create_client_obj(server_conf_t *conf, req_t *req)
 {
-/*  Creates a new client object and adds it to the master objs list.
- *    Note: the socket is open and set for non-blocking I/O.
+/*  Creates a new client object.
+ *  Note: the object is not added to the master objs list, nor is its socket
+ *    used, until open_client_obj() is called.  This allows it to be linked
+ *    without mux_io() performing I/O on (or destroying) it in the meantime.
  *  Returns the new object.
  */
     char name[MAX_LINE];
@@ -115,27 +117,43 @@ obj_t * create_client_obj(server_conf_t *conf, req_t *req)
     assert((req->user != NULL) && (req->user[0] != '\0'));
     assert((req->host != NULL) && (req->host[0] != '\0'));
 
-    set_fd_nonblocking(req->sd);
-    set_fd_closed_on_exec(req->sd);
-    tpoll_set(tp_global, req->sd, POLLIN);
-
     snprintf(name, sizeof(name), "%s@%s:%d", req->user, req->host, req->port);
     name[sizeof(name) - 1] = '\0';
-    client = create_obj(conf, name, req->sd, CONMAN_OBJ_CLIENT);
+    client = create_obj(conf, name, -1, CONMAN_OBJ_CLIENT);
     client->aux.client.req = req;
     time(&client->aux.client.timeLastRead);
     if (client->aux.client.timeLastRead == (time_t) -1)
         log_err(errno, "time() failed");
     client->aux.client.gotEscape = 0;
     client->aux.client.gotSuspend = 0;
+    return(client);
+}
+
+
+void open_client_obj(server_conf_t *conf, obj_t *client)
+{
+/*  Opens the (client) object on its request's socket and adds it to the
+ *    master objs list.  It must not be used by the caller after releasing
+ *    the conf->objsLock since it can then be destroyed by mux_io().
+ *  Note: the socket is open and set for non-blocking I/O.
+ */
+    req_t *req;
+
+    assert(conf != NULL);
+    assert(is_client_obj(client));
+
+    req = client->aux.client.req;
+    set_fd_nonblocking(req->sd);
+    client->fd = req->sd;
 
     /*  Add obj to the master conf->objs list.
      */
     list_append(conf->objs, client);
+    tpoll_set(tp_global, client->fd, POLLIN | POLLOUT);
 
     DPRINTF((9, "Opened client: fd=%d user=%s tty=%s host=%s port=%d.\n",
         req->sd, req->user, req->tty, req->host, req->port));
-    return(client);
+    return;
 }
 
 
diff --git a/src/server-sock.c b/src/server-sock.c
index 5b3b797..80d099f 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -76,9 +76,9 @@ static int query_consoles_via_globbing(
     server_conf_t *conf, req_t *req, List matches);
 static int query_consoles_via_regex(
     server_conf_t *conf, req_t *req, List matches);
-static int validate_req(req_t *req);
+static int validate_req(server_conf_t *conf, req_t *req);
 static int check_too_many_consoles(req_t *req);
-static int check_busy_consoles(req_t *req);
+static int check_busy_consoles(server_conf_t *conf, req_t *req);
 static int send_rsp(req_t *req, int errnum, char *errmsg);
 static int perform_query_cmd(req_t *req);
 static int perform_monitor_cmd(req_t *req, server_conf_t *conf);
@@ -120,7 +120,7 @@ void process_client(client_arg_t *args)
         goto err;
     if (query_consoles(conf, req) < 0)
         goto err;
-    if (validate_req(req) < 0)
+    if (validate_req(conf, req) < 0)
         goto err;
 
     /*  send_rsp() needs to know if the reset command is supported.
@@ -483,6 +483,7 @@ static int query_consoles_via_globbing(
     /*  Search objs for console names matching console patterns in the request.
      */
     i = list_iterator_create(req->consoles);
+    x_pthread_mutex_lock(&conf->objsLock);
     j = list_iterator_create(conf->objs);
     while ((pat = list_next(i))) {
         list_iterator_reset(j);
@@ -496,6 +497,7 @@ static int query_consoles_via_globbing(
     }
     list_iterator_destroy(i);
     list_iterator_destroy(j);
+    x_pthread_mutex_unlock(&conf->objsLock);
     return(0);
 }
 
@@ -547,6 +549,7 @@ static int query_consoles_via_regex(
 
     /*  Search objs for console names matching console patterns in the request.
      */
+    x_pthread_mutex_lock(&conf->objsLock);
     i = list_iterator_create(conf->objs);
     while ((obj = list_next(i))) {
         if (!is_console_obj(obj))
@@ -557,12 +560,13 @@ static int query_consoles_via_regex(
             list_append(matches, obj);
     }
     list_iterator_destroy(i);
+    x_pthread_mutex_unlock(&conf->objsLock);
     regfree(&rex);
     return(0);
 }
 
 
-static int validate_req(req_t *req)
+static int validate_req(server_conf_t *conf, req_t *req)
 {
 /*  Validates the given request.
  *  Returns 0 if the request is valid, or -1 on error.
@@ -573,7 +577,7 @@ static int validate_req(req_t *req)
     }
     if (check_too_many_consoles(req) < 0)
         return(-1);
-    if (check_busy_consoles(req) < 0)
+    if (check_busy_consoles(conf, req) < 0)
         return(-1);
 
     return(0);
@@ -622,20 +626,22 @@ static int check_too_many_consoles(req_t *req)
 }
 
 
-static int check_busy_consoles(req_t *req)
+static int check_busy_consoles(server_conf_t *conf, req_t *req)
 {
 /*  Checks to see if a "writable" request affects any consoles
  *    that are currently busy (unless the force or join option is enabled).
  *  Returns 0 if the request is valid, or -1 on error.
  */
-    List busy;
-    ListIterator i;
+    int numBusy = 0;
+    List msgs;
+    ListIterator i, j;
     obj_t *console;
     obj_t *writer;
     int gotBcast;
     char *tty;
     time_t t;
     char *delta;
+    char *msg;
     char buf[MAX_LINE];
 
     assert(!list_is_empty(req->consoles));
@@ -646,36 +652,22 @@ static int check_busy_consoles(req_t *req)
     if (req->enableForce || req->enableJoin)
         return(0);
 
-    busy = list_create(NULL);
+    /*  The writers can be destroyed by mux_io() once the lock is released,
+     *    and the lock must not be held while writing to the client's socket.
+     *  So compose the messages describing the writers beforehand.
+     */
+    msgs = list_create((ListDelF) destroy_string);
+    x_pthread_mutex_lock(&conf->objsLock);
     i = list_iterator_create(req->consoles);
     while ((console = list_next(i))) {
-        assert(is_console_obj(console));
-        if (!list_is_empty(console->writers))
-            list_append(busy, console);
-    }
-    list_iterator_destroy(i);
-
-    if (list_is_empty(busy)) {
-        list_destroy(busy);
-        return(0);
-    }
-
-    if (list_count(busy) == 1) {
-        snprintf(buf, sizeof(buf), "Found console already in use");
-    }
-    else {
-        snprintf(buf, sizeof(buf), "Found %d consoles already in use",
-            list_count(busy));
-    }
-    send_rsp(req, CONMAN_ERR_BUSY_CONSOLES, buf);
 
-    /*  Note: the "busy" list contains object references,
-     *    so they DO NOT get destroyed here when removed from the list.
-     */
-    while ((console = list_pop(busy))) {
+        assert(is_console_obj(console));
+        if (list_is_empty(console->writers))
+            continue;
 
-        i = list_iterator_create(console->writers);
-        while ((writer = list_next(i))) {
+        numBusy++;
+        j = list_iterator_create(console->writers);
+        while ((writer = list_next(j))) {
 
             assert(is_client_obj(writer));
             x_pthread_mutex_lock(&writer->bufLock);
@@ -695,15 +687,38 @@ static int check_busy_consoles(req_t *req)
             buf[sizeof(buf) - 1] = '\0';
             if (delta)
                 free(delta);
-            if (write_n(req->sd, buf, strlen(buf)) < 0) {
-                log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
-                    req->fqdn, req->port, strerror(errno));
-                break;
-            }
+            msg = create_string(buf);
+            list_append(msgs, msg);
         }
-        list_iterator_destroy(i);
+        list_iterator_destroy(j);
+    }
+    list_iterator_destroy(i);
+    x_pthread_mutex_unlock(&conf->objsLock);
+
+    if (numBusy == 0) {
+        list_destroy(msgs);
+        return(0);
     }
-    list_destroy(busy);
+
+    if (numBusy == 1) {
+        snprintf(buf, sizeof(buf), "Found console already in use");
+    }
+    else {
+        snprintf(buf, sizeof(buf), "Found %d consoles already in use",
+            numBusy);
+    }
+    send_rsp(req, CONMAN_ERR_BUSY_CONSOLES, buf);
+
+    i = list_iterator_create(msgs);
+    while ((msg = list_next(i))) {
+        if (write_n(req->sd, msg, strlen(msg)) < 0) {
+            log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
+                req->fqdn, req->port, strerror(errno));
+            break;
+        }
+    }
+    list_iterator_destroy(i);
+    list_destroy(msgs);
     return(-1);
 }
 
@@ -841,6 +856,7 @@ static int perform_monitor_cmd(req_t *req, server_conf_t *conf)
     if (send_rsp(req, CONMAN_ERR_NONE, NULL) < 0) {
         return(-1);
     }
+    x_pthread_mutex_lock(&conf->objsLock);
     client = create_client_obj(conf, req);
     console = list_peek(req->consoles);
     assert(is_console_obj(console));
@@ -850,6 +866,8 @@ static int perform_monitor_cmd(req_t *req, server_conf_t *conf)
     log_msg(LOG_INFO, "Client <%s@%s:%d> connected to [%s] (read-only)",
         req->user, req->fqdn, req->port, console->name);
 
+    open_client_obj(conf, client);
+    x_pthread_mutex_unlock(&conf->objsLock);
     return(0);
 }
 
@@ -872,6 +890,7 @@ static int perform_connect_cmd(req_t *req, server_conf_t *conf)
     if (send_rsp(req, CONMAN_ERR_NONE, NULL) < 0) {
         return(-1);
     }
+    x_pthread_mutex_lock(&conf->objsLock);
     client = create_client_obj(conf, req);
 
     if (list_count(req->consoles) == 1) {
@@ -903,6 +922,8 @@ static int perform_connect_cmd(req_t *req, server_conf_t *conf)
             "Client <%s@%s:%d> connected to %d consoles (broadcast)",
             req->user, req->fqdn, req->port, list_count(req->consoles));
     }
+    open_client_obj(conf, client);
+    x_pthread_mutex_unlock(&conf->objsLock);
     return(0);
 }
 
diff --git a/src/server.c b/src/server.c
index e623cf0..4615678 100644
--- a/src/server.c
+++ b/src/server.c
@@ -51,6 +51,7 @@
 #include "util-file.h"
 #include "util-str.h"
 #include "util.h"
+#include "wrapper.h"
 
 
 static void begin_daemonize(int *fd_ptr, pid_t *pgid_ptr);
@@ -767,6 +768,12 @@ static void mux_io(server_conf_t *conf)
     }
     i = list_iterator_create(conf->objs);
 
+    /*  The lock is only released while waiting for events, and is retained
+     *    upon return.  This prevents client threads from using objects while
+     *    they are being destroyed.
+     */
+    x_pthread_mutex_lock(&conf->objsLock);
+
     while (!done) {
 
         if (reconfig) {
@@ -778,6 +785,7 @@ static void mux_io(server_conf_t *conf)
             reopen_logfiles(conf);
             reconfig = 0;
         }
+        x_pthread_mutex_unlock(&conf->objsLock);
         while ((n = tpoll(conf->tp, -1)) < 0) {
             if (errno != EINTR) {
                 log_err(errno, "Unable to multiplex I/O");
@@ -786,6 +794,7 @@ static void mux_io(server_conf_t *conf)
                 break;
             }
         }
+        x_pthread_mutex_lock(&conf->objsLock);
         if ((n > 0) &&
                 (tpoll_is_set(conf->tp, conf->ld, POLLIN) > 0)) {
             n--;
diff --git a/src/server.h b/src/server.h
index 98d5682..08b3dfb 100644
--- a/src/server.h
+++ b/src/server.h
@@ -292,6 +292,7 @@ typedef struct server_conf {
     int              port;              /* port number on which to listen    */
     int              ld;                /* listening socket descriptor       */
     List             objs;              /* list of all server obj_t's        */
+    pthread_mutex_t  objsLock;          /* lock protecting objs & obj links  */
     tpoll_t          tp;                /* tpoll obj for muxing i/o & timers */
     char            *globalLogName;     /* global log name (must contain &)  */
     logopt_t         globalLogOpts;     /* global opts for logfile objects   */
@@ -434,6 +435,8 @@ obj_t * create_obj(server_conf_t *conf, char *name,
 
 obj_t * create_client_obj(server_conf_t *conf, req_t *req);
 
+void open_client_obj(server_conf_t *conf, obj_t *client);
+
 void destroy_obj(obj_t *obj);
 
 void reopen_obj(obj_t *obj);
-- 
2.43.0


From b95bf878bcde1125cd0752a147ecca6153bda4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:49 +0000
Subject: [PATCH 13/57] fix: check for busy consoles and link the client
 atomically

The check that no one else is writing to a console was separated from the
client being linked to it by the sending of the response.  Several clients
connecting at the same time could all be granted exclusive write access.
---
 src/server-sock.c | 80 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index 80d099f..ae857bf 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -76,9 +76,10 @@ static int query_consoles_via_globbing(
     server_conf_t *conf, req_t *req, List matches);
 static int query_consoles_via_regex(
     server_conf_t *conf, req_t *req, List matches);
-static int validate_req(server_conf_t *conf, req_t *req);
+static int validate_req(req_t *req);
 static int check_too_many_consoles(req_t *req);
-static int check_busy_consoles(server_conf_t *conf, req_t *req);
+static List list_busy_writers(req_t *req, int *numBusyPtr);
+static void send_busy_rsp(req_t *req, List msgs, int numBusy);
 static int send_rsp(req_t *req, int errnum, char *errmsg);
 static int perform_query_cmd(req_t *req);
 static int perform_monitor_cmd(req_t *req, server_conf_t *conf);
@@ -120,7 +121,7 @@ void process_client(client_arg_t *args)
         goto err;
     if (query_consoles(conf, req) < 0)
         goto err;
-    if (validate_req(conf, req) < 0)
+    if (validate_req(req) < 0)
         goto err;
 
     /*  send_rsp() needs to know if the reset command is supported.
@@ -566,7 +567,7 @@ static int query_consoles_via_regex(
 }
 
 
-static int validate_req(server_conf_t *conf, req_t *req)
+static int validate_req(req_t *req)
 {
 /*  Validates the given request.
  *  Returns 0 if the request is valid, or -1 on error.
@@ -577,8 +578,6 @@ static int validate_req(server_conf_t *conf, req_t *req)
     }
     if (check_too_many_consoles(req) < 0)
         return(-1);
-    if (check_busy_consoles(conf, req) < 0)
-        return(-1);
 
     return(0);
 }
@@ -626,11 +625,14 @@ static int check_too_many_consoles(req_t *req)
 }
 
 
-static int check_busy_consoles(server_conf_t *conf, req_t *req)
+static List list_busy_writers(req_t *req, int *numBusyPtr)
 {
 /*  Checks to see if a "writable" request affects any consoles
  *    that are currently busy (unless the force or join option is enabled).
- *  Returns 0 if the request is valid, or -1 on error.
+ *  The conf->objsLock must be held by the caller.
+ *  Returns NULL if the request is valid.  O/w, returns a list of strings
+ *    describing each writer and sets the number of busy consoles; these are
+ *    to be passed to send_busy_rsp() once the lock has been released.
  */
     int numBusy = 0;
     List msgs;
@@ -646,18 +648,10 @@ static int check_busy_consoles(server_conf_t *conf, req_t *req)
 
     assert(!list_is_empty(req->consoles));
 
-    if ((req->command == CONMAN_CMD_QUERY)
-      || (req->command == CONMAN_CMD_MONITOR))
-        return(0);
     if (req->enableForce || req->enableJoin)
-        return(0);
+        return(NULL);
 
-    /*  The writers can be destroyed by mux_io() once the lock is released,
-     *    and the lock must not be held while writing to the client's socket.
-     *  So compose the messages describing the writers beforehand.
-     */
     msgs = list_create((ListDelF) destroy_string);
-    x_pthread_mutex_lock(&conf->objsLock);
     i = list_iterator_create(req->consoles);
     while ((console = list_next(i))) {
 
@@ -693,12 +687,25 @@ static int check_busy_consoles(server_conf_t *conf, req_t *req)
         list_iterator_destroy(j);
     }
     list_iterator_destroy(i);
-    x_pthread_mutex_unlock(&conf->objsLock);
 
     if (numBusy == 0) {
         list_destroy(msgs);
-        return(0);
+        return(NULL);
     }
+    *numBusyPtr = numBusy;
+    return(msgs);
+}
+
+
+static void send_busy_rsp(req_t *req, List msgs, int numBusy)
+{
+/*  Sends a response to a request (req) that affects (numBusy) consoles which
+ *    are currently busy, followed by the list of (msgs) describing them.
+ *  The list is consumed.
+ */
+    ListIterator i;
+    char *msg;
+    char buf[MAX_LINE];
 
     if (numBusy == 1) {
         snprintf(buf, sizeof(buf), "Found console already in use");
@@ -719,7 +726,7 @@ static int check_busy_consoles(server_conf_t *conf, req_t *req)
     }
     list_iterator_destroy(i);
     list_destroy(msgs);
-    return(-1);
+    return;
 }
 
 
@@ -883,14 +890,23 @@ static int perform_connect_cmd(req_t *req, server_conf_t *conf)
     obj_t *client;
     obj_t *console;
     ListIterator i;
+    List msgs;
+    int numBusy = 0;
 
     assert(req->sd >= 0);
     assert(req->command == CONMAN_CMD_CONNECT);
 
-    if (send_rsp(req, CONMAN_ERR_NONE, NULL) < 0) {
+    /*  Link the client while holding the lock under which the consoles have
+     *    been found not to be busy.  But release it while sending responses
+     *    since that can block.
+     */
+    x_pthread_mutex_lock(&conf->objsLock);
+
+    if ((msgs = list_busy_writers(req, &numBusy))) {
+        x_pthread_mutex_unlock(&conf->objsLock);
+        send_busy_rsp(req, msgs, numBusy);
         return(-1);
     }
-    x_pthread_mutex_lock(&conf->objsLock);
     client = create_client_obj(conf, req);
 
     if (list_count(req->consoles) == 1) {
@@ -902,9 +918,6 @@ static int perform_connect_cmd(req_t *req, server_conf_t *conf)
         link_objs(client, console);
         link_objs(console, client);
         check_console_state(console, client);
-
-        log_msg(LOG_INFO, "Client <%s@%s:%d> connected to [%s]",
-            req->user, req->fqdn, req->port, console->name);
     }
     else {
         /*
@@ -917,7 +930,24 @@ static int perform_connect_cmd(req_t *req, server_conf_t *conf)
             check_console_state(console, client);
         }
         list_iterator_destroy(i);
+    }
+    x_pthread_mutex_unlock(&conf->objsLock);
 
+    if (send_rsp(req, CONMAN_ERR_NONE, NULL) < 0) {
+        x_pthread_mutex_lock(&conf->objsLock);
+        unlink_obj(client);
+        client->fd = req->sd;
+        destroy_obj(client);            /* destroys req */
+        x_pthread_mutex_unlock(&conf->objsLock);
+        return(0);
+    }
+    x_pthread_mutex_lock(&conf->objsLock);
+    if (list_count(req->consoles) == 1) {
+        console = list_peek(req->consoles);
+        log_msg(LOG_INFO, "Client <%s@%s:%d> connected to [%s]",
+            req->user, req->fqdn, req->port, console->name);
+    }
+    else {
         log_msg(LOG_INFO,
             "Client <%s@%s:%d> connected to %d consoles (broadcast)",
             req->user, req->fqdn, req->port, list_count(req->consoles));
-- 
2.43.0


From d92e1caf1dd93ad6d5d878409ce796e231aa34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:41 +0000
Subject: [PATCH 14/57] fix: do not let poll() use tpoll's fd_array while it is
 modified

tpoll() released the mutex and called poll() on the shared fd_array[].
Another thread growing the array in the meantime would realloc() it while
the kernel was still using it, resulting in poll() writing to freed memory.
Poll a private copy of the array instead.
---
 src/tpoll.c | 100 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 85 insertions(+), 15 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 084074c..e65ace4 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -84,15 +84,16 @@ typedef struct tpoll_timer * _tpoll_timer_t;
 
 struct tpoll {
     struct pollfd   *fd_array;          /* poll fd array                     */
+    struct pollfd   *poll_array;        /* copy of fd_array used by poll()   */
     int              fd_pipe[ 2 ];      /* signal pipe for unblocking poll() */
     int              num_fds_alloc;     /* num pollfd structs allocated      */
+    int              num_poll_alloc;    /* num pollfd structs in poll_array  */
     int              num_fds_used;      /* num pollfd structs in use         */
     int              max_fd;            /* max fd in array in use            */
     _tpoll_timer_t   timers_active;     /* sorted list of active timers      */
     int              timers_next_id;    /* next id to be assigned to a timer */
     pthread_mutex_t  mutex;             /* locking primitive                 */
     bool             is_blocked;        /* flag set when blocking on poll()  */
-    bool             is_realloced;      /* flag set after fd_array[] realloc */
     bool             is_signaled;       /* flag set when fd_pipe is signaled */
     bool             is_mutex_inited;   /* flag set when mutex initialized   */
 };
@@ -118,6 +119,10 @@ static void _tpoll_signal_recv (tpoll_t tp);
 
 static int _tpoll_grow (tpoll_t tp, int num_fds_req);
 
+static int _tpoll_copy_fds (tpoll_t tp);
+
+static int _tpoll_copy_revents (tpoll_t tp, int num_fds);
+
 static void _tpoll_get_timeval (struct timeval *tvp, int ms);
 
 static int _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0);
@@ -148,9 +153,10 @@ tpoll_create (int n)
         goto err;
     }
     tp->fd_pipe[ 0 ] = tp->fd_pipe[ 1 ] = -1;
+    tp->poll_array = NULL;
+    tp->num_poll_alloc = 0;
     tp->timers_active = NULL;
     tp->is_blocked = false;
-    tp->is_realloced = false;
     tp->is_signaled = false;
     tp->is_mutex_inited = false;
 
@@ -212,6 +218,10 @@ tpoll_destroy (tpoll_t tp)
         free (tp->fd_array);
         tp->fd_array = NULL;
     }
+    if (tp->poll_array) {
+        free (tp->poll_array);
+        tp->poll_array = NULL;
+    }
     for (i = 0; i < 2; i++) {
         if (tp->fd_pipe[ i ] > -1) {
             (void) close (tp->fd_pipe[ i ]);
@@ -570,6 +580,7 @@ tpoll (tpoll_t tp, int ms)
     _tpoll_timer_t  t;
     int             timeout;
     int             ms_diff;
+    int             num_fds;
     int             n;
     int             e;
 
@@ -650,14 +661,21 @@ tpoll (tpoll_t tp, int ms)
             timeout = (ms_diff > 0) ? ms_diff : 0;
         }
         /*  Poll for events, discarding any on the "signaling pipe".
+         *  The poll() is performed on a copy of the fd_array[] since the
+         *    original may be modified (or realloc'd) by other threads once the
+         *    mutex has been released.
          */
+        if ((num_fds = _tpoll_copy_fds (tp)) < 0) {
+            n = -1;
+            break;
+        }
         tp->is_blocked = true;
 
         if ((e = pthread_mutex_unlock (&tp->mutex)) != 0) {
             log_err (errno = e, "Unable to unlock tpoll mutex");
         }
-        DPRINTF((25, "tpoll poll enter ms=%d mfd=%d.\n", timeout, tp->max_fd));
-        n = poll (tp->fd_array, tp->max_fd + 1, timeout);
+        DPRINTF((25, "tpoll poll enter ms=%d nfd=%d.\n", timeout, num_fds));
+        n = poll (tp->poll_array, num_fds, timeout);
         DPRINTF((25, "tpoll poll return n=%d.\n", n));
 
         if ((e = pthread_mutex_lock (&tp->mutex)) != 0) {
@@ -668,12 +686,8 @@ tpoll (tpoll_t tp, int ms)
         if (n < 0) {
             break;
         }
-        if (tp->is_realloced) {
-            DPRINTF((25, "tpoll is_realloced.\n"));
-            tp->is_realloced = false;
-            _tpoll_signal_recv (tp);
-            continue;
-        }
+        n = _tpoll_copy_revents (tp, num_fds);
+
         if (tp->fd_array[ tp->fd_pipe[ 0 ] ].revents & POLLIN) {
             _tpoll_signal_recv (tp);
             n--;
@@ -845,11 +859,9 @@ _tpoll_grow (tpoll_t tp, int num_fds_req)
     if (num_fds_tmp < num_fds_req) {
         num_fds_tmp = num_fds_req;
     }
-    /*  Force tpoll()'s poll() to unblock before we realloc the fd_array.
-     *  Then tpoll() will have to re-acquire the mutex before continuing.
-     *  Since we currently have the mutex, we can now safely realloc fd_array.
+    /*  The fd_array can be safely realloc'd since we currently have the mutex,
+     *    and tpoll()'s poll() operates on a copy of it.
      */
-    _tpoll_signal_send (tp);
     if (!(fd_array_tmp =
             realloc (tp->fd_array, num_fds_tmp * sizeof (struct pollfd)))) {
         return (-1);
@@ -860,13 +872,71 @@ _tpoll_grow (tpoll_t tp, int num_fds_req)
     for (i = tp->num_fds_alloc; i < num_fds_tmp; i++) {
         fd_array_tmp[ i ].fd = -1;
     }
-    tp->is_realloced = true;
     tp->fd_array = fd_array_tmp;
     tp->num_fds_alloc = num_fds_tmp;
     return (0);
 }
 
 
+static int
+_tpoll_copy_fds (tpoll_t tp)
+{
+/*  Copies the in-use portion of [tp]'s fd_array for use by poll().
+ *  Returns the number of pollfd structs copied, or -1 on error.
+ *  This routine assumes the [tp] mutex is already locked.
+ */
+    struct pollfd *poll_array_tmp;
+    int            num_fds;
+
+    assert (tp != NULL);
+    assert (tp->max_fd < tp->num_fds_alloc);
+
+    num_fds = tp->max_fd + 1;
+    if (num_fds > tp->num_poll_alloc) {
+        if (!(poll_array_tmp = realloc (tp->poll_array,
+                tp->num_fds_alloc * sizeof (struct pollfd)))) {
+            return (-1);
+        }
+        tp->poll_array = poll_array_tmp;
+        tp->num_poll_alloc = tp->num_fds_alloc;
+    }
+    memcpy (tp->poll_array, tp->fd_array, num_fds * sizeof (struct pollfd));
+    return (num_fds);
+}
+
+
+static int
+_tpoll_copy_revents (tpoll_t tp, int num_fds)
+{
+/*  Copies the events returned by poll() for the first [num_fds] structs back
+ *    into [tp]'s fd_array, discarding those for which interest was lost while
+ *    poll() was blocked.
+ *  Returns the number of file descriptors with events.
+ *  This routine assumes the [tp] mutex is already locked.
+ */
+    struct pollfd *pfd;
+    int            i;
+    int            n = 0;
+
+    assert (tp != NULL);
+    assert (num_fds <= tp->num_fds_alloc);
+    assert (num_fds <= tp->num_poll_alloc);
+
+    for (i = 0; i < num_fds; i++) {
+        pfd = &tp->fd_array[ i ];
+        if ((pfd->fd < 0) || (pfd->fd != tp->poll_array[ i ].fd)) {
+            continue;
+        }
+        pfd->revents = tp->poll_array[ i ].revents
+            & (pfd->events | POLLERR | POLLHUP | POLLNVAL);
+        if (pfd->revents) {
+            n++;
+        }
+    }
+    return (n);
+}
+
+
 static void
 _tpoll_get_timeval (struct timeval *tvp, int ms)
 {
-- 
2.43.0


From a8c7e48efb6f7cb51d864a79cf724cd41bacc65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:55 +0000
Subject: [PATCH 15/57] fix: do not overflow tpoll's wait for timers over 24
 days away

The difference in milliseconds was truncated to an int.  The result could
be negative (in which case tpoll would busy-loop until the timer was due).
---
 src/tpoll.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index e65ace4..bce7751 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -29,6 +29,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <poll.h>
 #include <pthread.h>
 #include <stdlib.h>
@@ -967,7 +968,7 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
  *  If either is NULL, the current time will be used in its place.
  */
     struct timeval tv;
-    int            ms;
+    long long      ms;
 
     if (!tvp0 || !tvp1) {
         if (gettimeofday (&tv, NULL) < 0) {
@@ -980,7 +981,7 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             tvp1 = &tv;
         }
     }
-    ms = ( (tvp1->tv_sec  - tvp0->tv_sec)  * 1000 ) +
+    ms = ( ((long long) tvp1->tv_sec - tvp0->tv_sec) * 1000 ) +
          ( (tvp1->tv_usec - tvp0->tv_usec) / 1000 ) ;
     /*
      *  Round to the next millisecond.
@@ -993,5 +994,14 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             && (tvp1->tv_usec < tvp0->tv_usec)) {
         ms--;
     }
-    return (ms);
+    /*  Prevent the difference from overflowing the return value; tpoll() will
+     *    continue waiting for the remainder.
+     */
+    if (ms > INT_MAX) {
+        ms = INT_MAX;
+    }
+    else if (ms < INT_MIN) {
+        ms = INT_MIN;
+    }
+    return ((int) ms);
 }
-- 
2.43.0


From 24e3af410b020ea64a6225cfc42d5c4499c725e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:55 +0000
Subject: [PATCH 16/57] fix: size tpoll's fd array to hold its signal pipe

If tpoll_create() was asked for fewer file descriptors than the number of
the pipe's descriptor, the pipe was registered beyond the end of fd_array[].
---
 src/tpoll.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index bce7751..44ed7c1 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -154,6 +154,7 @@ tpoll_create (int n)
         goto err;
     }
     tp->fd_pipe[ 0 ] = tp->fd_pipe[ 1 ] = -1;
+    tp->fd_array = NULL;
     tp->poll_array = NULL;
     tp->num_poll_alloc = 0;
     tp->timers_active = NULL;
@@ -161,14 +162,19 @@ tpoll_create (int n)
     tp->is_signaled = false;
     tp->is_mutex_inited = false;
 
+    if (pipe (tp->fd_pipe) < 0) {
+        goto err;
+    }
+    /*  The fd_array[] must be able to hold the signal pipe.
+     */
+    if (n <= tp->fd_pipe[ 0 ]) {
+        n = tp->fd_pipe[ 0 ] + 1;
+    }
     if (!(tp->fd_array = malloc (n * sizeof (struct pollfd)))) {
         goto err;
     }
     tp->num_fds_alloc = n;
 
-    if (pipe (tp->fd_pipe) < 0) {
-        goto err;
-    }
     for (i = 0; i < 2; i++) {
         if ((fval = fcntl (tp->fd_pipe[ i ], F_GETFL, 0)) < 0) {
             goto err;
-- 
2.43.0


From 49729cedc9d15785369624cd92ea3a14f91d5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:19 +0000
Subject: [PATCH 17/57] fix: do not skip the line after a timestamp without a
 qualifier

Checking for the optional qualifier consumed the end of the line, so the
tokens of the next line were parsed as part of the SERVER directive.
---
 src/server-conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index bc7ea69..7fbc378 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -1427,7 +1427,7 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
             else {
                 conf->tStampMinutes = n;
                 if ((lex_next(l) == LEX_EOF) || (lex_prev(l) == LEX_EOL)) {
-                    ; /* no-op */
+                    done = 1;
                 }
                 else if (lex_prev(l) == LEX_STR) {
                     if (lex_text(l)[1] != '\0') {
-- 
2.43.0


From 2533487e712f01bc618424447981abc9d0d4a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:19 +0000
Subject: [PATCH 18/57] fix: do not read past a format string ending in '%'

---
 src/server-obj.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index 30ae5c9..fa96227 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -348,12 +348,13 @@ int format_obj_string(char *buf, int buflen, obj_t *obj, const char *fmt)
     get_localtime(&t, &tm);
 
     while (((c = *psrc++) != '\0') && (n > 0)) {
-        if ((c != '%') || ((*pspec = *psrc++) == '\0')) {
+        if ((c != '%') || (*psrc == '\0')) {
             if (--n > 0) {
                 *pdst++ = c;
             }
         }
         else {
+            *pspec = *psrc++;
             switch (*pspec) {
             case 'N':                   /* console name */
                 if (!obj)
-- 
2.43.0


From 7e286b811a326645ec1b26a265247649bd3d80b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:19 +0000
Subject: [PATCH 19/57] fix: detect duplicate logfile names using conversion
 specifiers

The name of a logfile obj was its unexpanded format string until the file
was opened, so the check of other consoles' logfiles against it never
matched.
---
 src/server-logfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 0798150..433ddb6 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -155,7 +155,7 @@ obj_t * create_logfile_obj(server_conf_t *conf, char *name,
         }
         return(NULL);
     }
-    logfile = create_obj(conf, name, -1, CONMAN_OBJ_LOGFILE);
+    logfile = create_obj(conf, pname, -1, CONMAN_OBJ_LOGFILE);
     logfile->aux.logfile.console = console;
     logfile->aux.logfile.lineState = CONMAN_LOG_LINE_INIT;
     logfile->aux.logfile.opts = *opts;
-- 
2.43.0


From 5fb540671d1b3cd44ba0e8f990968d542b13db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:43 +0000
Subject: [PATCH 20/57] fix: write data buffered while a console was
 disconnected

Data written into a console obj's buffer while its connection was down was
not written once the connection was re-established until some other data
was written to that console.
---
 src/server-ipmi.c     | 2 +-
 src/server-process.c  | 2 +-
 src/server-serial.c   | 2 +-
 src/server-unixsock.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server-ipmi.c b/src/server-ipmi.c
index 5e51aa7..ceb7743 100644
--- a/src/server-ipmi.c
+++ b/src/server-ipmi.c
@@ -1013,7 +1013,7 @@ static int complete_ipmi_connect(obj_t *ipmi)
 
     ipmi->gotEOF = 0;
     ipmi->aux.ipmi.state = CONMAN_IPMI_UP;
-    tpoll_set(tp_global, ipmi->fd, POLLIN);
+    tpoll_set(tp_global, ipmi->fd, POLLIN | POLLOUT);
 
     /*  Require the connection to be up for a minimum length of time
      *    before resetting the reconnect delay back to the minimum.
diff --git a/src/server-process.c b/src/server-process.c
index 84642f2..1ceccb3 100644
--- a/src/server-process.c
+++ b/src/server-process.c
@@ -357,7 +357,7 @@ static int connect_process_obj(obj_t *process)
     auxp->pid = pid;
     process->gotEOF = 0;
     auxp->state = CONMAN_PROCESS_UP;
-    tpoll_set(tp_global, process->fd, POLLIN);
+    tpoll_set(tp_global, process->fd, POLLIN | POLLOUT);
 
     /*  Require the connection to be up for a minimum length of time before
      *    resetting the reconnect-delay back to zero.
diff --git a/src/server-serial.c b/src/server-serial.c
index 56e11ae..89fff1f 100644
--- a/src/server-serial.c
+++ b/src/server-serial.c
@@ -437,7 +437,7 @@ int open_serial_obj(obj_t *serial)
     set_tty_mode(&tty, fd);
     serial->fd = fd;
     serial->gotEOF = 0;
-    tpoll_set(tp_global, serial->fd, POLLIN);
+    tpoll_set(tp_global, serial->fd, POLLIN | POLLOUT);
     /*
      *  Success!
      */
diff --git a/src/server-unixsock.c b/src/server-unixsock.c
index f6c51c0..72fabc9 100644
--- a/src/server-unixsock.c
+++ b/src/server-unixsock.c
@@ -298,7 +298,7 @@ static int connect_unixsock_obj(obj_t *unixsock)
      */
     unixsock->gotEOF = 0;
     auxp->state = CONMAN_UNIXSOCK_UP;
-    tpoll_set(tp_global, unixsock->fd, POLLIN);
+    tpoll_set(tp_global, unixsock->fd, POLLIN | POLLOUT);
 
     /*  Require the connection to be up for a minimum length of time before
      *    resetting the reconnect-delay back to the minimum.
-- 
2.43.0


From 9d3da45cffc063d10c959f56582d6e0c3243e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:43 +0000
Subject: [PATCH 21/57] fix: do not replay stale log data after a logfile was
 shut down

---
 src/server-obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index fa96227..dd4dd83 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -870,6 +870,7 @@ int shutdown_obj(obj_t *obj)
     x_pthread_mutex_lock(&obj->bufLock);
     n = num_bytes_buffered(obj);
     obj->bufInPtr = obj->bufOutPtr = obj->buf;
+    obj->gotBufWrap = 0;
     obj->gotEOF = 0;
     x_pthread_mutex_unlock(&obj->bufLock);
     if (n > 0) {
-- 
2.43.0


From 090770b27125779ebdebef831f2404b93699867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:36 +0000
Subject: [PATCH 22/57] fix: sort consoles by trailing integers of any length

Integers exceeding the range of an int were truncated by atoi().
---
 src/server-obj.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index dd4dd83..63a41cd 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -56,6 +56,7 @@ extern tpoll_t tp_global;               /* defined in server.c */
 
 static char * sanitize_file_string(char *str);
 static char * find_trailing_int_str(char *str);
+static int compare_int_strs(const char *int1, const char *int2);
 static void set_client_eof(obj_t *client);
 #ifndef NDEBUG
 static int validate_obj_links(obj_t *obj);
@@ -492,7 +493,7 @@ int compare_objs(obj_t *obj1, obj_t *obj2)
 
     while (*str1) {
         if ((str1 == int1) && (str2 == int2))
-            return(atoi(int1) - atoi(int2));
+            return(compare_int_strs(int1, int2));
         else if (*str1 == *str2)
             str1++, str2++;
         else
@@ -519,6 +520,29 @@ static char * find_trailing_int_str(char *str)
 }
 
 
+static int compare_int_strs(const char *int1, const char *int2)
+{
+/*  Compares the values of the decimal digit strings (int1) and (int2),
+ *    neither of which is limited to the range of an integer type.
+ *  Returns less-than-zero if (int1 < int2), zero if (int1 == int2),
+ *    and greater-than-zero if (int1 > int2).
+ */
+    size_t len1, len2;
+
+    assert(int1 != NULL);
+    assert(int2 != NULL);
+
+    int1 += strspn(int1, "0");
+    int2 += strspn(int2, "0");
+    len1 = strlen(int1);
+    len2 = strlen(int2);
+
+    if (len1 != len2)
+        return((len1 < len2) ? -1 : 1);
+    return(strcmp(int1, int2));
+}
+
+
 int find_obj(obj_t *obj, obj_t *key)
 {
 /*  Used by list_find_first() and list_delete_all() to locate
-- 
2.43.0


From ea2c080ce22a34c0880bc1f4344b2344fe7b251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:05 +0000
Subject: [PATCH 23/57] fix: preserve errno in the SIGCHLD handler

waitpid() typically sets errno to ECHILD here.  If the signal was delivered
between a failed system call and the check of its errno, a transient error
such as EAGAIN would be mistaken for a fatal one.
---
 src/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.c b/src/server.c
index 4615678..a293992 100644
--- a/src/server.c
+++ b/src/server.c
@@ -374,9 +374,11 @@ static void setup_signals(server_conf_t *conf)
 
 static void sig_chld_handler(int signum)
 {
+    int errno_bak = errno;
     pid_t pid;
 
     while ((pid = waitpid(-1, NULL, WNOHANG)) > 0) {;}
+    errno = errno_bak;
     return;
 }
 
-- 
2.43.0


From 5599704219d5f351b5d7fe19951de7b105985661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:05 +0000
Subject: [PATCH 24/57] fix: do not miss signals received just before waiting
 for events

A SIGTERM or SIGHUP delivered between the check of its flag and the call of
poll() was not acted upon until some other event occurred.  A SIGHUP received
while logfiles were already being reopened was discarded.
---
 src/server.c | 66 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index a293992..c649935 100644
--- a/src/server.c
+++ b/src/server.c
@@ -58,6 +58,9 @@ static void begin_daemonize(int *fd_ptr, pid_t *pgid_ptr);
 static void end_daemonize(int fd);
 static void setup_coredump(server_conf_t *conf);
 static void setup_signals(server_conf_t *conf);
+static void setup_signal_pipe(void);
+static void write_signal_pipe(void);
+static void read_signal_pipe(void);
 static void sig_chld_handler(int signum);
 static void sig_hup_handler(int signum);
 static void exit_handler(int signum);
@@ -79,6 +82,7 @@ static void resume_accept(server_conf_t *conf);
  */
 static volatile sig_atomic_t done = 0;
 static volatile sig_atomic_t reconfig = 0;
+static int signal_pipe[2] = {-1, -1};
 static int coredump = 0;
 static char coredumpdir[PATH_MAX];
 
@@ -354,6 +358,8 @@ static void setup_coredump(server_conf_t *conf)
 
 static void setup_signals(server_conf_t *conf)
 {
+    setup_signal_pipe();
+
     posix_signal(SIGCHLD, sig_chld_handler);
     posix_signal(SIGHUP, sig_hup_handler);
     posix_signal(SIGINT, exit_handler);
@@ -386,6 +392,7 @@ static void sig_chld_handler(int signum)
 static void sig_hup_handler(int signum)
 {
     reconfig = signum;
+    write_signal_pipe();
     return;
 }
 
@@ -393,6 +400,56 @@ static void sig_hup_handler(int signum)
 static void exit_handler(int signum)
 {
     done = signum;
+    write_signal_pipe();
+    return;
+}
+
+
+static void setup_signal_pipe(void)
+{
+/*  Creates the pipe used by the signal handlers to wake mux_io().
+ *  Without it, a signal received after mux_io() has checked the 'done' and
+ *    'reconfig' flags but before it blocks would go unnoticed until the next
+ *    event.
+ */
+    int i;
+
+    if (pipe(signal_pipe) < 0) {
+        log_err(errno, "Unable to create signal pipe");
+    }
+    for (i = 0; i < 2; i++) {
+        set_fd_nonblocking(signal_pipe[i]);
+        set_fd_closed_on_exec(signal_pipe[i]);
+    }
+    return;
+}
+
+
+static void write_signal_pipe(void)
+{
+/*  Wakes mux_io().  This routine is async-signal-safe.
+ *  If the pipe is full, there is already a wakeup pending.
+ */
+    int errno_bak = errno;
+
+    if (write(signal_pipe[1], "", 1) < 0) {
+        ; /* ignore */
+    }
+    errno = errno_bak;
+    return;
+}
+
+
+static void read_signal_pipe(void)
+{
+/*  Discards the wakeups pending in the signal pipe.
+ */
+    char buf[64];
+    int n;
+
+    do {
+        n = read(signal_pipe[0], buf, sizeof(buf));
+    } while ((n > 0) || ((n < 0) && (errno == EINTR)));
     return;
 }
 
@@ -768,6 +825,8 @@ static void mux_io(server_conf_t *conf)
     if (inevent_fd >= 0) {
         tpoll_set(conf->tp, inevent_get_fd(), POLLIN);
     }
+    tpoll_set(conf->tp, signal_pipe[0], POLLIN);
+
     i = list_iterator_create(conf->objs);
 
     /*  The lock is only released while waiting for events, and is retained
@@ -784,8 +843,8 @@ static void mux_io(server_conf_t *conf)
              *    and reset reconnect timers of "downed" telnet objs.
              */
             log_msg(LOG_NOTICE, "Performing reconfig on signal=%d", reconfig);
-            reopen_logfiles(conf);
             reconfig = 0;
+            reopen_logfiles(conf);
         }
         x_pthread_mutex_unlock(&conf->objsLock);
         while ((n = tpoll(conf->tp, -1)) < 0) {
@@ -797,6 +856,11 @@ static void mux_io(server_conf_t *conf)
             }
         }
         x_pthread_mutex_lock(&conf->objsLock);
+        if ((n > 0) &&
+                (tpoll_is_set(conf->tp, signal_pipe[0], POLLIN) > 0)) {
+            n--;
+            read_signal_pipe();
+        }
         if ((n > 0) &&
                 (tpoll_is_set(conf->tp, conf->ld, POLLIN) > 0)) {
             n--;
-- 
2.43.0


From 542d67310dc40bd6c9c27e932fc40dab6b67af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:30 +0000
Subject: [PATCH 25/57] fix: do not lose console log data received just before
 termination

Data read from a console is written to its logfile by the next pass through
mux_io(), which does not happen if a signal to terminate has been received.
---
 src/server-obj.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 63a41cd..6211065 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -170,6 +170,11 @@ void destroy_obj(obj_t *obj)
     assert(obj != NULL);
     DPRINTF((10, "Destroying object [%s].\n", obj->name));
 
+    /*  Write out the remainder of the log since nothing else will.
+     */
+    if (is_logfile_obj(obj) && (obj->fd >= 0)) {
+        (void) write_to_obj(obj);
+    }
     n = num_bytes_buffered(obj);
     if (n > 0) {
         log_msg(LOG_WARNING,
-- 
2.43.0


From cbfefbbb7d16a0309a273bceda81b9d69f3249c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:30 +0000
Subject: [PATCH 26/57] fix: terminate process consoles when exiting from the
 foreground

The daemon's process group is only signaled when running in the background,
so processes not noticing their closed stdin were left behind.
---
 src/server-obj.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 6211065..65efe66 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -33,6 +33,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <errno.h>
+#include <signal.h>
 #include <stdio.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -199,6 +200,9 @@ void destroy_obj(obj_t *obj)
         }
         break;
     case CONMAN_OBJ_PROCESS:
+        if (obj->aux.process.pid > 0) {
+            (void) kill(obj->aux.process.pid, SIGTERM);
+        }
         for (pp = obj->aux.process.argv; *pp != NULL; pp++) {
             free(*pp);
         }
-- 
2.43.0


From c451cf1b440bbd3ab3f84c572dc84757814a98fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:30 +0000
Subject: [PATCH 27/57] fix: allow another reset once the previous reset has
 completed

The pid of a reset command was retained until its time limit expired.  Until
then, further resets of the console were ignored with a message claiming the
command was still active.
---
 src/server-esc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index c308329..e5ad549 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -453,6 +453,15 @@ static void perform_reset(obj_t *client)
         if (console->resetCmdRef == NULL) {
             continue;
         }
+        if ((console->resetCmdPid > 0)
+                && (kill(-console->resetCmdPid, 0) < 0) && (errno == ESRCH)) {
+            /*
+             *  The previous reset cmd has completed within its time limit.
+             */
+            (void) tpoll_timeout_cancel(tp_global, console->resetCmdTimer);
+            console->resetCmdPid = 0;
+            console->resetCmdTimer = 0;
+        }
         if (console->resetCmdPid > 0) {
             write_notify_msg(console, LOG_INFO,
                 "Ignoring reset of console [%s]: pid %d still active",
-- 
2.43.0


From d63dc9377046b3f085c1892832dba193dbebbd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 28/57] fix: perform session escapes in order with the
 surrounding data

All of the escapes in a buffer read from a client were performed before any
of its data was written to the console.  Consequently, a serial-break or DEL
preceded the input typed before it, and when changing between read-only and
read-write the data on either side of the escape (that happened to be read
along with it) was handled according to the new mode.
---
 src/server-esc.c | 13 +++++++++++--
 src/server-obj.c | 43 +++++++++++++++++++++++++++----------------
 src/server.h     |  2 ++
 3 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/server-esc.c b/src/server-esc.c
index e5ad549..f32cbe6 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -61,8 +61,9 @@ int process_client_escapes(obj_t *client, void *src, int len)
 /*  Processes the buffer (src) of length (len) received from the client
  *    for escape character sequences.
  *  Escape characters are removed (unstuffed) from the buffer
- *    and immediately processed.
- *  Returns the new length of the modified buffer.
+ *    and immediately processed; data preceding them is written out first.
+ *  Returns the new length of the modified buffer (ie, of the data that
+ *    has yet to be written out).
  */
     const unsigned char *last = (unsigned char *) src + len;
     unsigned char *p, *q;
@@ -76,6 +77,14 @@ int process_client_escapes(obj_t *client, void *src, int len)
     for (p=q=src; p<last; p++) {
         if (client->aux.client.gotEscape) {
             client->aux.client.gotEscape = 0;
+            /*
+             *  Write the data preceding this escape before performing it
+             *    so they take effect in the order they were received.
+             */
+            if ((*p != ESC_CHAR) && (q > (unsigned char *) src)) {
+                write_obj_readers(client, src, q - (unsigned char *) src);
+                q = src;
+            }
             switch (*p) {
             case ESC_CHAR:
                 *q++ = *p;
diff --git a/src/server-obj.c b/src/server-obj.c
index 65efe66..66d82e4 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -954,8 +954,6 @@ int read_from_obj(obj_t *obj)
     unsigned char buf[(OBJ_BUF_SIZE / 2) - 1];
     int n;
     int isEmpty;
-    ListIterator i;
-    obj_t *reader;
 
     DPRINTF((20, "Entered read_from_obj: [%s]\n", obj->name));
 
@@ -1017,26 +1015,39 @@ again:
          *    after the escape characters have been processed.
          */
         if (n > 0) {
-            i = list_iterator_create(obj->readers);
-            while ((reader = list_next(i))) {
-
-                if (is_logfile_obj(reader)) {
-                    write_log_data(reader, buf, n);
-                }
-                else if (is_telnet_obj(reader)) {
-                    write_telnet_data(reader, buf, n);
-                }
-                else {
-                    write_obj_data(reader, buf, n, 0);
-                }
-            }
-            list_iterator_destroy(i);
+            write_obj_readers(obj, buf, n);
         }
     }
     return(n);
 }
 
 
+void write_obj_readers(obj_t *obj, const void *src, int len)
+{
+/*  Writes the buffer (src) of length (len) read from the object (obj)
+ *    into the circular-buffer of each obj in its "readers" list.
+ */
+    ListIterator i;
+    obj_t *reader;
+
+    i = list_iterator_create(obj->readers);
+    while ((reader = list_next(i))) {
+
+        if (is_logfile_obj(reader)) {
+            write_log_data(reader, src, len);
+        }
+        else if (is_telnet_obj(reader)) {
+            write_telnet_data(reader, src, len);
+        }
+        else {
+            write_obj_data(reader, src, len, 0);
+        }
+    }
+    list_iterator_destroy(i);
+    return;
+}
+
+
 int write_obj_data(obj_t *obj, const void *src, int len, int isInfo)
 {
 /*  Writes the buffer (src) of length (len) into the object's (obj)
diff --git a/src/server.h b/src/server.h
index 08b3dfb..be86bac 100644
--- a/src/server.h
+++ b/src/server.h
@@ -461,6 +461,8 @@ int shutdown_obj(obj_t *obj);
 
 int read_from_obj(obj_t *obj);
 
+void write_obj_readers(obj_t *obj, const void *src, int len);
+
 int write_obj_data(obj_t *obj, const void *src, int len, int isInfo);
 
 int write_to_obj(obj_t *obj);
-- 
2.43.0


From 21a63ac7ce6b629033eed48775a96b00ce2c3dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:49 +0000
Subject: [PATCH 29/57] fix: bound the regex complexity of a client request

A request's console patterns were combined via alternation into a regex of up
to 128KB; with deep nesting or many repetitions, regcomp()'s recursion then
overflowed the stack and crashed the daemon.  Compile each pattern separately.
---
 src/server-sock.c | 66 +++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index ae857bf..6cc73d2 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -507,10 +507,13 @@ static int query_consoles_via_regex(
     server_conf_t *conf, req_t *req, List matches)
 {
 /*  Match request patterns against console names using regular expressions.
+ *  Each pattern is compiled separately since regcomp()'s recursion (and thus
+ *    its stack usage) depends on the size of the regex: combining a request's
+ *    patterns via alternation would allow it to overflow the stack.
  */
     char *p;
-    ListIterator i;
-    char buf[MAX_SOCK_LINE];
+    ListIterator i, j;
+    char buf[MAX_LINE];
     int rc;
     regex_t rex;
     regmatch_t match;
@@ -523,46 +526,41 @@ static int query_consoles_via_regex(
         list_append(req->consoles, p);
     }
 
-    /*  Combine console patterns via alternation to create single regex.
+    /*  Search objs for console names matching console patterns in the request.
      */
     i = list_iterator_create(req->consoles);
-    strlcpy(buf, list_next(i), sizeof(buf));
     while ((p = list_next(i))) {
-        strlcat(buf, "|", sizeof(buf));
-        strlcat(buf, p, sizeof(buf));
-    }
-    list_iterator_destroy(i);
 
-    /*  Initialize 'rex' to silence "uninitialized use" warnings.
-     */
-    memset(&rex, 0, sizeof(rex));
+        /*  Initialize 'rex' to silence "uninitialized use" warnings.
+         */
+        memset(&rex, 0, sizeof(rex));
 
-    /*  Compile regex for searching server's console objs.
-     */
-    rc = regcomp(&rex, buf, REG_EXTENDED | REG_ICASE);
-    if (rc != 0) {
-        if (regerror(rc, &rex, buf, sizeof(buf)) > sizeof(buf))
-            log_msg(LOG_WARNING, "Got regerror() buffer overrun");
-        regfree(&rex);
-        send_rsp(req, CONMAN_ERR_BAD_REGEX, buf);
-        return(-1);
-    }
+        rc = regcomp(&rex, p, REG_EXTENDED | REG_ICASE);
+        if (rc != 0) {
+            if (regerror(rc, &rex, buf, sizeof(buf)) > sizeof(buf))
+                log_msg(LOG_WARNING, "Got regerror() buffer overrun");
+            regfree(&rex);
+            list_iterator_destroy(i);
+            send_rsp(req, CONMAN_ERR_BAD_REGEX, buf);
+            return(-1);
+        }
 
-    /*  Search objs for console names matching console patterns in the request.
-     */
-    x_pthread_mutex_lock(&conf->objsLock);
-    i = list_iterator_create(conf->objs);
-    while ((obj = list_next(i))) {
-        if (!is_console_obj(obj))
-            continue;
-        if (!regexec(&rex, obj->name, 1, &match, 0)
-          && (match.rm_so == 0)
-          && (match.rm_eo == (int) strlen(obj->name)))
-            list_append(matches, obj);
+        x_pthread_mutex_lock(&conf->objsLock);
+        j = list_iterator_create(conf->objs);
+        while ((obj = list_next(j))) {
+            if (!is_console_obj(obj))
+                continue;
+            if (!regexec(&rex, obj->name, 1, &match, 0)
+              && (match.rm_so == 0)
+              && (match.rm_eo == (int) strlen(obj->name))
+              && !list_find_first(matches, (ListFindF) find_obj, obj))
+                list_append(matches, obj);
+        }
+        list_iterator_destroy(j);
+        x_pthread_mutex_unlock(&conf->objsLock);
+        regfree(&rex);
     }
     list_iterator_destroy(i);
-    x_pthread_mutex_unlock(&conf->objsLock);
-    regfree(&rex);
     return(0);
 }
 
-- 
2.43.0


From a92c91ca0d181b16518bb5501ccde88eb660661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 30/57] fix: reset list iterators when sorting a short list

list_sort() is documented to reset all iterators associated with the list,
but did not when the list held fewer than two items.
---
 src/list.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/list.c b/src/list.c
index b202995..5099296 100644
--- a/src/list.c
+++ b/src/list.c
@@ -356,12 +356,11 @@ void list_sort(List l, ListCmpF f)
             }
         }
         l->tail = pp;
-
-        for (i=l->iNext; i; i=i->iNext) {
-            assert(i->magic == LIST_MAGIC);
-            i->pos = i->list->head;
-            i->prev = &i->list->head;
-        }
+    }
+    for (i=l->iNext; i; i=i->iNext) {
+        assert(i->magic == LIST_MAGIC);
+        i->pos = i->list->head;
+        i->prev = &i->list->head;
     }
     list_mutex_unlock(&l->mutex);
     return;
-- 
2.43.0


From e3dd6ad47313feef6cd65c0e91f6083d9e05908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 31/57] fix: keep an iterator's last item when the next one is
 removed

Removing the item following the last one returned via an iterator (other
than through that iterator) made list_remove() and list_delete() on that
iterator do nothing.
---
 src/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/list.c b/src/list.c
index 5099296..d8c3c17 100644
--- a/src/list.c
+++ b/src/list.c
@@ -621,7 +621,7 @@ static void * list_node_destroy(List l, ListNode *pp)
     for (i=l->iNext; i; i=i->iNext) {
         assert(i->magic == LIST_MAGIC);
         if (i->pos == p)
-            i->pos = p->next, i->prev = pp;
+            i->pos = p->next;
         else if (i->prev == &p->next)
             i->prev = pp;
         assert((i->pos == *i->prev) || (i->pos == (*i->prev)->next));
-- 
2.43.0


From 17aff9a9d96aa08c12a8e0f86c18de1b56f8ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 32/57] fix: do not read past tpoll's fd_array in a debug
 message

---
 src/tpoll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 44ed7c1..58f9412 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -380,7 +380,7 @@ tpoll_is_set (tpoll_t tp, int fd, short int events)
         rc = tp->fd_array[ fd ].revents & events;
     }
     DPRINTF((21, "tpoll_is_set fd=%d e=0x%02x r=0x%02x rc=%d.\n",
-        fd, events, tp->fd_array[ fd ].revents, rc));
+        fd, events, (fd > tp->max_fd) ? 0 : tp->fd_array[ fd ].revents, rc));
     if ((e = pthread_mutex_unlock (&tp->mutex)) != 0) {
         log_err (errno = e, "Unable to unlock tpoll mutex");
     }
-- 
2.43.0


From f49bd113512efee6fef5723bc40c3df1fee151f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:49 +0000
Subject: [PATCH 33/57] fix: read a list item's data before unlocking the list

list_next() dereferenced the list node after releasing the mutex; another
thread could have removed (and reused) that node in the meantime.
---
 src/list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/list.c b/src/list.c
index d8c3c17..abb28d9 100644
--- a/src/list.c
+++ b/src/list.c
@@ -492,6 +492,7 @@ void list_iterator_destroy(ListIterator i)
 void * list_next(ListIterator i)
 {
     ListNode p;
+    void *v;
 
     assert(i != NULL);
     assert(i->magic == LIST_MAGIC);
@@ -501,8 +502,9 @@ void * list_next(ListIterator i)
         i->pos = p->next;
     if (*i->prev != p)
         i->prev = &(*i->prev)->next;
+    v = (p) ? p->data : NULL;
     list_mutex_unlock(&i->list->mutex);
-    return(p ? p->data : NULL);
+    return(v);
 }
 
 
-- 
2.43.0


From 0e8e28a0fb0f440bfc8971c4ef8a41ef81827d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 34/57] fix: allow an escaped newline in files using CR line
 endings

The lexer is documented to accept CR, LF, and CR/LF line endings, but a
backslash only escaped the latter two.
---
 src/lex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lex.c b/src/lex.c
index 667ec7b..4c5c6c7 100644
--- a/src/lex.c
+++ b/src/lex.c
@@ -203,6 +203,11 @@ int lex_next(Lex l)
                 l->line++;
                 break;
             }
+            else if (*(l->pos+1) == '\r') {
+                l->pos += 2;
+                l->line++;
+                break;
+            }
             /* fall-thru... whee! */
         default:
             if (isalpha((int)*l->pos) || (*l->pos == '_')) {
-- 
2.43.0


From 2d77890e8a52d760dc0abe5f065d04544a46737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 35/57] fix: reject a string consisting of a lone quote as
 unterminated

---
 src/util-str.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util-str.c b/src/util-str.c
index 2de4f0e..c35d0d9 100644
--- a/src/util-str.c
+++ b/src/util-str.c
@@ -145,6 +145,12 @@ int parse_string(char *src, char **dst_p, char **ptr_p, char *quote_p)
         *dst_p = *ptr_p = p;
         return(0);
     }
+    if (((*p == '"') || (*p == '\'')) && (*(p+1) == '\0')) {
+        errno = EIO;
+        *dst_p = p;
+        *ptr_p = p + 1;
+        return(-1);
+    }
     for (q = p+1; *q; q++) {
         if ((*p == '"') || (*p == '\'')) {
             if ((*q == *p) && (isspace((int) *(q+1)) || (*(q+1) == '\0'))) {
-- 
2.43.0


From 7ad7717a78f8b8298755d39347303f4e2a856fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 36/57] fix: do not read past an unterminated string when
 appending to it

---
 src/util-str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util-str.c b/src/util-str.c
index c35d0d9..b4b86cf 100644
--- a/src/util-str.c
+++ b/src/util-str.c
@@ -196,7 +196,7 @@ int append_format_string(char *dst, size_t size, const char *fmt, ...)
     }
     p = dst;
     num_left = size;
-    while ((*p != '\0') && (num_left > 0)) {
+    while ((num_left > 0) && (*p != '\0')) {
         p++;
         num_left--;
     }
-- 
2.43.0


From 98fbabef795b3fbab16681436bf19520ed8ee0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 37/57] fix: keep timestamps aligned after a daylight saving
 time change

---
 src/server.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index c649935..0889a7a 100644
--- a/src/server.c
+++ b/src/server.c
@@ -631,9 +631,11 @@ static void schedule_timestamp(server_conf_t *conf)
     /*
      *  If this is the first scheduled timestamp, compute the expiration time
      *    assuming timestamps have been scheduled regularly since midnight.
+     *    An interval that evenly divides the day is always computed this way
+     *    in order to stay aligned after a daylight saving time change.
      *  Otherwise, base it off of the previous timestamp.
      */
-    if (!conf->tStampNext) {
+    if (!conf->tStampNext || ((24 * 60) % conf->tStampMinutes == 0)) {
         numCompleted = ((tm.tm_hour * 60) + tm.tm_min) / conf->tStampMinutes;
         tm.tm_min = (numCompleted + 1) * conf->tStampMinutes;
         tm.tm_hour = 0;
@@ -642,6 +644,13 @@ static void schedule_timestamp(server_conf_t *conf)
         tm.tm_min += conf->tStampMinutes;
     }
     tm.tm_sec = 0;
+    /*
+     *  Intervals longer than an hour follow the wall clock across a daylight
+     *    saving time change.
+     */
+    if (conf->tStampMinutes > 60) {
+        tm.tm_isdst = -1;
+    }
 
     if ((t = mktime(&tm)) == ((time_t) -1)) {
         log_err(errno, "Unable to determine time of next logfile timestamp");
-- 
2.43.0


From fb457a6ee9059c7f7d219547ce7cef5567c07bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 38/57] fix: reject a console log name that is too long instead
 of truncating it

---
 src/server-conf.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 7fbc378..b0cb961 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -653,6 +653,12 @@ static void parse_console_directive(server_conf_t *conf, Lex l)
             else if (is_empty_string(lex_text(l))) {
                 replace_string(&con.log, "");
             }
+            else if ((lex_text(l)[0] != '/') && (conf->logDirName)
+                    && (strlen(conf->logDirName) + 1 + strlen(lex_text(l))
+                        >= MAX_LINE)) {
+                snprintf(err, sizeof(err),
+                    "exceeded max length for %s value", tokstr);
+            }
             else if ((lex_text(l)[0] != '/') && (conf->logDirName)) {
                 destroy_string(con.log);
                 con.log = create_format_string("%s/%s",
@@ -928,9 +934,13 @@ static int process_console(server_conf_t *conf, console_strs_t *con_p,
             strlcpy(buf, con_p->log, sizeof(buf));
         }
         else if ((conf->globalLogName[ 0 ] != '/') && (conf->logDirName)) {
-            snprintf(buf, sizeof(buf), "%s/%s",
-                conf->logDirName, conf->globalLogName);
-            buf[ sizeof(buf) - 1 ] = '\0';
+            if ((rc = snprintf(buf, sizeof(buf), "%s/%s", conf->logDirName,
+                    conf->globalLogName)) < 0 || rc >= (int) sizeof(buf)) {
+                snprintf(errbuf, errbuflen,
+                    "console [%s] log name exceeded max length",
+                    con_p->name);
+                goto err;
+            }
         }
         else {
             strlcpy(buf, conf->globalLogName, sizeof(buf));
-- 
2.43.0


From c6351dc158ca0fecbf3eba4153fe7db3d97f58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 39/57] fix: keep the timestamp interval when a later timestamp
 value is invalid

An erroneous 'server timestamp' value reset the interval to zero, thereby
undoing a valid timestamp value set on a previous line.
---
 src/server-conf.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index b0cb961..609d75c 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -1435,36 +1435,37 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
                     "invalid %s value %d", tokstr, n);
             }
             else {
-                conf->tStampMinutes = n;
                 if ((lex_next(l) == LEX_EOF) || (lex_prev(l) == LEX_EOL)) {
                     done = 1;
                 }
                 else if (lex_prev(l) == LEX_STR) {
                     if (lex_text(l)[1] != '\0') {
-                        conf->tStampMinutes = -1;
+                        n = -1;
                     }
                     else if (lex_text(l)[0] == 'm' || lex_text(l)[0] == 'M') {
                         ; /* no-op */
                     }
                     else if (lex_text(l)[0] == 'h' || lex_text(l)[0] == 'H') {
-                        conf->tStampMinutes *= 60;
+                        n *= 60;
                     }
                     else if (lex_text(l)[0] == 'd' || lex_text(l)[0] == 'D') {
-                        conf->tStampMinutes *= 60 * 24;
+                        n *= 60 * 24;
                     }
                     else {
-                        conf->tStampMinutes = -1;
+                        n = -1;
                     }
                 }
                 else {
-                    conf->tStampMinutes = -1;
+                    n = -1;
                 }
 
-                if (conf->tStampMinutes < 0) {
-                    conf->tStampMinutes = 0;
+                if (n < 0) {
                     snprintf(err, sizeof(err),
                         "expected (m|d|h) qualifier for %s value", tokstr);
                 }
+                else {
+                    conf->tStampMinutes = n;
+                }
             }
             break;
 
-- 
2.43.0


From b152c5534ec973ecfe4133aa9b0eebc78975589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 40/57] fix: do not lose processed console log data that
 outgrows the log buffer

Timestamping (and sanitizing) can expand the data of a single console read
beyond the size of the logfile obj's buffer, overwriting data that has not
been written yet.
---
 src/server-logfile.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 433ddb6..d718fde 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -41,6 +41,9 @@
 #include "util-file.h"
 #include "util-str.h"
 
+static int write_processed_data(
+    obj_t *log, const void *src, int len, int num);
+
 extern tpoll_t tp_global;               /* defined in server.c */
 
 
@@ -458,11 +461,27 @@ int write_log_data(obj_t *log, const void *src, int len)
          */
         if ((qLast - q) < minbuf) {
             assert((q >= buf) && (q <= qLast));
-            n += write_obj_data(log, buf, q - buf, 0);
+            n += write_processed_data(log, buf, q - buf, n);
             q = buf;
         }
     }
     assert((q >= buf) && (q <= qLast));
-    n += write_obj_data(log, buf, q - buf, 0);
+    n += write_processed_data(log, buf, q - buf, n);
     return(n);
 }
+
+
+static int write_processed_data(obj_t *log, const void *src, int len, int num)
+{
+/*  Writes the processed buffer (src) of length (len) into the logfile obj (log)
+ *    after (num) bytes have already been written by the same write_log_data().
+ *  Processing can expand data beyond what the logfile obj's buffer can hold,
+ *    so write out its pending data first once more has been produced than
+ *    a single read from the console would have without any processing.
+ *  Returns the number of bytes written into the logfile obj's buffer.
+ */
+    if (num + len >= OBJ_BUF_SIZE / 2) {
+        (void) write_to_obj(log);
+    }
+    return(write_obj_data(log, src, len, 0));
+}
-- 
2.43.0


From 77052dac93a5ad06e9b331f2af4c2ecdb67bbc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 41/57] fix: kill what remains of a timed out reset after its
 shell has exited

---
 src/server-esc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-esc.c b/src/server-esc.c
index f32cbe6..9eaee27 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -557,7 +557,7 @@ static void kill_reset_cmd(obj_t *console)
     if (pid <= 0) {
         return;
     }
-    if (kill(pid, 0) < 0) {             /* process is no longer running */
+    if (kill(-pid, 0) < 0) {            /* process group has ended */
         return;
     }
     if (kill(-pid, SIGKILL) == 0) {     /* kill entire process group */
-- 
2.43.0


From 150f62f9f3fa92634194fbe0233707b2d52cb48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 42/57] fix: hold the objs lock while dispatching timers

Client threads connect consoles (on behalf of a client attaching to a
disconnected console) while holding the objs lock, but the reconnect
timers for these same consoles were dispatched without it.  If both
occurred at the same time, a process console could be started twice
(with the first process never being terminated), or a descriptor could
be lost while still registered with tpoll (causing the event loop to
spin).
---
 src/server.c |  4 +++-
 src/tpoll.c  | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 src/tpoll.h  |  3 +++
 3 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 0889a7a..5c9bd0e 100644
--- a/src/server.c
+++ b/src/server.c
@@ -840,8 +840,10 @@ static void mux_io(server_conf_t *conf)
 
     /*  The lock is only released while waiting for events, and is retained
      *    upon return.  This prevents client threads from using objects while
-     *    they are being destroyed.
+     *    they are being destroyed.  Timers are also dispatched while holding
+     *    this lock since both they and client threads (re)connect consoles.
      */
+    (void) tpoll_set_timer_mutex(conf->tp, &conf->objsLock);
     x_pthread_mutex_lock(&conf->objsLock);
 
     while (!done) {
diff --git a/src/tpoll.c b/src/tpoll.c
index 58f9412..f3d0803 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -94,6 +94,7 @@ struct tpoll {
     _tpoll_timer_t   timers_active;     /* sorted list of active timers      */
     int              timers_next_id;    /* next id to be assigned to a timer */
     pthread_mutex_t  mutex;             /* locking primitive                 */
+    pthread_mutex_t *timer_mutex;       /* mutex held while dispatching timer*/
     bool             is_blocked;        /* flag set when blocking on poll()  */
     bool             is_signaled;       /* flag set when fd_pipe is signaled */
     bool             is_mutex_inited;   /* flag set when mutex initialized   */
@@ -160,6 +161,7 @@ tpoll_create (int n)
     tp->timers_active = NULL;
     tp->is_blocked = false;
     tp->is_signaled = false;
+    tp->timer_mutex = NULL;
     tp->is_mutex_inited = false;
 
     if (pipe (tp->fd_pipe) < 0) {
@@ -566,6 +568,31 @@ tpoll_timeout_cancel (tpoll_t tp, int id)
 }
 
 
+int
+tpoll_set_timer_mutex (tpoll_t tp, pthread_mutex_t *mutex)
+{
+/*  Sets the [mutex] to be held by tpoll() while dispatching a timer event;
+ *    NULL specifies no mutex.  This mutex must not be held when tpoll() is
+ *    called, and must not be locked by a timer callback.
+ *  Returns 0 on success, or -1 on error.
+ */
+    int e;
+
+    if (!tp) {
+        errno = EINVAL;
+        return (-1);
+    }
+    if ((e = pthread_mutex_lock (&tp->mutex)) != 0) {
+        log_err (errno = e, "Unable to lock tpoll mutex");
+    }
+    tp->timer_mutex = mutex;
+    if ((e = pthread_mutex_unlock (&tp->mutex)) != 0) {
+        log_err (errno = e, "Unable to unlock tpoll mutex");
+    }
+    return (0);
+}
+
+
 int
 tpoll (tpoll_t tp, int ms)
 {
@@ -612,6 +639,31 @@ tpoll (tpoll_t tp, int ms)
         while (tp->timers_active
                 && !timercmp (&tp->timers_active->tv, &tv_now, >)) {
 
+            /*
+             *  Acquire the caller's mutex, if any, before removing the timer
+             *    so it can still be canceled by whomever holds that mutex.
+             *  Since it must be locked ahead of the tpoll mutex, the timer at
+             *    the head of the list needs to be re-checked afterwards.
+             */
+            if (tp->timer_mutex) {
+                if ((e = pthread_mutex_unlock (&tp->mutex)) != 0) {
+                    log_err (errno = e, "Unable to unlock tpoll mutex");
+                }
+                if ((e = pthread_mutex_lock (tp->timer_mutex)) != 0) {
+                    log_err (errno = e, "Unable to lock tpoll timer mutex");
+                }
+                if ((e = pthread_mutex_lock (&tp->mutex)) != 0) {
+                    log_err (errno = e, "Unable to lock tpoll mutex");
+                }
+                if (!tp->timers_active
+                        || timercmp (&tp->timers_active->tv, &tv_now, >)) {
+                    if ((e = pthread_mutex_unlock (tp->timer_mutex)) != 0) {
+                        log_err (errno = e,
+                            "Unable to unlock tpoll timer mutex");
+                    }
+                    break;
+                }
+            }
             t = tp->timers_active;
             tp->timers_active = t->next;
             DPRINTF((22, "tpoll timer dispatch id=%d.\n", t->id));
@@ -625,6 +677,11 @@ tpoll (tpoll_t tp, int ms)
             t->fnc (t->arg);
             free (t);
 
+            if (tp->timer_mutex) {
+                if ((e = pthread_mutex_unlock (tp->timer_mutex)) != 0) {
+                    log_err (errno = e, "Unable to unlock tpoll timer mutex");
+                }
+            }
             if ((e = pthread_mutex_lock (&tp->mutex)) != 0) {
                 log_err (errno = e, "Unable to lock tpoll mutex");
             }
diff --git a/src/tpoll.h b/src/tpoll.h
index 373da4d..328d2fa 100644
--- a/src/tpoll.h
+++ b/src/tpoll.h
@@ -26,6 +26,7 @@
 #define _TPOLL_H
 
 #include <poll.h>
+#include <pthread.h>
 #include <sys/time.h>
 
 
@@ -76,6 +77,8 @@ int tpoll_timeout_relative (tpoll_t tp, callback_f cb, void *arg, int ms);
 
 int tpoll_timeout_cancel (tpoll_t tp, int id);
 
+int tpoll_set_timer_mutex (tpoll_t tp, pthread_mutex_t *mutex);
+
 int tpoll (tpoll_t tp, int ms);
 
 
-- 
2.43.0


From b826543eb28138d920f07708a2dc1b075ddce2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 43/57] fix: serialize access checks via TCP-Wrappers

hosts_ctl() is not thread-safe, so concurrent clients could be given each
other's access decisions.
---
 src/server-sock.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index 6cc73d2..5576a37 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -168,6 +168,10 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
     char buf[MAX_LINE];
     char *p;
     int gotHostName = 0;
+#if WITH_TCP_WRAPPERS
+    static pthread_mutex_t hosts_ctl_lock = PTHREAD_MUTEX_INITIALIZER;
+    int rc;
+#endif /* WITH_TCP_WRAPPERS */
 
     assert(sd >= 0);
 
@@ -201,12 +205,16 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
 
 #if WITH_TCP_WRAPPERS
     /*
-     *  Check via TCP-Wrappers.
+     *  Check via TCP-Wrappers.  Since hosts_ctl() is not thread-safe,
+     *    it must not be called by more than one client thread at a time.
      */
     if (conf->enableTCPWrap) {
-        if (hosts_ctl(CONMAN_DAEMON_NAME,
-          (gotHostName ? req->fqdn : STRING_UNKNOWN),
-          req->ip, STRING_UNKNOWN) == 0) {
+        x_pthread_mutex_lock(&hosts_ctl_lock);
+        rc = hosts_ctl(CONMAN_DAEMON_NAME,
+            (gotHostName ? req->fqdn : STRING_UNKNOWN),
+            req->ip, STRING_UNKNOWN);
+        x_pthread_mutex_unlock(&hosts_ctl_lock);
+        if (rc == 0) {
             log_msg(LOG_NOTICE,
                 "TCP-Wrappers rejected connection from <%s:%d>",
                 req->fqdn, req->port);
-- 
2.43.0


From 2740e7bf47d5a8d797e58d25ad487b218e83f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 44/57] fix: do not disconnect a unix socket console due to a
 stale inotify event

A queued event for the socket a console has just connected to disconnected it
again.  And a console whose socket was replaced was only reconnected after the
backoff delay instead of immediately.
---
 src/server-unixsock.c | 31 +++++++++++++++++++++++++++++++
 src/server.h          |  3 +++
 2 files changed, 34 insertions(+)

diff --git a/src/server-unixsock.c b/src/server-unixsock.c
index 72fabc9..62d38e9 100644
--- a/src/server-unixsock.c
+++ b/src/server-unixsock.c
@@ -46,6 +46,7 @@
 
 
 static int open_unixsock_obj_via_inotify(obj_t *unixsock);
+static int is_same_sock(const unixsock_obj_t *auxp, const struct stat *stp);
 static size_t max_unixsock_dev_strlen(void);
 static int connect_unixsock_obj(obj_t *unixsock);
 static int disconnect_unixsock_obj(obj_t *unixsock);
@@ -143,6 +144,9 @@ obj_t * create_unixsock_obj(server_conf_t *conf, char *name, char *dev,
     unixsock->aux.unixsock.state = CONMAN_UNIXSOCK_DOWN;
     unixsock->aux.unixsock.isViaInotify = 0;
     unixsock->aux.unixsock.delay = UNIXSOCK_MIN_TIMEOUT;
+    unixsock->aux.unixsock.sockDev = 0;
+    unixsock->aux.unixsock.sockIno = 0;
+    unixsock->aux.unixsock.sockCtime = 0;
     /*
      *  Add obj to the master conf->objs list.
      */
@@ -185,17 +189,41 @@ static int open_unixsock_obj_via_inotify(obj_t *unixsock)
  *  Returns 0 if the console is successfully opened; o/w, returns -1.
  */
     unixsock_obj_t *auxp;
+    struct stat     st;
 
     assert(unixsock != NULL);
     assert(is_unixsock_obj(unixsock));
 
     auxp = &(unixsock->aux.unixsock);
+
+    /*  If already connected, this event may have been queued before the
+     *    connection to this same socket was established.  O/w, the socket has
+     *    since been replaced so reconnect to the new one.  In either case,
+     *    reset the reconnect delay to its minimum.
+     */
+    if (auxp->state == CONMAN_UNIXSOCK_UP) {
+        auxp->delay = UNIXSOCK_MIN_TIMEOUT;
+        if ((stat(auxp->dev, &st) < 0) || is_same_sock(auxp, &st)) {
+            return(0);
+        }
+    }
     auxp->isViaInotify = 1;
 
     return(open_unixsock_obj(unixsock));
 }
 
 
+static int is_same_sock(const unixsock_obj_t *auxp, const struct stat *stp)
+{
+/*  Returns non-zero if the file status (stp) is that of the socket to which
+ *    the unixsock obj was last connected; o/w, returns zero.
+ */
+    return((auxp->sockDev == stp->st_dev)
+        && (auxp->sockIno == stp->st_ino)
+        && (auxp->sockCtime == stp->st_ctime));
+}
+
+
 static size_t max_unixsock_dev_strlen(void)
 {
 /*  Returns the maximum string length allowed for a unix domain device.
@@ -297,6 +325,9 @@ static int connect_unixsock_obj(obj_t *unixsock)
      *    same local socket.
      */
     unixsock->gotEOF = 0;
+    auxp->sockDev = st.st_dev;
+    auxp->sockIno = st.st_ino;
+    auxp->sockCtime = st.st_ctime;
     auxp->state = CONMAN_UNIXSOCK_UP;
     tpoll_set(tp_global, unixsock->fd, POLLIN | POLLOUT);
 
diff --git a/src/server.h b/src/server.h
index be86bac..64420d7 100644
--- a/src/server.h
+++ b/src/server.h
@@ -185,6 +185,9 @@ typedef struct unixsock_obj {           /* UNIXSOCK AUX OBJ DATA:            */
     struct base_obj *logfile;           /*  log obj ref for console replay   */
     int              timer;             /*  timer id for reconnects          */
     int              delay;             /*  secs 'til next reconnect attempt */
+    dev_t            sockDev;           /*  device ID of connected socket    */
+    ino_t            sockIno;           /*  inode number of connected socket */
+    time_t           sockCtime;         /*  status time of connected socket  */
     unsigned         state:1;           /*  unixsock_state_t conn state      */
     unsigned         isViaInotify:1;    /*  true if triggered via inotify    */
 } unixsock_obj_t;
-- 
2.43.0


From 37b1b671afb8ab5b8b70988977bf9e753110ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:21 +0000
Subject: [PATCH 45/57] fix: reject malformed seropts

An options string that did not start with an integer was silently ignored, and
anything following the recognized fields was too.  Values out of range for an
int were truncated.
---
 src/server-serial.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/server-serial.c b/src/server-serial.c
index 89fff1f..7a671b2 100644
--- a/src/server-serial.c
+++ b/src/server-serial.c
@@ -85,7 +85,7 @@ static bps_tag_t bps_table[] = {        /* values are in increasing order */
 };
 
 
-static speed_t int_to_bps(int val);
+static speed_t int_to_bps(long val);
 #ifndef NDEBUG
 static int bps_to_int(speed_t bps);
 static const char * parity_to_str(int parity);
@@ -130,9 +130,12 @@ int parse_serial_opts(
  *    (writing an error message into 'errbuf' if defined).
  */
     int n;
+    int len[4];
     seropt_t optsTmp;
-    int bpsTmp;
+    long bpsTmp;
+    long databitsTmp;
     char parityTmp;
+    long stopbitsTmp;
 
     assert(opts != NULL);
 
@@ -148,8 +151,8 @@ int parse_serial_opts(
         return(-1);
     }
 
-    n = sscanf(str, "%d,%d%c%d", &bpsTmp, &optsTmp.databits,
-        &parityTmp, &optsTmp.stopbits);
+    n = sscanf(str, "%ld%n,%ld%n%c%n%ld%n", &bpsTmp, &len[0],
+        &databitsTmp, &len[1], &parityTmp, &len[2], &stopbitsTmp, &len[3]);
 
     if (n >= 1) {
         optsTmp.bps = int_to_bps(bpsTmp);
@@ -161,12 +164,13 @@ int parse_serial_opts(
         }
     }
     if (n >= 2) {
-        if ((optsTmp.databits < 5) || (optsTmp.databits > 8)) {
+        if ((databitsTmp < 5) || (databitsTmp > 8)) {
             if ((errbuf != NULL) && (errlen > 0))
                 snprintf(errbuf, errlen,
                     "expected INTEGER 5-8 for databits setting");
             return(-1);
         }
+        optsTmp.databits = databitsTmp;
     }
     if (n >= 3) {
         switch(parityTmp) {
@@ -191,12 +195,19 @@ int parse_serial_opts(
         }
     }
     if (n >= 4) {
-        if ((optsTmp.stopbits < 1) || (optsTmp.stopbits > 2)) {
+        if ((stopbitsTmp < 1) || (stopbitsTmp > 2)) {
             if ((errbuf != NULL) && (errlen > 0))
                 snprintf(errbuf, errlen,
                     "expected INTEGER 1-2 for stopbits setting");
             return(-1);
         }
+        optsTmp.stopbits = stopbitsTmp;
+    }
+    if ((n < 1) || (str[len[n - 1]] != '\0')) {
+        if ((errbuf != NULL) && (errlen > 0))
+            snprintf(errbuf, errlen,
+                "expected \"bps[,databits[parity[stopbits]]]\"");
+        return(-1);
     }
 
     *opts = optsTmp;
@@ -204,7 +215,7 @@ int parse_serial_opts(
 }
 
 
-static speed_t int_to_bps(int val)
+static speed_t int_to_bps(long val)
 {
 /*  Converts a numeric value 'val' into a bps speed_t,
  *    rounding down to the next bps value if necessary.
-- 
2.43.0


From 10095b49f2f921f00b68ba1dd8a4f5344eeb55af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:21 +0000
Subject: [PATCH 46/57] fix: pass CR, NL, and 0xFF unchanged through a tty in
 raw mode

Input translations already enabled on the tty were left on.
---
 src/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 2ab3899..404a3d9 100644
--- a/src/common.c
+++ b/src/common.c
@@ -183,10 +183,12 @@ void get_tty_raw(struct termios *tty, int fd)
 
     get_tty_mode(tty, fd);
 
-    /*  Disable SIGINT on BREAK, CR-to-NL, input parity check,
+    /*  Disable SIGINT on BREAK, CR-to-NL, NL-to-CR, ignoring CR,
+     *    input parity check, marking parity errors (which doubles \377 chars),
      *    stripping 8th bit on input, and output flow control.
      */
-    tty->c_iflag &= ~(BRKINT | ICRNL | INPCK | ISTRIP | IXON);
+    tty->c_iflag &=
+        ~(BRKINT | ICRNL | IGNCR | INLCR | INPCK | ISTRIP | IXON | PARMRK);
 
     /*  Disable output processing.
      */
-- 
2.43.0


From ce3b4eede8f88f03c434dc91b5b4cb1fe4763b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:31 +0000
Subject: [PATCH 47/57] fix: restore a serial console's tty settings when
 closing it upon an error

The raw mode was otherwise taken for the initial settings upon reopening the
device, and was what the tty was left with when the daemon exited.
---
 src/server-obj.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 66d82e4..a66e1c7 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -885,6 +885,9 @@ int shutdown_obj(obj_t *obj)
     /*  Close the existing connection.
      */
     tpoll_clear(tp_global, obj->fd, POLLIN | POLLOUT);
+    if (is_serial_obj(obj)) {
+        set_tty_mode(&obj->aux.serial.tty, obj->fd);
+    }
     if (close(obj->fd) < 0) {
         log_msg(LOG_WARNING, "Unable to close [%s] during shutdown: %s",
             obj->name, strerror(errno));
-- 
2.43.0


From ddf882624325e237bef63aa975e14a1cf29d947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:31 +0000
Subject: [PATCH 48/57] fix: do not exit when the settings of a serial console
 cannot be changed

---
 src/common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 404a3d9..50bc815 100644
--- a/src/common.c
+++ b/src/common.c
@@ -29,6 +29,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <stdlib.h>
+#include <string.h>
 #include <termios.h>
 #include <unistd.h>
 #include "common.h"
@@ -167,7 +168,8 @@ void set_tty_mode(struct termios *tty, int fd)
     if (!isatty(fd))
         return;
     if (tcsetattr(fd, TCSAFLUSH, tty) < 0)
-        log_err(errno, "tcgetattr() failed on fd=%d", fd);
+        log_msg(LOG_WARNING, "tcsetattr() failed on fd=%d: %s",
+            fd, strerror(errno));
     return;
 }
 
-- 
2.43.0


From 40b66d6a699bd5408ec839130a0ac578e195c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:57 +0000
Subject: [PATCH 49/57] fix: do not destroy objects still used by client
 threads when exiting

---
 src/server-sock.c | 98 ++++++++++++++++++++++++++++++++++++++++++++---
 src/server.c      | 12 ++++--
 src/server.h      |  2 +
 3 files changed, 102 insertions(+), 10 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index 5576a37..55f0814 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -85,6 +85,15 @@ static int perform_query_cmd(req_t *req);
 static int perform_monitor_cmd(req_t *req, server_conf_t *conf);
 static int perform_connect_cmd(req_t *req, server_conf_t *conf);
 static void check_console_state(obj_t *console, obj_t *client);
+static void enter_client(void);
+static void leave_client(void);
+static int read_client(req_t *req, void *buf, size_t len);
+static int write_client(req_t *req, const char *buf);
+
+/*  Client threads hold this lock for reading except while they can block on
+ *    the network.  It is acquired for writing by halt_clients().
+ */
+static pthread_rwlock_t clients_lock = PTHREAD_RWLOCK_INITIALIZER;
 
 
 void process_client(client_arg_t *args)
@@ -111,6 +120,8 @@ void process_client(client_arg_t *args)
 
     x_pthread_detach(pthread_self());
 
+    enter_client();
+
     req = create_req();
 
     if (resolve_addr(conf, req, sd) < 0)
@@ -149,14 +160,84 @@ void process_client(client_arg_t *args)
             req->command, req->user, req->fqdn, req->port);
         goto err;
     }
+    leave_client();
     return;
 
 err:
     destroy_req(req);
+    leave_client();
+    return;
+}
+
+
+void halt_clients(void)
+{
+/*  Halts all client threads.  Upon return, none of them is using the
+ *    server_conf or any of its objects, and none of them will do so again.
+ *  The conf->objsLock must not be held by the caller.
+ */
+    int rc;
+
+    if ((rc = pthread_rwlock_wrlock(&clients_lock)) != 0) {
+        log_msg(LOG_WARNING, "Unable to halt client threads: %s",
+            strerror(rc));
+    }
+    return;
+}
+
+
+static void enter_client(void)
+{
+    int rc;
+
+    if ((rc = pthread_rwlock_rdlock(&clients_lock)) != 0) {
+        log_err(rc, "Unable to lock client thread");
+    }
     return;
 }
 
 
+static void leave_client(void)
+{
+/*  Called by a client thread before an operation that can block.
+ */
+    int rc;
+
+    if ((rc = pthread_rwlock_unlock(&clients_lock)) != 0) {
+        log_err(rc, "Unable to unlock client thread");
+    }
+    return;
+}
+
+
+static int read_client(req_t *req, void *buf, size_t len)
+{
+    int n;
+    int errno_bak;
+
+    leave_client();
+    n = read_line(req->sd, buf, len);
+    errno_bak = errno;
+    enter_client();
+    errno = errno_bak;
+    return(n);
+}
+
+
+static int write_client(req_t *req, const char *buf)
+{
+    int n;
+    int errno_bak;
+
+    leave_client();
+    n = write_n(req->sd, (void *) buf, strlen(buf));
+    errno_bak = errno;
+    enter_client();
+    errno = errno_bak;
+    return(n);
+}
+
+
 static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
 {
 /*  Resolves the network information associated with the
@@ -191,7 +272,10 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
      *    Either way, copy buf to prevent having to code everything as
      *    (req->host ? req->host : req->ip).
      */
-    if ((host_addr4_to_name(&addr.sin_addr, buf, sizeof(buf)))) {
+    leave_client();
+    p = host_addr4_to_name(&addr.sin_addr, buf, sizeof(buf));
+    enter_client();
+    if (p != NULL) {
         gotHostName = 1;
         req->fqdn = create_string(buf);
         if ((p = strchr(buf, '.')))
@@ -209,11 +293,13 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
      *    it must not be called by more than one client thread at a time.
      */
     if (conf->enableTCPWrap) {
+        leave_client();
         x_pthread_mutex_lock(&hosts_ctl_lock);
         rc = hosts_ctl(CONMAN_DAEMON_NAME,
             (gotHostName ? req->fqdn : STRING_UNKNOWN),
             req->ip, STRING_UNKNOWN);
         x_pthread_mutex_unlock(&hosts_ctl_lock);
+        enter_client();
         if (rc == 0) {
             log_msg(LOG_NOTICE,
                 "TCP-Wrappers rejected connection from <%s:%d>",
@@ -243,7 +329,7 @@ static int recv_greeting(req_t *req)
 
     assert(req->sd >= 0);
 
-    if ((n = read_line(req->sd, buf, sizeof(buf))) < 0) {
+    if ((n = read_client(req, buf, sizeof(buf))) < 0) {
         log_msg(LOG_NOTICE, "Unable to read greeting from <%s:%d>: %s",
             req->fqdn, req->port, strerror(errno));
         return(-1);
@@ -340,7 +426,7 @@ static int recv_req(req_t *req)
 
     assert(req->sd >= 0);
 
-    if ((n = read_line(req->sd, buf, sizeof(buf))) < 0) {
+    if ((n = read_client(req, buf, sizeof(buf))) < 0) {
         log_msg(LOG_NOTICE, "Unable to read request from <%s:%d>: %s",
             req->fqdn, req->port, strerror(errno));
         return(-1);
@@ -620,7 +706,7 @@ static int check_too_many_consoles(req_t *req)
     while ((obj = list_next(i))) {
         strlcpy(buf, obj->name, sizeof(buf));
         strlcat(buf, "\n", sizeof(buf));
-        if (write_n(req->sd, buf, strlen(buf)) < 0) {
+        if (write_client(req, buf) < 0) {
             log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
                 req->fqdn, req->port, strerror(errno));
             break;
@@ -724,7 +810,7 @@ static void send_busy_rsp(req_t *req, List msgs, int numBusy)
 
     i = list_iterator_create(msgs);
     while ((msg = list_next(i))) {
-        if (write_n(req->sd, msg, strlen(msg)) < 0) {
+        if (write_client(req, msg) < 0) {
             log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
                 req->fqdn, req->port, strerror(errno));
             break;
@@ -813,7 +899,7 @@ static int send_rsp(req_t *req, int errnum, char *errmsg)
 
     /*  Write response to client.
      */
-    if (write_n(req->sd, buf, strlen(buf)) < 0) {
+    if (write_client(req, buf) < 0) {
         log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
             req->fqdn, req->port, strerror(errno));
         return(-1);
diff --git a/src/server.c b/src/server.c
index 5c9bd0e..f6a9e73 100644
--- a/src/server.c
+++ b/src/server.c
@@ -838,10 +838,9 @@ static void mux_io(server_conf_t *conf)
 
     i = list_iterator_create(conf->objs);
 
-    /*  The lock is only released while waiting for events, and is retained
-     *    upon return.  This prevents client threads from using objects while
-     *    they are being destroyed.  Timers are also dispatched while holding
-     *    this lock since both they and client threads (re)connect consoles.
+    /*  The lock is only released while waiting for events.
+     *    Timers are also dispatched while holding this lock since
+     *    both they and client threads (re)connect consoles.
      */
     (void) tpoll_set_timer_mutex(conf->tp, &conf->objsLock);
     x_pthread_mutex_lock(&conf->objsLock);
@@ -909,6 +908,11 @@ static void mux_io(server_conf_t *conf)
     }
     log_msg(LOG_NOTICE, "Exiting on signal=%d", done);
     list_iterator_destroy(i);
+    x_pthread_mutex_unlock(&conf->objsLock);
+
+    /*  Client threads must not use objects while they are being destroyed.
+     */
+    halt_clients();
     return;
 }
 
diff --git a/src/server.h b/src/server.h
index 64420d7..246e9b9 100644
--- a/src/server.h
+++ b/src/server.h
@@ -501,6 +501,8 @@ int open_serial_obj(obj_t *serial);
  */
 void process_client(client_arg_t *args);
 
+void halt_clients(void);
+
 
 /*  server-telnet.c
  */
-- 
2.43.0


From 6449faa577cce2640112e9a98664612c98f8d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 50/57] fix: reject a greeting with a user name that is empty
 once decoded

---
 src/server-sock.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index 55f0814..2758b12 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -361,7 +361,8 @@ static int recv_greeting(req_t *req)
 
     /*  Validate greeting.
      */
-    if (!req->user) {
+    if (!req->user || (req->user[0] == '\0')) {
+        free(req->user);
         req->user = create_string("unknown");
         send_rsp(req, CONMAN_ERR_BAD_REQUEST,
             "Invalid greeting: no user specified");
-- 
2.43.0


From 4dfe5059fa478610255b68571d2219491e0c0529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:30 +0000
Subject: [PATCH 51/57] fix: report a connection closed by the server before
 the request was sent

A client that writes its greeting or request to a connection which the
server has already closed was killed by SIGPIPE without a diagnostic.
---
 src/client-sock.c | 7 +++++++
 src/client.c      | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/client-sock.c b/src/client-sock.c
index 1d66111..6e0c51f 100644
--- a/src/client-sock.c
+++ b/src/client-sock.c
@@ -30,6 +30,7 @@
 #include <errno.h>
 #include <sys/types.h>                  /* include before in.h for bsd */
 #include <netinet/in.h>
+#include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -42,6 +43,7 @@
 #include "util-file.h"
 #include "util-net.h"
 #include "util-str.h"
+#include "util.h"
 
 
 static void parse_rsp_ok(Lex l, client_conf_t *conf);
@@ -83,6 +85,11 @@ int connect_to_server(client_conf_t *conf)
         conf->req->host = create_string(buf);
     }
 
+    /*  A connection closed by the server is noted by the failure of the next
+     *    write or read.
+     */
+    posix_signal(SIGPIPE, SIG_IGN);
+
     if (connect(sd, (struct sockaddr *) &saddr, sizeof(saddr)) < 0) {
         conf->errnum = CONMAN_ERR_LOCAL;
         conf->errmsg = create_format_string(
diff --git a/src/client.c b/src/client.c
index c9aa469..1f13351 100644
--- a/src/client.c
+++ b/src/client.c
@@ -26,10 +26,12 @@
 #  include <config.h>
 #endif /* HAVE_CONFIG_H */
 
+#include <signal.h>
 #include <unistd.h>
 #include "client.h"
 #include "common.h"
 #include "log.h"
+#include "util.h"
 
 
 int main(int argc, char *argv[])
@@ -55,8 +57,10 @@ int main(int argc, char *argv[])
         display_error(conf);
     else if (recv_rsp(conf) < 0)
         display_error(conf);
-    else if (conf->req->command == CONMAN_CMD_QUERY)
+    else if (conf->req->command == CONMAN_CMD_QUERY) {
+        posix_signal(SIGPIPE, SIG_DFL);
         display_consoles(conf, STDOUT_FILENO);
+    }
     else if ((conf->req->command == CONMAN_CMD_CONNECT)
       || (conf->req->command == CONMAN_CMD_MONITOR))
         connect_console(conf);
-- 
2.43.0


From e56f6768847190932cbacd97d1d140c59ed87ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:30 +0000
Subject: [PATCH 52/57] fix: list consoles whose name is of the maximum length

The query result needs room for the newline as well, without which the
client gave up at such a name and omitted all those following it.
---
 src/client-sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client-sock.c b/src/client-sock.c
index 6e0c51f..a1d6e4b 100644
--- a/src/client-sock.c
+++ b/src/client-sock.c
@@ -444,7 +444,7 @@ void display_consoles(client_conf_t *conf, int fd)
 {
     ListIterator i;
     char *p;
-    char buf[MAX_LINE];
+    char buf[MAX_LINE + 1];             /* longest name, newline, and NUL */
     int n;
 
     i = list_iterator_create(conf->req->consoles);
-- 
2.43.0


From 306e42fba8d75a74243a84c740bd078f734b8676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:47 +0000
Subject: [PATCH 53/57] fix: restore the terminal when the client exits because
 of an error

An error during the session, such as a connection reset by the server or a
log that cannot be written, left the terminal in raw mode.
---
 src/client-tty.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/client-tty.c b/src/client-tty.c
index 037e841..8e81197 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -43,6 +43,7 @@
 #include "util.h"
 
 
+static void restore_tty(void);
 static void exit_handler(int signum);
 static int read_from_stdin(client_conf_t *conf);
 static int write_to_stdout(client_conf_t *conf);
@@ -66,6 +67,8 @@ static void locally_display_status(client_conf_t *conf, char *msg);
 
 static int done = 0;
 
+static struct termios *saved_tty = NULL;
+
 
 void connect_console(client_conf_t *conf)
 {
@@ -101,6 +104,9 @@ void connect_console(client_conf_t *conf)
 
     get_tty_mode(&conf->tty, STDIN_FILENO);
     get_tty_raw(&tty, STDIN_FILENO);
+    saved_tty = &conf->tty;
+    if (atexit(restore_tty) != 0)
+        log_err(0, "Unable to register exit handler");
     set_tty_mode(&tty, STDIN_FILENO);
 
     locally_display_status(conf, "opened");
@@ -138,11 +144,22 @@ void connect_console(client_conf_t *conf)
     if (!conf->isClosedByClient)
         locally_display_status(conf, "terminated by server");
 
+    saved_tty = NULL;
     set_tty_mode(&conf->tty, STDIN_FILENO);
     return;
 }
 
 
+static void restore_tty(void)
+{
+/*  Restores the terminal if the client exits while connected to a console.
+ */
+    if (saved_tty)
+        set_tty_mode(saved_tty, STDIN_FILENO);
+    return;
+}
+
+
 static void exit_handler(int signum)
 {
 /*  Exit-handler to break out of while-loop in connect_console().
-- 
2.43.0


From ac7a6e441bc13cfff7cbabac10161560a925d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:47 +0000
Subject: [PATCH 54/57] fix: recognize an escape character with its high bit
 set

The signed escape character was never equal to the unsigned input.
---
 src/client-conf.c | 4 ++--
 src/client-tty.c  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client-conf.c b/src/client-conf.c
index 5dcff38..c9ba60c 100644
--- a/src/client-conf.c
+++ b/src/client-conf.c
@@ -145,7 +145,7 @@ void process_client_env_vars(client_conf_t *conf)
             conf->req->port = i;
     }
     if ((p = getenv("CONMAN_ESCAPE")) && (*p)) {
-        conf->escapeChar = p[0];
+        conf->escapeChar = (unsigned char) p[0];
     }
     return;
 }
@@ -180,7 +180,7 @@ void process_client_cmd_line(int argc, char *argv[], client_conf_t *conf)
             }
             break;
         case 'e':
-            conf->escapeChar = optarg[0];
+            conf->escapeChar = (unsigned char) optarg[0];
             break;
         case 'f':
             conf->req->enableForce = 1;
diff --git a/src/client-tty.c b/src/client-tty.c
index 8e81197..2293e85 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -179,7 +179,7 @@ static int read_from_stdin(client_conf_t *conf)
     static enum { CHR, EOL, ESC } mode = EOL;
     int n;
     unsigned char c;
-    char esc = conf->escapeChar;
+    unsigned char esc = conf->escapeChar;
     unsigned char buf[4];
     unsigned char *p = buf;
     unsigned char *q, *r;
-- 
2.43.0


From ce3f5d78b724f8251e241e4873b55edb81e6fad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:39 +0000
Subject: [PATCH 55/57] fix: do not discard input typed after the echo escape

Changing the terminal mode with TCSAFLUSH dropped the characters typed (or
pasted) directly after the escape sequence that had not been read yet.
---
 src/client-tty.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 2293e85..a1d0d47 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -376,7 +376,12 @@ static int perform_echo_esc(client_conf_t *conf, char c)
         return(1);
     get_tty_mode(&tty, STDIN_FILENO);
     tty.c_lflag ^= ECHO;
-    set_tty_mode(&tty, STDIN_FILENO);
+    /*
+     *  Do not use set_tty_mode() here since that discards pending input.
+     */
+    if (tcsetattr(STDIN_FILENO, TCSADRAIN, &tty) < 0)
+        log_msg(LOG_WARNING, "tcsetattr() failed on fd=%d: %s",
+            STDIN_FILENO, strerror(errno));
     conf->req->enableEcho ^= 1;
     return(1);
 }
-- 
2.43.0


From fd52bfdb42148cc15e545c7d9bcf144766a741a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:17 +0000
Subject: [PATCH 56/57] fix: IPMI engine callbacks ran without the lock
 protecting the console objects

The callback given to the ipmiconsole engine runs in an engine thread,
where it modified the console obj and wrote to the linked client and
logfile objs while the main thread was using or even destroying them.
---
 src/server-ipmi.c | 18 +++++++++++++++++-
 src/server.c      |  4 ++++
 src/server.h      |  1 +
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/server-ipmi.c b/src/server-ipmi.c
index ceb7743..24ff51e 100644
--- a/src/server-ipmi.c
+++ b/src/server-ipmi.c
@@ -70,6 +70,7 @@ static int process_ipmi_opt_workaround(
 static int parse_key(char *dst, const char *src, size_t dstlen);
 static void disconnect_ipmi_obj(obj_t *ipmi);
 static int connect_ipmi_obj(obj_t *ipmi);
+static void process_ipmi_callback(obj_t *ipmi);
 static int initiate_ipmi_connect(obj_t *ipmi);
 static int create_ipmi_ctx(obj_t *ipmi);
 static int complete_ipmi_connect(obj_t *ipmi);
@@ -756,6 +757,7 @@ obj_t * create_ipmi_obj(server_conf_t *conf, char *name,
     ipmi->aux.ipmi.state = CONMAN_IPMI_DOWN;
     ipmi->aux.ipmi.timer = -1;
     ipmi->aux.ipmi.delay = IPMI_MIN_TIMEOUT;
+    ipmi->aux.ipmi.objsLock = &conf->objsLock;
     x_pthread_mutex_init(&ipmi->aux.ipmi.mutex, NULL);
     conf->numIpmiObjs++;
     /*
@@ -896,6 +898,20 @@ static int connect_ipmi_obj(obj_t *ipmi)
 }
 
 
+static void process_ipmi_callback(obj_t *ipmi)
+{
+/*  Callback routine invoked by the ipmiconsole engine thread once the
+ *    connection attempt for the specified (ipmi) obj has been resolved.
+ *  The main thread processes objs and their links while holding objsLock.
+ *    Since the engine thread accesses these same objs, it must hold it too.
+ */
+    x_pthread_mutex_lock(ipmi->aux.ipmi.objsLock);
+    (void) connect_ipmi_obj(ipmi);
+    x_pthread_mutex_unlock(ipmi->aux.ipmi.objsLock);
+    return;
+}
+
+
 static int initiate_ipmi_connect(obj_t *ipmi)
 {
 /*  Initiates an IPMI connection attempt.
@@ -914,7 +930,7 @@ static int initiate_ipmi_connect(obj_t *ipmi)
         ipmi->aux.ipmi.host, ipmi->name));
 
     rc = ipmiconsole_engine_submit(ipmi->aux.ipmi.ctx,
-        (Ipmiconsole_callback) connect_ipmi_obj, ipmi);
+        (Ipmiconsole_callback) process_ipmi_callback, ipmi);
     if (rc < 0) {
         return(-1);
     }
diff --git a/src/server.c b/src/server.c
index f6a9e73..8d7dc8f 100644
--- a/src/server.c
+++ b/src/server.c
@@ -804,6 +804,9 @@ static void open_objs(server_conf_t *conf)
     ListIterator i;
     obj_t *obj;
 
+    /*  Connections can complete in other threads before all objs are opened.
+     */
+    x_pthread_mutex_lock(&conf->objsLock);
     i = list_iterator_create(conf->objs);
     while ((obj = list_next(i))) {
         if (is_console_obj(obj)) {
@@ -812,6 +815,7 @@ static void open_objs(server_conf_t *conf)
         reopen_obj(obj);
     }
     list_iterator_destroy(i);
+    x_pthread_mutex_unlock(&conf->objsLock);
     return;
 }
 
diff --git a/src/server.h b/src/server.h
index 246e9b9..ca3e02f 100644
--- a/src/server.h
+++ b/src/server.h
@@ -225,6 +225,7 @@ typedef struct ipmi_obj {               /* IPMI AUX OBJ DATA:                */
     int              timer;             /*  timer id                         */
     int              delay;             /*  secs 'til next reconnect attempt */
     pthread_mutex_t  mutex;             /*  lock for ctx/state/timer/delay   */
+    pthread_mutex_t *objsLock;          /*  lock protecting objs & obj links */
 } ipmi_obj_t;
 #endif /* WITH_FREEIPMI */
 
-- 
2.43.0


From cc617814621e88ebbd386de3675197eeecca2522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:17 +0000
Subject: [PATCH 57/57] fix: out-of-range numbers in IPMI options were
 truncated and accepted

For example, "L:4294967298" was taken as privilege level 2, and
"W:4294967297" as workaround flag 1.
---
 src/server-ipmi.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/server-ipmi.c b/src/server-ipmi.c
index 24ff51e..f6de60e 100644
--- a/src/server-ipmi.c
+++ b/src/server-ipmi.c
@@ -35,6 +35,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -491,7 +492,8 @@ static int process_ipmi_opt_privilege(
         errno = 0;
         n = strtol(str, &p, 0);
 
-        if ((*p != '\0') || (errno == ERANGE)) {
+        if ((*p != '\0') || (errno == ERANGE)
+                || (n < INT_MIN) || (n > INT_MAX)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
                     "invalid IPMI privilege level \"%s\"", str);
@@ -532,7 +534,8 @@ static int process_ipmi_opt_cipher(
         errno = 0;
         n = strtol(str, &p, 0);
 
-        if ((*p != '\0') || (errno == ERANGE)) {
+        if ((*p != '\0') || (errno == ERANGE)
+                || (n < INT_MIN) || (n > INT_MAX)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
                     "invalid IPMI cipher suite \"%s\"", str);
@@ -619,13 +622,13 @@ static int process_ipmi_opt_workaround(
         flag = 0;
     }
     else {
-        unsigned int  u;
-        char         *p;
+        unsigned long  u;
+        char          *p;
 
         errno = 0;
         u = strtoul(str, &p, 0);
 
-        if ((*p != '\0') || (errno == ERANGE)) {
+        if ((*p != '\0') || (errno == ERANGE) || (u > UINT_MAX)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
                     "invalid IPMI workaround flag \"%s\"", str);
@@ -635,7 +638,7 @@ static int process_ipmi_opt_workaround(
         else if (!ipmiconsole_workaround_flags_is_valid(u)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
-                    "invalid IPMI workaround flag 0x%X", u);
+                    "invalid IPMI workaround flag 0x%lX", u);
             }
             return(-1);
         }
-- 
2.43.0


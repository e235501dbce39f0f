From 150e18241587b289dd84298bc37bd1cc6092500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:19 +0000
Subject: [PATCH 01/57] fix: queue outgoing messages right after the pending
 ones

The position of a new message in the send buffer was computed in units of
sizeof(message_t) instead of bytes, so whenever a send was incomplete the
next message was written at the wrong place. The space of already sent data
is now reclaimed, and a full send buffer is reported instead of asserting.
---
 src/connection.c | 18 +++++++++++++-----
 src/connection.h |  2 ++
 src/dw_client.c  |  4 ++++
 src/dw_node.c    | 10 ++++++++--
 4 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 0e8882c..99c19c4 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -240,8 +240,18 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size) {
 }
 
 message_t* conn_send_message(conn_info_t *conn) {
-    message_t* m = (message_t*) conn->send_buf + conn->curr_send_size;
-    m->req_size = BUF_SIZE - (conn->curr_send_buf - conn->send_buf + conn->curr_send_size);
+    // reclaim the space of what has already been sent
+    if (conn->curr_send_buf != conn->send_buf) {
+        memmove(conn->send_buf, conn->curr_send_buf, conn->curr_send_size);
+        conn->curr_send_buf = conn->send_buf;
+    }
+
+    // at least an empty message must fit
+    if (BUF_SIZE - conn->curr_send_size < sizeof(message_t) + cmd_type_size(EOM))
+        return NULL;
+
+    message_t* m = (message_t*) (conn->send_buf + conn->curr_send_size);
+    m->req_size = BUF_SIZE - conn->curr_send_size;
     return m;
 }
 
@@ -272,11 +282,9 @@ message_t* conn_next_message(conn_info_t *conn) {
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
 // returns the number of bytes sent, -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
-    message_t *m = (message_t*) conn->send_buf + conn->curr_send_size;
+    message_t *m = (message_t*) (conn->send_buf + conn->curr_send_size);
     conn->target = target;
     dw_log("SEND starting, conn_id: %d, status: %s, msg_size: %d\n", conn_get_id_by_ptr(conn), conn_status_str(conn->status), m->req_size);
-    if (conn->curr_send_size == 0)
-        conn->curr_send_buf = conn->send_buf;
     // move end of send operation forward by size bytes
     conn->curr_send_size += m->req_size;
 
diff --git a/src/connection.h b/src/connection.h
index ef2988d..489dfb4 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -65,6 +65,8 @@ req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req);
 
 unsigned char *get_send_buf(conn_info_t *pc, size_t size);
 
+/* retrieve room for a new message after the ones pending in conn's send buffer,
+   with the available size in req_size, or NULL if the send buffer is full */
 message_t* conn_send_message(conn_info_t *conn);
 /* retrieve next received message in conn's recv buffer */
 message_t* conn_next_message(conn_info_t *conn);
diff --git a/src/dw_client.c b/src/dw_client.c
index 09a6d1e..536b460 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -124,6 +124,10 @@ void *thread_sender(void *data) {
 
     for (int i = 0; i < num_send_pkts; i++) {
         m = conn_send_message(conn);
+        if (m == NULL) {
+            fprintf(stderr, "Send buffer full\n");
+            break;
+        }
         ccmd_dump(ccmd, m);
 
         /* remember time of send relative to ts_start */
diff --git a/src/dw_node.c b/src/dw_node.c
index 428de73..b141731 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -326,7 +326,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     int sock = conns[fwd_conn_id].sock;
     assert(sock != -1);
     message_t *m_dst = conn_send_message(&conns[fwd_conn_id]);
-    assert(m_dst->req_size >= fwd.pkt_size);
+    if (m_dst == NULL || m_dst->req_size < fwd.pkt_size) {
+        fprintf(stderr, "Not enough space in send buffer, fwd_conn_id: %d\n", fwd_conn_id);
+        return 0;
+    }
 
     command_t *c = cmd_next(cmd);
     while (c->cmd != EOM && c->cmd == MULTI_FORWARD) {
@@ -404,7 +407,10 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
 int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* infos) {
     message_t *m_dst = conn_send_message(&conns[req->conn_id]);
     reply_opts_t *opts = cmd_get_opts(reply_opts_t, cmd);
-    assert(m_dst->req_size >= opts->resp_size);
+    if (m_dst == NULL || m_dst->req_size < opts->resp_size) {
+        fprintf(stderr, "Not enough space in send buffer, conn_id: %d\n", req->conn_id);
+        return 0;
+    }
 
     dw_log("conn_id:%d, m_dst: %p, send_buf: %p\n", req->conn_id, m_dst, conns[req->conn_id].send_buf);
 
-- 
2.43.0


From 20c4039fade197b5a3bc95432448f2c38726cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:20 +0000
Subject: [PATCH 02/57] fix: do not treat a would-block send as a failure

conn_send() returned 0 both when the socket buffer is full and when the peer
is gone, and -1 for other errors, while its callers took 0 as a failure: a
slow reader got disconnected and real errors went unnoticed. Also the check
on EPIPE was an assignment.
---
 src/connection.c | 7 ++++---
 src/dw_client.c  | 2 +-
 src/dw_node.c    | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 99c19c4..6d57366 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -280,7 +280,7 @@ message_t* conn_next_message(conn_info_t *conn) {
 }
 
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
-// returns the number of bytes sent, -1 if an error occured
+// returns the number of bytes sent (0 if it would block), -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
     message_t *m = (message_t*) (conn->send_buf + conn->curr_send_size);
     conn->target = target;
@@ -294,6 +294,7 @@ int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
         return conn_send(conn);
 }
 
+// returns the number of bytes sent (0 if it would block), -1 if an error occured
 int conn_send(conn_info_t *conn) {
     int sock = conn->sock;
     dw_log("SEND conn_id=%d, status=%d (%s), curr_send_size=%lu, sock=%d\n", conn_get_id_by_ptr(conn), conn->status, conn_status_str(conn->status), conn->curr_send_size, sock);
@@ -310,10 +311,10 @@ int conn_send(conn_info_t *conn) {
             return 0;
         } 
 
-        if (errno = EPIPE || errno == ECONNRESET) {
+        if (errno == EPIPE || errno == ECONNRESET) {
             dw_log("SEND Connection closed by remote end conn_id=%d\n", conn_get_id_by_ptr(conn));
             conn->status = CLOSE;
-            return 0;
+            return -1;
         }
 
         fprintf(stderr, "SEND Unexpected error: %s\n", strerror(errno));
diff --git a/src/dw_client.c b/src/dw_client.c
index 536b460..1202cae 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -148,7 +148,7 @@ void *thread_sender(void *data) {
 #ifdef DW_DEBUG
         msg_log(m, "Sending msg: ");
 #endif
-        if (!conn_start_send(conn, conn->target)) {
+        if (conn_start_send(conn, conn->target) < 0) {
             fprintf(stderr,
                     "Forcing premature termination of sender thread while "
                     "attempting to send pkt %d\n",
diff --git a/src/dw_node.c b/src/dw_node.c
index b141731..9f2310d 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -429,7 +429,7 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
     conn_info_t *conn = conn_get_by_id(req->conn_id);
     conn_req_remove(conn, req);
     infos->active_reqs--;
-    return conn_start_send(&conns[req->conn_id], req->target);
+    return conn_start_send(&conns[req->conn_id], req->target) >= 0;
 }
 
 void compute_for(unsigned long usecs) {
@@ -747,7 +747,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     }
     if (p_ev->events & EPOLLOUT && conn->curr_send_size > 0 && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT) {
         dw_log("calling send_mesg()\n");
-        if (!conn_send(conn))
+        if (conn_send(conn) < 0)
             goto err;
     }
     dw_log("conns[%d].status=%d (%s)\n", conn_id, conn_get_status(conn), conn_status_str(conn_get_status(conn)));
-- 
2.43.0


From b59102af6b0a792e22132e13d619ef2bc5508085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:20 +0000
Subject: [PATCH 03/57] fix: wait for writability of the right connection

exec_request() asked for EPOLLOUT on the socket of conns[0] instead of the
one of the connection with pending data.
---
 src/dw_node.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 9f2310d..fbe249b 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -761,8 +761,8 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
         ev2.data.u64 = i2l(SOCKET, conn_id);
         ev2.events = EPOLLIN | EPOLLOUT;
         dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conns->sock, conn_id, conns->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conns->sock, &ev2));
+               conn->sock, conn_id, conn->curr_send_size);
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
         conn_set_status(conn, SENDING);
     }
     if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
@@ -779,7 +779,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     return;
 
  err:
-    if (conns->proto == TCP && conn_get_status(conn) == READY) {
+    if (conn->proto == TCP && conn_get_status(conn) == READY) {
         infos->active_conns--;
     }
     close_and_forget(epollfd, conn->sock);
-- 
2.43.0


From 13fbb6036e8b04c90c1a3298cf2e25c15d637595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:50 +0000
Subject: [PATCH 04/57] fix: flush pending data also when not triggered by a
 socket event

Replies sent after a storage operation, a forward or a timeout, and forwarded
requests, stayed in the send buffer if the socket was not writable, as
EPOLLOUT was only requested for the connection of the current socket event.
Besides, completing a send no longer counts as a new connection.
---
 src/dw_node.c | 50 +++++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index fbe249b..c3c7997 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -261,6 +261,29 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
 
 void setnonblocking(int fd);
 
+// wait for the socket to be writable, only as long as there is data to be sent
+void update_epollout(int conn_id, int epollfd) {
+    conn_info_t *conn = conn_get_by_id(conn_id);
+
+    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
+        struct epoll_event ev2;
+        ev2.data.u64 = i2l(SOCKET, conn_id);
+        ev2.events = EPOLLIN | EPOLLOUT;
+        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
+               conn->sock, conn_id, conn->curr_send_size);
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
+        conn_set_status(conn, SENDING);
+    }
+    if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
+        struct epoll_event ev2;
+        ev2.data.u64 = i2l(SOCKET, conn_id);
+        ev2.events = EPOLLIN;
+        dw_log("removing EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
+               conn->sock, conn_id, conn->curr_send_size);
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
+        conn_set_status(conn, READY);
+    }
+}
 // cmd_id is the index of the FORWARD item within m->cmds[] here, we
 // remove the first (cmd_id+1) commands from cmds[], and forward the
 // rest to the next hop
@@ -351,7 +374,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
 
     if (conn_start_send(&conns[fwd_conn_id], addr) < 0)
         return 0;
-        
+    update_epollout(fwd_conn_id, epollfd);
     if (fwd.timeout) {
         insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
     }
@@ -429,7 +452,10 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
     conn_info_t *conn = conn_get_by_id(req->conn_id);
     conn_req_remove(conn, req);
     infos->active_reqs--;
-    return conn_start_send(&conns[req->conn_id], req->target) >= 0;
+    if (conn_start_send(conn, req->target) < 0)
+        return 0;
+    update_epollout(req->conn_id, infos->epollfd);
+    return 1;
 }
 
 void compute_for(unsigned long usecs) {
@@ -756,25 +782,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     if (!obtain_messages(conn_id, epollfd, infos))
         goto err;
 
-    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
-        struct epoll_event ev2;
-        ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN | EPOLLOUT;
-        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_id, conn->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
-        conn_set_status(conn, SENDING);
-    }
-    if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
-        struct epoll_event ev2;
-        ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN;
-        dw_log("removing EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_id, conn->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
-        conn_set_status(conn, READY);
-        infos->active_conns++;
-    }
+    update_epollout(conn_id, epollfd);
 
     return;
 
-- 
2.43.0


From 713440992ab61d3c8589307e76081cfa22b8cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:18 +0000
Subject: [PATCH 05/57] fix: forget the outstanding requests of a closed
 connection

The list of requests of a closed connection was left pointing to freed ones,
so that a new connection reusing the same slot inherited them, while their
timeouts were left in the timeout queue and they kept being counted as active.
A connection closed while sending also kept being counted.
---
 src/connection.c |  1 +
 src/dw_node.c    | 20 +++++++++++++++-----
 src/request.c    |  1 +
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 6d57366..7a9e4b2 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -76,6 +76,7 @@ req_info_t* conn_req_add(conn_info_t *conn) {
 static void conn_reset(conn_info_t *conn) {
     for (req_info_t *temp = conn->req_list; temp != NULL; temp = req_free(temp))
         ;
+    conn->req_list = NULL;
 }
 
 req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req) {
diff --git a/src/dw_node.c b/src/dw_node.c
index c3c7997..310c06f 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -568,6 +568,20 @@ void close_and_forget(int epollfd, int sock) {
     close(sock);
 }
 
+// close a connection, dropping all of its outstanding requests
+void drop_conn(int conn_id, int epollfd, conn_worker_info_t *infos) {
+    conn_info_t *conn = conn_get_by_id(conn_id);
+
+    if (conn->proto == TCP && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT)
+        infos->active_conns--;
+    for (req_info_t *req = conn->req_list; req != NULL; req = req->next) {
+        remove_timeout(infos, req->req_id, epollfd);
+        infos->active_reqs--;
+    }
+    close_and_forget(epollfd, conn->sock);
+    conn_free(conn_id);
+}
+
 // returns 1 if the message has been completely executed, 0 if the message need more time, -1 if some error occured
 int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *infos) {
     message_t *m = req_get_message(req);
@@ -787,11 +801,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     return;
 
  err:
-    if (conn->proto == TCP && conn_get_status(conn) == READY) {
-        infos->active_conns--;
-    }
-    close_and_forget(epollfd, conn->sock);
-    conn_free(conn_id);
+    drop_conn(conn_id, epollfd, infos);
 }
 
 void* storage_worker(void* args) {
diff --git a/src/request.c b/src/request.c
index 5b61fe7..c5940d3 100644
--- a/src/request.c
+++ b/src/request.c
@@ -39,6 +39,7 @@ req_info_t* req_alloc() {
     r->req_id = req_id;
     r->curr_cmd = NULL;
     r->fwd_replies_left = -1;
+    r->timeout_node = NULL;
     r->next = NULL;
     r->prev = NULL;
 
-- 
2.43.0


From 4833c70863218a82c13c0a97328d071110f7be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:18 +0000
Subject: [PATCH 06/57] fix: pass STORE and LOAD commands by value to the
 storage thread

The storage thread read the command from the receive buffer of the connection,
which may meanwhile be shifted by the completion of another request, or freed
by a disconnection. For LOAD commands, it also read the sync option past the
end of the command.
---
 src/dw_node.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 310c06f..79f1eac 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -124,7 +124,11 @@ typedef struct {
 } storage_worker_info_t;
 
 typedef struct {
-    command_t *cmd;
+    command_type_t cmd;
+    union { // copied, as the request may be moved or dropped in the meantime
+        store_opts_t store;
+        load_opts_t load;
+    };
     int worker_id;
     int req_id;
 } storage_req_t;
@@ -612,7 +616,11 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
         case STORE:
         case LOAD: {
             storage_req_t w;
-            w.cmd = cmd;
+            w.cmd = cmd->cmd;
+            if (cmd->cmd == STORE)
+                w.store = *cmd_get_opts(store_opts_t, cmd);
+            else
+                w.load = *cmd_get_opts(load_opts_t, cmd);
             w.worker_id = infos->worker_id;
             w.req_id = req->req_id;
 
@@ -911,7 +919,6 @@ void* storage_worker(void* args) {
                 dw_log("storage sync...\n");
             } else if (type == STORAGE) {
                 storage_req_t w;
-                command_t *storage_cmd;
                 int worker_id;
                 int req_id;
 
@@ -921,22 +928,21 @@ void* storage_worker(void* args) {
                     break;
                 }
 
-                storage_cmd = w.cmd;
                 worker_id = w.worker_id;
                 req_id = w.req_id;
 
                 dw_log("STORAGE cmd from conn_id %d\n", req_id);
 
-                if (storage_cmd->cmd == STORE) {
-                    store(infos, infos->store_buf, cmd_get_opts(store_opts_t, storage_cmd));
-                } else if (storage_cmd->cmd == LOAD) {
-                    load(infos, infos->store_buf, cmd_get_opts(load_opts_t, storage_cmd));
+                if (w.cmd == STORE) {
+                    store(infos, infos->store_buf, &w.store);
+                } else if (w.cmd == LOAD) {
+                    load(infos, infos->store_buf, &w.load);
                 } else { // error
                     fprintf(stderr, "Unknown command sent to storage server - skipping");
                     continue;
                 }
 
-                if (!cmd_get_opts(store_opts_t, storage_cmd)->wait_sync || infos->periodic_sync_msec <= 0) {
+                if (w.cmd != STORE || !w.store.wait_sync || infos->periodic_sync_msec <= 0) {
                     safe_write(infos->store_replyfd[worker_id], (unsigned char*) &req_id, sizeof(req_id));
                 } else {
                     data_t data = {.value=req_id};
-- 
2.43.0


From 779c8af05d168c6967e2bd5054ff40cf491eb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:19 +0000
Subject: [PATCH 07/57] fix: survive the completion of a storage operation
 after a disconnection

The acknowledgement of a STORE or LOAD issued by a connection closed in the
meantime crashed the node. Also, drop the connection if the processing of the
rest of the request fails.
---
 src/dw_node.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 79f1eac..c6b187f 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1066,7 +1066,14 @@ void* conn_worker(void* args) {
                 }
 
                 dw_log("STORAGE ACK for req_id %d\n", req_id_ACK);
-                process_messages(req_get_by_id(req_id_ACK), infos->epollfd, infos);
+                req_info_t *req = req_get_by_id(req_id_ACK);
+                if (req == NULL) { // connection dropped in the meantime
+                    dw_log("STORAGE ACK does not match any request - Dropped\n");
+                    continue;
+                }
+                int conn_id = req->conn_id;
+                if (process_messages(req, infos->epollfd, infos) < 0)
+                    drop_conn(conn_id, infos->epollfd, infos);
                 //exec_request(infos->epollfd, &events[i], infos);
             } else if (type == TERMINATION) {
                 // no need to disarm signal, since we are killing the node anyway
-- 
2.43.0


From ba789aee93466ddcafe78b18ce5413fe8b1b43a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:19 +0000
Subject: [PATCH 08/57] fix: keep the current command of pipelined requests
 when defragmenting

When removing a completed request from the receive buffer, the requests behind
it are shifted: their message pointer was updated, but not the one to the
command to be resumed after a storage operation or a forward.
---
 src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connection.c b/src/connection.c
index 7a9e4b2..14a8c0f 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -98,6 +98,7 @@ req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req) {
                temp->message_ptr - req_size,
                temp->message_ptr - req_size + req_get_message(temp)->req_size);
         temp->message_ptr -= req_size;
+        temp->curr_cmd = (command_t*) ((unsigned char*) temp->curr_cmd - req_size);
     }
 
     if (conn->req_list == req)
-- 
2.43.0


From 7b7687b21185b9cce02fc862e3a20c085da8a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:43 +0000
Subject: [PATCH 09/57] fix: keep the connection to the next hop open after a
 forward reply

The connection was closed right after the first reply, losing the ones of any
other request forwarded to the same node, or of a multi-forward listing it
twice, whose clients then never got an answer. It was also closed, instead of
the one of the client, if the processing of the rest of the request failed:
the latter is now shut down, but for UDP, where the socket is shared.
Besides, a second FORWARD within the same request did not wait for its own
replies, and unexpected replies resumed requests waiting for something else.
---
 src/connection.c |  9 +++++++
 src/connection.h |  3 ++-
 src/dw_node.c    | 63 ++++++++++++++++++++++++++++++++----------------
 3 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 14a8c0f..5181caa 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -281,6 +281,15 @@ message_t* conn_next_message(conn_info_t *conn) {
     return m;
 }
 
+void conn_remove_message(conn_info_t *conn, message_t *m) {
+    unsigned long req_size = m->req_size;
+    memmove(m, conn->curr_proc_buf, conn->curr_recv_buf - conn->curr_proc_buf);
+
+    conn->curr_recv_buf -= req_size;
+    conn->curr_proc_buf -= req_size;
+    conn->curr_recv_size += req_size;
+}
+
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
 // returns the number of bytes sent (0 if it would block), -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
diff --git a/src/connection.h b/src/connection.h
index 489dfb4..2568beb 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -70,7 +70,8 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size);
 message_t* conn_send_message(conn_info_t *conn);
 /* retrieve next received message in conn's recv buffer */
 message_t* conn_next_message(conn_info_t *conn);
-void conn_remove_message(conn_info_t *conn);
+/* drop the last message retrieved by conn_next_message() from conn's recv buffer */
+void conn_remove_message(conn_info_t *conn, message_t *m);
 
 int conn_find_existing(struct sockaddr_in target, proto_t proto);
 int conn_find_sock(int sock);
diff --git a/src/dw_node.c b/src/dw_node.c
index c6b187f..335a6e3 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -35,6 +35,10 @@
 
 #define MAX_EVENTS 10
 
+#ifndef max
+#   define max(a, b) ((a)>(b)?(a):(b))
+#endif
+
 static inline uint64_t i2l(uint32_t ln, uint32_t rn) {
     return ((uint64_t) ln) << 32 | rn;
 }
@@ -384,7 +388,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     }
 
     if (req->fwd_replies_left == -1)
-        req->fwd_replies_left = cmd_get_opts(reply_opts_t, reply_cmd)->n_ack;
+        req->fwd_replies_left = max(cmd_get_opts(reply_opts_t, reply_cmd)->n_ack, 1);
 
     return 1;
 }
@@ -406,28 +410,31 @@ int start_forward(req_info_t *req, message_t *m, command_t *cmd, int epollfd, co
 int process_messages(req_info_t *req, int epollfd, conn_worker_info_t* infos);
 int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos);
 
+void fail_request(int req_id, int conn_id, int epollfd, conn_worker_info_t *infos);
+
 // Call this once we received a REPLY from a socket matching a req_id we forwarded
-int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
+void handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
     req_info_t *req = req_get_by_id(req_id);
 
-    if (!req) {
+    if (!req || req->fwd_replies_left <= 0) {
         dw_log("Could not match a response to FORWARD, req_id:%d - Dropped\n", req_id);
-        return 1;
+        return;
     }
 
     dw_log("Found match with conn_id %d\n", req->conn_id);
         
     if (--(req->fwd_replies_left) <= 0) {
         message_t *m = req_get_message(req);
-
+        int conn_id = req->conn_id;
+        // any further FORWARD in the same request waits for its own replies
+        req->fwd_replies_left = -1;
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, 1);
         
         remove_timeout(infos, req_id, epollfd);
 
-        return process_messages(req, epollfd, infos);
+        if (process_messages(req, epollfd, infos) < 0)
+            fail_request(req_id, conn_id, epollfd, infos);
     }
-    
-    return 1;
 }
 
 // returns 1 if reply sent correctly, 0 otherwise
@@ -586,6 +593,22 @@ void drop_conn(int conn_id, int epollfd, conn_worker_info_t *infos) {
     conn_free(conn_id);
 }
 
+// give up with a request that could not be executed, and with its connection, if any
+void fail_request(int req_id, int conn_id, int epollfd, conn_worker_info_t *infos) {
+    conn_info_t *conn = conn_get_by_id(conn_id);
+    req_info_t *req = req_get_by_id(req_id);
+
+    if (conn->proto == TCP) {
+        // this triggers the event that drops the connection
+        conn_set_status(conn, CLOSE);
+        shutdown(conn->sock, SHUT_RDWR);
+    } else if (req != NULL) {
+        remove_timeout(infos, req_id, epollfd);
+        conn_req_remove(conn, req);
+        infos->active_reqs--;
+    }
+}
+
 // returns 1 if the message has been completely executed, 0 if the message need more time, -1 if some error occured
 int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *infos) {
     message_t *m = req_get_message(req);
@@ -659,15 +682,9 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
         if (message_first_cmd(m)->cmd == EOM) {
             dw_log("Handling response to FORWARD from %s:%d, req_id=%d\n", inet_ntoa((struct in_addr) {conns[conn_id].target.sin_addr.s_addr}), 
                                                                            ntohs(conns[conn_id].target.sin_port), m->req_id);
-            if (!handle_forward_reply(m->req_id, epollfd, infos)) {
-                    dw_log("handle_forward_reply() failed\n");
-                    return 0;
-            }
-            //TODO: This causes a disconnection right after the forwad-reply concludes.
-            // This should be removed ASAP, since it deteriorates the performance of subsequent forwards to the same node,
-            // However keeping the connection open causes performance deterioration for all the other operations; 
-            // The reason why has yet to be properly investigated
-            return 0;
+            int req_id = m->req_id;
+            conn_remove_message(conn, m);
+            handle_forward_reply(req_id, epollfd, infos);
         } else {
             req_info_t *req = conn_req_add(conn);
             if (req == NULL) {
@@ -678,10 +695,14 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
 
             req->message_ptr = (unsigned char*) m;
             req->curr_cmd = message_first_cmd(m);
+            int req_id = req->req_id;
             int executed = process_single_message(req, epollfd, infos);
-
-            if (executed < 0)
-                return 0;
+            if (executed < 0) {
+                if (conn->proto == TCP)
+                    return 0;
+                fail_request(req_id, conn_id, epollfd, infos);
+                continue;
+            }
 
             if (!executed && conns[conn_id].serialize_request) {
                 conns[conn_id].curr_proc_buf += m->req_size;
@@ -1073,7 +1094,7 @@ void* conn_worker(void* args) {
                 }
                 int conn_id = req->conn_id;
                 if (process_messages(req, infos->epollfd, infos) < 0)
-                    drop_conn(conn_id, infos->epollfd, infos);
+                    fail_request(req_id_ACK, conn_id, infos->epollfd, infos);
                 //exec_request(infos->epollfd, &events[i], infos);
             } else if (type == TERMINATION) {
                 // no need to disarm signal, since we are killing the node anyway
-- 
2.43.0


From ec305d27792c4afa6d9482de0adfcd4ea506a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:48 +0000
Subject: [PATCH 10/57] fix: handle the timeout of any forwarded request

Timeouts were ignored unless the id given by the client to the request was the
same as the one internally given by the node, so that most requests were neither
retried nor failed. They were also ignored for multi-forwards, that besides left
all but one of their timeouts in the queue after their completion.
---
 src/dw_node.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 335a6e3..17bf4fb 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -383,7 +383,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     if (conn_start_send(&conns[fwd_conn_id], addr) < 0)
         return 0;
     update_epollout(fwd_conn_id, epollfd);
-    if (fwd.timeout) {
+    if (fwd.timeout && req->timeout_node == NULL) {
         insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
     }
 
@@ -758,20 +758,23 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
     command_t *p_cmd = req->curr_cmd;
     // if curr_cmd is no more on MULTI_FORWARD, ignore
     // TODO: case with 2 independent (non-nested) forwards in same req
-    if (p_cmd->cmd != FORWARD || m->req_id != req_id)
+    if (p_cmd->cmd != FORWARD && p_cmd->cmd != MULTI_FORWARD)
         return;
+    int conn_id = req->conn_id;
+    int rv = 1;
+    req->fwd_replies_left = -1;
     fwd_opts_t *fwd = cmd_get_opts(fwd_opts_t, p_cmd);
     if (fwd->retries > 0) {
         dw_log("TIMEOUT expired, retry: %d\n", fwd->retries);
         
         fwd->retries--;
-        process_messages(req, epollfd, infos);
+        rv = process_messages(req, epollfd, infos);
     } else if (fwd->on_fail_skip > 0) {
         dw_log("TIMEOUT expired, failed, skipping: %d\n", fwd->on_fail_skip);
         
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, fwd->on_fail_skip);
         m->status = -1;
-        process_messages(req, epollfd, infos);
+        rv = process_messages(req, epollfd, infos);
     } else {
         dw_log("TIMEOUT expired, failed\n");
 
@@ -779,6 +782,8 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
         conn_req_remove(conn, req);
         infos->active_reqs--;
     }
+    if (rv < 0)
+        fail_request(req_id, conn_id, epollfd, infos);
 }
 
 void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_t* infos) {
-- 
2.43.0


From c9ba793393351073c792442de62f1d6c8f8236dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:49 +0000
Subject: [PATCH 11/57] fix: keep timeouts on time with several outstanding
 forwards

The time elapsed since the queue was empty is already part of the key of the top
of the queue: adding it again delayed the new timeouts. And, with two requests
timing out together, the timer was disarmed after the first, so that the second
never expired.
---
 src/dw_node.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 17bf4fb..12c2ff8 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -210,7 +210,7 @@ void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micr
     if (pqueue_size(infos->timeout_queue) > 0) {
         struct itimerspec timerspec = {0};
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
-        new_micros += infos->time_elapsed;
+
         new_micros += pqueue_node_key(pqueue_top(infos->timeout_queue));
         new_micros -= its_to_us(timerspec);
     } else {
@@ -253,7 +253,8 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
         int next_timeout = pqueue_node_key(pqueue_top(infos->timeout_queue));
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
         infos->time_elapsed = time_elapsed;
-        timerspec = us_to_its(next_timeout - time_elapsed);
+        // 0 would disarm the timer
+        timerspec = us_to_its(max(next_timeout - time_elapsed, 1));
         sys_check(timerfd_settime(infos->timerfd, 0, &timerspec, NULL));
         dw_log("TIMEOUT removed, req_id: %d, next interrupt: %dus\n", req_id, next_timeout - time_elapsed);
     } else {
-- 
2.43.0


From d9921f75e98a3ec10106129be193da13d09a2eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:09 +0000
Subject: [PATCH 12/57] fix: use the right socket for forwards

A forward over UDP was sent through any socket of the current thread, including
the TCP connection of a client, and a newly created one was not polled for the
reply. A forward over TCP could share the connection of another thread, without
any synchronization.
---
 src/connection.c | 7 +++++--
 src/dw_node.c    | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 5181caa..f41a2a4 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -116,10 +116,13 @@ int conn_find_existing(struct sockaddr_in target, proto_t proto) {
     for (int i = 0; i < MAX_CONNS; i++) {
         if (conns[i].sock == -1)
             continue;
-        if (proto == UDP && conns[i].parent_thread == curr_thread) {
+        // only the thread that polls a socket can use it
+        if (conns[i].proto != proto || conns[i].parent_thread != curr_thread)
+            continue;
+        if (proto == UDP) {
             rv = i;
             break;
-        } else if (proto == TCP && conns[i].target.sin_port == target.sin_port && conns[i].target.sin_addr.s_addr == target.sin_addr.s_addr && conns[i].proto == proto) {
+        } else if (conns[i].target.sin_port == target.sin_port && conns[i].target.sin_addr.s_addr == target.sin_addr.s_addr) {
             rv = i;
             break;
         }
diff --git a/src/dw_node.c b/src/dw_node.c
index 12c2ff8..48ae464 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -210,7 +210,6 @@ void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micr
     if (pqueue_size(infos->timeout_queue) > 0) {
         struct itimerspec timerspec = {0};
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
-
         new_micros += pqueue_node_key(pqueue_top(infos->timeout_queue));
         new_micros -= its_to_us(timerspec);
     } else {
@@ -352,6 +351,11 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
                 conn_set_status_by_id(fwd_conn_id, READY);
                 infos->active_conns++;
             }
+        } else {
+            struct epoll_event ev;
+            ev.events = EPOLLIN;
+            ev.data.u64 = i2l(SOCKET, fwd_conn_id);
+            sys_check(epoll_ctl(epollfd, EPOLL_CTL_ADD, clientSocket, &ev));
         }
     }
 
-- 
2.43.0


From 3b7f8dba23000d72504eceef054155d24bb228be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:10 +0000
Subject: [PATCH 13/57] fix: never forward a truncated request

A forwarded request with more commands than what fits in its packet size was
truncated, and the next hop went on interpreting whatever followed. Also, handle
the failure in copying the commands, send a clean status to the next hop, and
release the connection if connect() fails.
---
 src/dw_node.c | 10 +++++++++-
 src/message.c | 12 ++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 48ae464..a6e229a 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -268,6 +268,7 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
 }
 
 void setnonblocking(int fd);
+void close_and_forget(int epollfd, int sock);
 
 // wait for the socket to be writable, only as long as there is data to be sent
 void update_epollout(int conn_id, int epollfd) {
@@ -343,6 +344,8 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
             if (rv == -1) {
                 if (errno != EAGAIN && errno != EINPROGRESS) {
                     dw_log("unexpected error from connect(): %s\n", strerror(errno));
+                    close_and_forget(epollfd, clientSocket);
+                    conn_free(fwd_conn_id);
                     return 0;
                 }
                 // normal case of asynchronous connect
@@ -373,8 +376,13 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     }
 
     command_t* reply_cmd = message_copy_tail(m, m_dst, c);
+    if (reply_cmd == NULL || reply_cmd->cmd != REPLY) {
+        fprintf(stderr, "Cannot forward commands, fwd_conn_id: %d\n", fwd_conn_id);
+        return 0;
+    }
     m_dst->req_id = req->req_id;
-    m_dst->req_size = fwd.pkt_size;
+    m_dst->req_size = max(fwd.pkt_size, m_dst->req_size);
+    m_dst->status = 0;
 
     dw_log("Forwarding req %u to %s:%d\n", m_dst->req_id,
            inet_ntoa((struct in_addr) { fwd.fwd_host }),
diff --git a/src/message.c b/src/message.c
index 3aa3cab..e1e642a 100644
--- a/src/message.c
+++ b/src/message.c
@@ -2,10 +2,6 @@
 #include <string.h>
 #include <stdlib.h>
 
-#ifndef min
-#   define min(a, b) ((a)>(b)?(b):(a))
-#endif
-
 inline const char *proto_str(proto_t proto) {
     static const char *proto_str[PROTO_NUMBER] = {
         "UDP",
@@ -62,7 +58,7 @@ inline command_t* message_first_cmd(message_t *m) {
 }
 
 // copy a message, and its commands starting from cmd until the matching REPLY is found
-// m_dst->req_size should contain the available size
+// m_dst->req_size should contain the available size, and it is set to the size actually used
 command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd) {
     // copy message header
     m_dst->req_id = m->req_id;
@@ -72,14 +68,14 @@ command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd) {
     command_t *reply_cmd = itr;
     itr = cmd_next(itr);
     int cmds_len = ((unsigned char*)itr - (unsigned char*)cmd);
-    int skipped_len = ((unsigned char*)cmd - (unsigned char*)message_first_cmd(m));
-    if (m_dst->req_size < cmds_len + cmd_type_size(EOM))
+    int msg_len = sizeof(message_t) + cmds_len + cmd_type_size(EOM);
+    if (m_dst->req_size < msg_len)
       return NULL;
 
     memcpy(m_dst->cmds, cmd, cmds_len);
     command_t* end_command = (command_t*)((unsigned char*)&m_dst->cmds[0] + cmds_len);
     end_command->cmd = EOM;
-    m_dst->req_size = min(m_dst->req_size, m->req_size - skipped_len);
+    m_dst->req_size = msg_len;
 
     return reply_cmd;
 }
-- 
2.43.0


From 71c37203e46d4ffe6a80accdf4e8285abb1279bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:13 +0000
Subject: [PATCH 14/57] fix: survive malformed messages

The node aborted on a message whose declared size is smaller than its header,
and went on interpreting the memory past the end of the message if the commands
are not terminated within it, or are unknown. Drop the connection instead, or
just the datagram with UDP. Also, do not close the UDP socket on an empty
datagram, nor a connection with so many outstanding requests to fill the receive
buffer, and do not keep forever the requests without any REPLY. The smallest
reply includes the EOM, that the upstream node looks for.
---
 src/connection.c | 25 +++++++++++++++++++++++--
 src/connection.h |  4 +++-
 src/dw_client.c  |  2 +-
 src/dw_node.c    | 20 ++++++++++++++++----
 src/message.c    | 17 +++++++++++++++++
 src/message.h    |  2 +-
 6 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index f41a2a4..9a3f3ad 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -269,11 +269,22 @@ message_t* conn_next_message(conn_info_t *conn) {
         return NULL;
     }
 
+    if (m->req_size < sizeof(message_t) || m->req_size > BUF_SIZE) {
+        fprintf(stderr, "Got message with wrong size: %u\n", m->req_size);
+        conn->status = CLOSE;
+        return NULL;
+    }
+
     if (msg_size < m->req_size) {
         dw_log("Got header but incomplete message [recv size:%lu, expected size:%d], need to recv() more...\n", msg_size, m->req_size);
         return NULL;
     }
-    assert(m->req_size >= sizeof(message_t) && m->req_size <= BUF_SIZE);
+
+    if (!message_is_valid(m)) {
+        fprintf(stderr, "Got malformed message\n");
+        conn->status = CLOSE;
+        return NULL;
+    }
 
     dw_log("Got complete ");
 #ifdef DW_DEBUG
@@ -284,6 +295,12 @@ message_t* conn_next_message(conn_info_t *conn) {
     return m;
 }
 
+// drop what is left in the recv buffer after the last retrieved message
+void conn_discard(conn_info_t *conn) {
+    conn->curr_recv_size += conn->curr_recv_buf - conn->curr_proc_buf;
+    conn->curr_recv_buf = conn->curr_proc_buf;
+}
+
 void conn_remove_message(conn_info_t *conn, message_t *m) {
     unsigned long req_size = m->req_size;
     memmove(m, conn->curr_proc_buf, conn->curr_recv_buf - conn->curr_proc_buf);
@@ -347,10 +364,14 @@ int conn_send(conn_info_t *conn) {
 int conn_recv(conn_info_t *conn) {
     int sock = conn->sock;
     socklen_t recvsize = sizeof(conn->target);
+
+    // outstanding requests filled the buffer, leave data in the socket
+    if (conn->curr_recv_size == 0)
+        return 1;
     size_t received = recvfrom(sock, conn->curr_recv_buf, conn->curr_recv_size, 0,
                                (struct sockaddr*)&conn->target, (socklen_t*)&recvsize);
     dw_log("RECV returned: %d\n", (int)received);
-    if (received == 0) {
+    if (received == 0 && conn->proto == TCP) {
         dw_log("RECV connection closed by remote end\n");
         return 0;
     } else if (received == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
diff --git a/src/connection.h b/src/connection.h
index 2568beb..2e5da96 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -68,8 +68,10 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size);
 /* retrieve room for a new message after the ones pending in conn's send buffer,
    with the available size in req_size, or NULL if the send buffer is full */
 message_t* conn_send_message(conn_info_t *conn);
-/* retrieve next received message in conn's recv buffer */
+/* retrieve next received message in conn's recv buffer, or NULL if there is none,
+   or if it is malformed (in such a case, status is set to CLOSE) */
 message_t* conn_next_message(conn_info_t *conn);
+void conn_discard(conn_info_t *conn);
 /* drop the last message retrieved by conn_next_message() from conn's recv buffer */
 void conn_remove_message(conn_info_t *conn, message_t *m);
 
diff --git a/src/dw_client.c b/src/dw_client.c
index 1202cae..69d9b1d 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -65,7 +65,7 @@ pthread_t receiver[MAX_THREADS];
 
 #define TCPIP_HEADERS_SIZE 66
 #define MIN_SEND_SIZE (sizeof(message_t) + 2 * sizeof(command_t))
-#define MIN_REPLY_SIZE sizeof(message_t)
+#define MIN_REPLY_SIZE (sizeof(message_t) + sizeof(command_t))
 
 #define MAX_PKTS 1000000
 #define MAX_RATES 1000000
diff --git a/src/dw_node.c b/src/dw_node.c
index a6e229a..4ec8efa 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -668,11 +668,14 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
             req->curr_cmd = cmd_next(cmd);
             return 0; }
         default:
-            fprintf(stderr, "Error: Unknown cmd: %d\n", m->cmds[0].cmd);
-            return 0;
+            fprintf(stderr, "Error: Unknown cmd: %d\n", cmd->cmd);
+            return -1;
         }
     }
 
+    // no REPLY
+    conn_req_remove(conn_get_by_id(req->conn_id), req);
+    infos->active_reqs--;
     return 1;
 }
 
@@ -702,7 +705,10 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
             req_info_t *req = conn_req_add(conn);
             if (req == NULL) {
                 fprintf(stderr, "conn_req_add() failed\n");
-                return 0;
+                if (conn->proto == TCP)
+                    return 0;
+                conn_remove_message(conn, m);
+                continue;
             }
             infos->active_reqs++;
 
@@ -724,7 +730,13 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
         }
     }
 
-    return 1;
+    if (conn->proto == UDP) {
+        // messages do not span across datagrams
+        conn_discard(conn);
+        if (conn_get_status(conn) == CLOSE)
+            conn_set_status(conn, READY);
+    }
+    return conn_get_status(conn) != CLOSE;
 }
 
 int establish_conn(int epollfd, int conn_id) {
diff --git a/src/message.c b/src/message.c
index e1e642a..99e3dfb 100644
--- a/src/message.c
+++ b/src/message.c
@@ -57,6 +57,23 @@ inline command_t* message_first_cmd(message_t *m) {
     return &m->cmds[0];
 }
 
+// return 1 if all commands are known and fit within the message up to the final EOM, 0 otherwise
+int message_is_valid(message_t *m) {
+    unsigned char *end = (unsigned char*)m + m->req_size;
+    command_t *itr = message_first_cmd(m);
+    while ((unsigned char*)itr + sizeof(command_t) <= end) {
+        if (itr->cmd == EOM)
+            return 1;
+        if (itr->cmd > EOM || itr->cmd == PSKIP || (unsigned char*)itr + cmd_type_size(itr->cmd) > end)
+            return 0;
+        // a reply has at least the EOM
+        if (itr->cmd == REPLY && cmd_get_opts(reply_opts_t, itr)->resp_size < sizeof(message_t) + cmd_type_size(EOM))
+            return 0;
+        itr = cmd_next(itr);
+    }
+    return 0;
+}
+
 // copy a message, and its commands starting from cmd until the matching REPLY is found
 // m_dst->req_size should contain the available size, and it is set to the size actually used
 command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd) {
diff --git a/src/message.h b/src/message.h
index ffb523c..5467298 100644
--- a/src/message.h
+++ b/src/message.h
@@ -68,7 +68,7 @@ command_t* message_skip_cmds(message_t* m, command_t *cmd, int to_skip);
 int cmd_type_size(command_type_t type);
 command_t* cmd_next(command_t *c);
 command_t* message_first_cmd(message_t *m);
-
+int message_is_valid(message_t *m);
 static inline int msg_num_cmd(message_t *m) {
     int n = 0;
     command_t *cmd = message_first_cmd(m);
-- 
2.43.0


From 1a9eb9e5fdc92dea417a5385133a387ae7ad11b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:37 +0000
Subject: [PATCH 15/57] fix: do not let a failed datagram prevent sending the
 next ones

A datagram that could not be sent, for example due to its size, was left in the
send buffer and sent again along with any subsequent one.
---
 src/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection.c b/src/connection.c
index 9a3f3ad..c07447d 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -349,6 +349,10 @@ int conn_send(conn_info_t *conn) {
         }
 
         fprintf(stderr, "SEND Unexpected error: %s\n", strerror(errno));
+        if (conn->proto == UDP) { // do not let it get in the way of next datagrams
+            conn->curr_send_buf = conn->send_buf;
+            conn->curr_send_size = 0;
+        }
         return -1;
     }
     dw_log("SEND returned: %d\n", (int)sent);
-- 
2.43.0


From e06b957b006d92988709edc39b927de8414a9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:38 +0000
Subject: [PATCH 16/57] fix: do not block nor exit on accept()

With the shared accept mode, a worker waken up for a connection accepted by
another one blocked in accept(), leaving its own connections unattended until the
next one. And the node exited when running out of file descriptors.
---
 src/dw_node.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 4ec8efa..15a0a89 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1082,8 +1082,13 @@ void* conn_worker(void* args) {
                 struct sockaddr_in addr;
                 socklen_t addr_size = sizeof(addr);
                 int conn_sock;
-                sys_check(conn_sock = accept(infos->listen_sock, (struct sockaddr *)&addr, &addr_size));
-
+                conn_sock = accept(infos->listen_sock, (struct sockaddr *)&addr, &addr_size);
+                if (conn_sock == -1) {
+                    // taken by another thread, gone, or out of resources
+                    if (errno != EAGAIN && errno != EWOULDBLOCK)
+                        perror("accept() failed");
+                    continue;
+                }
                 dw_log("Accepted connection from: %s:%d\n",
                        inet_ntoa(addr.sin_addr), ntohs(addr.sin_port));
                 setnonblocking(conn_sock);
@@ -1094,7 +1099,7 @@ void* conn_worker(void* args) {
                 int conn_id = conn_alloc(conn_sock, addr, TCP);
                 if (conn_id < 0) {
                     fprintf(stderr, "Could not allocate new conn_info_t, closing...\n");
-                    close_and_forget(infos->epollfd, conn_sock);
+                    close(conn_sock);
                     continue;
                 }
 
@@ -1333,8 +1338,11 @@ void init_listen_sock(int i, accept_mode_t accept_mode, proto_t proto, struct so
         dw_log("Node bound to %s:%d (with protocol: %s)\n", inet_ntoa(serverAddr.sin_addr), ntohs(serverAddr.sin_port), proto_str(proto));
 
         /*---- Listen on the socket, with 5 max connection requests queued ----*/
-        if (proto == TCP)
+        if (proto == TCP) {
+            // with --accept-mode=shared, another thread may accept first
+            setnonblocking(conn_worker_infos[i].listen_sock);
             sys_check(listen(conn_worker_infos[i].listen_sock, listen_backlog));
+        }
         dw_log("Accepting new connections (max backlog: %d)...\n", listen_backlog);
     } else if (accept_mode == AM_SHARED) {
         conn_worker_infos[i].listen_sock = conn_worker_infos[0].listen_sock;
-- 
2.43.0


From 353512d631005c0269b973fbd20fc2cf47e86bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:39 +0000
Subject: [PATCH 17/57] fix: count connections on the worker they are assigned
 to

With the parent accept mode, connections were counted on the accepting worker but
discounted from the one they were assigned to. Also, printing the statistics does
not drop the other pending events any more.
---
 src/dw_node.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 15a0a89..092b45d 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1033,7 +1033,7 @@ void* conn_worker(void* args) {
             ev.data.u64 = i2l(LISTEN, infos->listen_sock);
         else // UDP
             ev.data.u64 = i2l(SOCKET, conn_id);
-        sys_check(epoll_ctl(infos->epollfd, EPOLL_CTL_ADD, infos->listen_sock, &ev) == -1);
+        sys_check(epoll_ctl(infos->epollfd, EPOLL_CTL_ADD, infos->listen_sock, &ev));
     }
 
     // Add termination fd
@@ -1104,11 +1104,11 @@ void* conn_worker(void* args) {
                 }
 
                 conn_set_status_by_id(conn_id, READY);
-                infos->active_conns++;
                 ev.events = EPOLLIN;
                 ev.data.u64 = i2l(SOCKET, conn_id);
 
                 int next_thread_id = accept_mode == AM_PARENT ? (atomic_fetch_add(&next_thread_cnt, 1) % conn_threads) : (infos - conn_worker_infos);
+                conn_worker_infos[next_thread_id].active_conns++;
                 if (epoll_ctl(conn_worker_infos[next_thread_id].epollfd, EPOLL_CTL_ADD, conn_sock, &ev) < 0)
                         perror("epoll_ctl() failed");
                 dw_log("conn_id: %d assigned to connw-%d\n", conn_id, conn_worker_infos[next_thread_id].worker_id);
@@ -1159,8 +1159,6 @@ void* conn_worker(void* args) {
                 }
                 printf("[%ld.%09ld][%s] STATS total-active-conns: %d, total-active-reqs: %d\n", ts.tv_sec, ts.tv_nsec, thread_name, 
                                                                                             total_active_conns, total_active_reqs);
-
-                break;
             } else {
                 exec_request(infos->epollfd, &events[i], infos);
             }
-- 
2.43.0


From 877edf4eed60a8b1a67db60cfe14d619fe9994f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:08 +0000
Subject: [PATCH 18/57] fix: offset and size of storage operations

Offsets were truncated to 32 bits, and with O_DIRECT the sequential mode (-1) was
rounded to 0, so every STORE overwrote the previous one. LOAD did not align at
all with O_DIRECT, causing a read() failure and the exit of the node.
---
 src/dw_node.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 092b45d..8ec5d76 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -501,13 +501,14 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
     storage_info_t* storage_info = &(infos->storage_info);
 
     size_t total_bytes = store_opts->store_nbytes;
-    uint32_t offset = store_opts->offset;
+    uint64_t offset = store_opts->offset;
     uint8_t wait_sync = store_opts->wait_sync;
 
     // Round-up total_bytes to the nearest multiple of blk_size when using O_DIRECT
     if (storage_info->use_odirect) {
         total_bytes = (total_bytes + blk_size - 1) / blk_size * blk_size;
-        offset = (offset + blk_size - 1) / blk_size * blk_size;
+        if (offset != -1)
+            offset = (offset + blk_size - 1) / blk_size * blk_size;
     }
 
     if (offset != -1) {
@@ -553,9 +554,16 @@ void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_op
     storage_info_t* storage_info = &(infos->storage_info);
 
     size_t total_bytes = load_opts->load_nbytes;
-    uint32_t offset = load_opts->offset;
+    uint64_t offset = load_opts->offset;
 
-    dw_log("LOAD: loading %lu bytes from %d offset\n", total_bytes, (int) offset);
+    // Same alignment as in store() when using O_DIRECT
+    if (storage_info->use_odirect) {
+        total_bytes = (total_bytes + blk_size - 1) / blk_size * blk_size;
+        if (offset != -1)
+            offset = (offset + blk_size - 1) / blk_size * blk_size;
+    }
+
+    dw_log("LOAD: loading %lu bytes from %ld offset\n", total_bytes, (long) offset);
     if (offset != -1) {
         if (lseek(storage_info->storage_fd, offset, SEEK_SET) < 0) {
             perror("lseek() failed");
-- 
2.43.0


From d3d2b8f572bc9f0d0d93f01e1c06bad0723d1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:08 +0000
Subject: [PATCH 19/57] fix: check the length of the default storage path

It was checked against the size of the whole structure, instead of the path.
---
 src/dw_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 8ec5d76..d95d114 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1373,7 +1373,7 @@ int main(int argc, char *argv[]) {
     input_args.sched_attrs = (struct sched_attr) { .size = sizeof(struct sched_attr), .sched_policy = SCHED_OTHER, .sched_flags = 0 };
 
     char *home_path = getenv("HOME");
-    check(home_path != NULL && strlen(home_path) + 10 < sizeof(storage_worker_info.storage_info));
+    check(home_path != NULL && strlen(home_path) + 10 < sizeof(storage_worker_info.storage_info.storage_path));
     strcpy(storage_worker_info.storage_info.storage_path, getenv("HOME"));
     strcat(storage_worker_info.storage_info.storage_path, "/.dw_store");
     storage_worker_info.storage_info.storage_fd = -1;
-- 
2.43.0


From de88ee3368c8ba452212e023a3b95df6c779df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:09 +0000
Subject: [PATCH 20/57] fix: honour --no-delay also for accepted connections

---
 src/dw_node.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index d95d114..54cfadf 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1100,9 +1100,8 @@ void* conn_worker(void* args) {
                 dw_log("Accepted connection from: %s:%d\n",
                        inet_ntoa(addr.sin_addr), ntohs(addr.sin_port));
                 setnonblocking(conn_sock);
-                int val = 1;
                 sys_check(setsockopt(conn_sock, IPPROTO_TCP, TCP_NODELAY,
-                                     (void *)&val, sizeof(val)));
+                                     (void *)&no_delay, sizeof(no_delay)));
 
                 int conn_id = conn_alloc(conn_sock, addr, TCP);
                 if (conn_id < 0) {
-- 
2.43.0


From 3e5f9546a7d1defbe4f78587d8be86a16f5a5290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:09 +0000
Subject: [PATCH 21/57] fix: removal from the tail of a wrapped queue

---
 src/queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue.c b/src/queue.c
index a29bb5f..7bfa903 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -44,7 +44,7 @@ void queue_dequeue_tail(queue_t *queue) {
 		return;
 
 	queue->size--;
-	queue->tail = (queue->tail - 1) % queue->capacity;
+	queue->tail = (queue->tail - 1 + queue->capacity) % queue->capacity;
 }
 
 void queue_drop(queue_t* queue) {
-- 
2.43.0


From 6033a4973f6d7974192613f57b0d06ddcd4991f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:09 +0000
Subject: [PATCH 22/57] fix: do not apply the step of a CPU range to the next
 ones

---
 src/thread_affinity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_affinity.c b/src/thread_affinity.c
index 1e85e2a..4909c21 100644
--- a/src/thread_affinity.c
+++ b/src/thread_affinity.c
@@ -18,9 +18,9 @@ void aff_list_parse(char *str, cpu_set_t* mask, int ncpu) {
     int val;
     int max;
 
-    int step = 1;
     CPU_ZERO(mask);
     while ((tok = strsep(&str, ",")) != NULL) {
+        int step = 1;
         if (sscanf(tok, "%d-%d:%d", &min, &max, &step) >= 2) {
             if (min > max) {
                 int tmp = max;
-- 
2.43.0


From 014995bbe613a3fb2ff64a04faea0128b4fd5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:10 +0000
Subject: [PATCH 23/57] fix: do not refuse requests while there are free slots

A single long-standing request, e.g., one waiting for a forward, caused one request
out of 65536 to be refused, closing the connection it came from.
---
 src/request.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/request.c b/src/request.c
index c5940d3..236bcda 100644
--- a/src/request.c
+++ b/src/request.c
@@ -30,12 +30,16 @@ req_info_t* req_free(req_info_t* r) {
 }
 
 req_info_t* req_alloc() {
-    int req_id = atomic_fetch_add(&last_reqs, 1);
-    req_info_t *r = &reqs[req_id % MAX_REQS];
-
-    if (r->req_id != -1)
-        return NULL;
-
+    int req_id;
+    req_info_t *r;
+    unsigned int tries = 0;
+
+    do {
+        if (tries++ == MAX_REQS)
+            return NULL;
+        req_id = atomic_fetch_add(&last_reqs, 1);
+        r = &reqs[req_id % MAX_REQS];
+    } while (r->req_id != -1);
     r->req_id = req_id;
     r->curr_cmd = NULL;
     r->fwd_replies_left = -1;
-- 
2.43.0


From cfbbc7c499114109d204a72d66dbf2bab76c0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:10 +0000
Subject: [PATCH 24/57] fix: release the connection slot on allocation failure

---
 src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index c07447d..5b975d6 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -235,7 +235,7 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
         free(new_recv_buf);
     if (new_send_buf)
         free(new_send_buf);
-
+    atomic_store(&conns[conn_id].busy, 0);
     return -1;
 }
 
-- 
2.43.0


From d778837cf69b01e7555750ff2a80d36003b8f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:25 +0000
Subject: [PATCH 25/57] fix: parsing of --reply with nested forwards

The default reply of a --forward was kept as a pointer to a local variable, used
when no longer valid. With nested forwards, only the first --reply closed a
forward: commands following the others were sent to the wrong node. Besides,
--reply nack=n alone used an uninitialized size, and the samples of a distribution
read from a file were lost.
---
 src/dw_client.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 69d9b1d..5446081 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -601,7 +601,6 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                 ccmd_last(ccmd)->fwd.on_fail_skip = 1;
                 ccmd_last(ccmd)->fwd.proto = fwd_proto;
 
-                nested_fwd_parsing++;
                 i++;
             }
         }
@@ -614,8 +613,12 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         }
         
         // Reserve a forward reply command
-        data_t data = { .ptr=&val }; 
-        queue_enqueue(deferred_replies, i, data);
+        pd_spec_t *p_val = malloc(sizeof(pd_spec_t));
+        check(p_val != NULL);
+        *p_val = val;
+        data_t data = { .ptr=p_val };
+        check(queue_enqueue(deferred_replies, i, data) != NULL, "Too many nested --forward");
+        nested_fwd_parsing++;
 
         break; }
     case SEND_REQUEST_SIZE:
@@ -625,9 +628,10 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         check(send_pkt_size_pd.val + TCPIP_HEADERS_SIZE <= BUF_SIZE, "Too big send request size, maximum is %d", BUF_SIZE);
         break;
     case REPLY_CMD: {
-        pd_spec_t val;
         int nack = 1;
 
+        // Update deferred reply
+        pd_spec_t val = *(pd_spec_t*) queue_node_data(queue_tail(deferred_replies)).ptr;
         char *tok;
         while ((tok = strsep(&arg, ",")) != NULL) {
             if (sscanf(tok, "nack=%d", &nack) == 1) {
@@ -640,15 +644,8 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
             }
         }
 
-        // Update deferred reply
         int deferred_nack = queue_node_key(queue_tail(deferred_replies));
-        pd_spec_t* deferred_val = queue_node_data(queue_tail(deferred_replies)).ptr;
-        deferred_val->val = val.val;
-        deferred_val->min = val.min;
-        deferred_val->max = val.max;
-        deferred_val->std = val.std;
-        deferred_val->prob = val.prob;
-
+        *(pd_spec_t*) queue_node_data(queue_tail(deferred_replies)).ptr = val;
         if (nack == 0) // TODO: allow n_ack 0 when reply messages will be optional 
             nack = 1;
         if (nack > 0 && nack < deferred_nack)
@@ -659,8 +656,9 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
             ccmd_add(ccmd, REPLY, queue_node_data(queue_tail(deferred_replies)).ptr);
             ccmd_last(ccmd)->resp.n_ack = queue_node_key(queue_tail(deferred_replies));
 
+            free(queue_node_data(queue_tail(deferred_replies)).ptr);
             queue_dequeue_tail(deferred_replies);
-            nested_fwd_parsing = 0;
+            nested_fwd_parsing--;
         }
         break; }
     case NUM_THREADS:
-- 
2.43.0


From 26de782e417b2d476fd3fb6b96e6ae0452406432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:54 +0000
Subject: [PATCH 26/57] fix: accept distributions in --store-data

A size like unif:min=n,max=m was split at commas and refused, while --store-data
nosync without a size crashed.
---
 src/dw_client.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 5446081..c4b7d2c 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -515,23 +515,17 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         break; }
     case STORE_DATA: {        
         uint8_t sync = 1;
-        char* reserve;
-        char *tok = strtok_r(arg, ",", &reserve);
-        while (tok != NULL) {
-            if (strncmp(tok, "nosync", 6) == 0) {
-                sync = 0;
-            } else if (strncmp(tok, "sync", 4) == 0) {
-                sync = 1;
-            } else {
-                pd_spec_t val;
-                check(pd_parse_bytes(&val, arg), "Wrong store data size specification");
-                ccmd_add(ccmd, STORE, &val);
-                ccmd_last(ccmd)->pd_val2 = store_offset_pd;
-            }
-
-            tok = strtok_r(NULL, ",", &reserve);
+        // the size specification may contain commas as well
+        char *tok = strrchr(arg, ',');
+        if (tok != NULL && (strcmp(tok, ",nosync") == 0 || strcmp(tok, ",sync") == 0)) {
+            sync = (strcmp(tok, ",sync") == 0);
+            *tok = '\0';
         }
 
+        pd_spec_t val;
+        check(pd_parse_bytes(&val, arg), "Wrong store data size specification");
+        ccmd_add(ccmd, STORE, &val);
+        ccmd_last(ccmd)->pd_val2 = store_offset_pd;
         ccmd_last(ccmd)->store.wait_sync = sync;
 
         break; }
-- 
2.43.0


From 8e5e4eafbdfd99d8666658790e070994c808995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:54 +0000
Subject: [PATCH 27/57] fix: do not skip the next session if the last packet of
 a session is lost

---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index c4b7d2c..f4f90a1 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -303,7 +303,7 @@ void *thread_receiver(void *data) {
         if (m == NULL) {
             printf("Error: cannot read received message\n");
             unsigned long skip_pkts =
-                pkts_per_session - ((i + 1) % pkts_per_session);
+                pkts_per_session - 1 - (i % pkts_per_session);
             printf("Fast-forwarding i by %lu pkts\n", skip_pkts);
             i += skip_pkts;
             goto skip;
-- 
2.43.0


From 1e48e95cb014430de682312b99890fce1e5ae9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:55 +0000
Subject: [PATCH 28/57] fix: release the connection after its sender thread has
 terminated

If the node closed the connection, the send buffer was freed and the socket closed
with the sender thread still using them. Also, packets never sent were reported with
uninitialized timings.
---
 src/dw_client.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index f4f90a1..2dd98ff 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -335,6 +335,10 @@ void *thread_receiver(void *data) {
             dw_log(
                 "Session is over (after receive of pkt %d), closing socket\n",
                 i);
+            // let the sender terminate, if still sending
+            shutdown(clientSocket[thread_id], SHUT_RDWR);
+            dw_log("Joining sender thread\n");
+            pthread_join(sender[thread_id], NULL);
             close(clientSocket[thread_id]);
             conn_free(thr_data.conn_id);
             if (use_per_session_output) {
@@ -357,8 +361,6 @@ void *thread_receiver(void *data) {
                 memset(&usecs_send[thread_id][0], 0, sizeof(usecs_send[thread_id][0]) * MAX_PKTS);
                 memset(&usecs_elapsed[thread_id][0], 0, sizeof(usecs_send[thread_id][0]) * MAX_PKTS);
             }
-            dw_log("Joining sender thread\n");
-            pthread_join(sender[thread_id], NULL);
         }
     }
 
@@ -830,8 +832,8 @@ int main(int argc, char *argv[]) {
     for (int i = 0; i < MAX_THREADS; i++) {
         clientSocket[i] = -1;
         if (i < input_args.num_threads) {
-            check(usecs_send[i] = malloc(sizeof(usecs_send[0][0]) * MAX_PKTS));
-            check(usecs_elapsed[i] = malloc(sizeof(usecs_send[0][0]) * MAX_PKTS));
+            check(usecs_send[i] = calloc(MAX_PKTS, sizeof(usecs_send[0][0])));
+            check(usecs_elapsed[i] = calloc(MAX_PKTS, sizeof(usecs_send[0][0])));
         } else {
             usecs_send[i] = NULL;
             usecs_elapsed[i] = NULL;
-- 
2.43.0


From 38878d1fef636b8a432c116291521f03d47f440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:55 +0000
Subject: [PATCH 29/57] fix: allow for receiving more than BUF_SIZE bytes in a
 session

The client never released the received replies from the receive buffer, causing any
session to fail once it was full.
---
 src/dw_client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 2dd98ff..c4447eb 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -311,12 +311,14 @@ void *thread_receiver(void *data) {
         }
 
         unsigned pkt_id = m->req_id;
-
+        int8_t status = m->status;
 #ifdef DW_DEBUG
         msg_log(m, "received message: ");
 #endif
 
-        if (m->status != 0) {
+        conn_remove_message(conn, m);
+
+        if (status != 0) {
             dw_log("REPLY reported an error\n");
             goto skip;
         }
-- 
2.43.0


From f6ce7a1fa3e8ef0d08c123329eec1dc2c0d89e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:56 +0000
Subject: [PATCH 30/57] fix: never send a truncated request

A request with more commands than what fits in the packet size was truncated, and the
node went on interpreting whatever followed, including the next request.
---
 src/ccmd.c      | 14 ++++++++++----
 src/dw_client.c |  9 ++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index 82712f3..c717650 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -105,12 +105,18 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
     double x = 0;
     command_t *m_cmd_itr = message_first_cmd(m);
 
+    if (m->req_size < sizeof(message_t))
+        return -1;
+    m->req_size -= sizeof(message_t);
+
     while (ccmd_itr) {
-        m_cmd_itr->cmd = ccmd_itr->cmd;
+        if (ccmd_itr->cmd != PSKIP) {
+            if(m->req_size < cmd_type_size(ccmd_itr->cmd))
+                return -1;
+            m->req_size -= cmd_type_size(ccmd_itr->cmd);
 
-        if(m->req_size < cmd_type_size(ccmd_itr->cmd))
-            return -1;
-        m->req_size -= cmd_type_size(ccmd_itr->cmd);
+            m_cmd_itr->cmd = ccmd_itr->cmd;
+        }
 
         switch (ccmd_itr->cmd) {
             case STORE:
diff --git a/src/dw_client.c b/src/dw_client.c
index c4447eb..dc94268 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -128,8 +128,10 @@ void *thread_sender(void *data) {
             fprintf(stderr, "Send buffer full\n");
             break;
         }
-        ccmd_dump(ccmd, m);
-
+        uint32_t avail_size = m->req_size;
+        check(ccmd_dump(ccmd, m) == 1, "Too many commands for a single request");
+        // leftover space was updated by ccmd_dump()
+        uint32_t min_size = avail_size - m->req_size;
         /* remember time of send relative to ts_start */
         struct timespec ts_send;
         clock_gettime(clk_id, &ts_send);
@@ -141,7 +143,8 @@ void *thread_sender(void *data) {
         /*---- Issue a request to the server ---*/
         m->req_id = pkt_id;
         m->req_size = pd_sample(&send_pkt_size_pd);
-
+        if (m->req_size < min_size)
+            m->req_size = min_size;
         dw_log("sending %u bytes...\n", m->req_size);
         assert(m->req_size <= BUF_SIZE);
 
-- 
2.43.0


From 814411337d4b0449f9f7301a3ed0a59e36368056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:07 +0000
Subject: [PATCH 31/57] fix: conversion of the default storage offset

Converting a negative floating-point value to an unsigned integer is undefined.
---
 src/ccmd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index c717650..245a560 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -121,7 +121,8 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
         switch (ccmd_itr->cmd) {
             case STORE:
                 *cmd_get_opts(store_opts_t, m_cmd_itr) = ccmd_itr->store;
-                cmd_get_opts(store_opts_t, m_cmd_itr)->offset = pd_sample(&ccmd_itr->pd_val2);
+                // -1 (sequential access) cannot be directly converted to unsigned
+                cmd_get_opts(store_opts_t, m_cmd_itr)->offset = (int64_t) pd_sample(&ccmd_itr->pd_val2);
                 cmd_get_opts(store_opts_t, m_cmd_itr)->store_nbytes = pd_sample(&ccmd_itr->pd_val);
                 break;
             case COMPUTE:
@@ -129,7 +130,7 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
                 break;
             case LOAD:
                 *cmd_get_opts(load_opts_t, m_cmd_itr) = ccmd_itr->load;
-                cmd_get_opts(load_opts_t, m_cmd_itr)->offset = pd_sample(&ccmd_itr->pd_val2);
+                cmd_get_opts(load_opts_t, m_cmd_itr)->offset = (int64_t) pd_sample(&ccmd_itr->pd_val2);
                 cmd_get_opts(load_opts_t, m_cmd_itr)->load_nbytes = pd_sample(&ccmd_itr->pd_val);
                 break;
             case REPLY: 
-- 
2.43.0


From 047f4d7faa719d8b6145a0a2d7581a7351700384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:57 +0000
Subject: [PATCH 32/57] fix: printing of distributions

Long descriptions overflowed the buffers, and the size of LOAD and STORE commands was
printed also in place of the offset, or vice-versa.
---
 src/ccmd.c    | 12 +++++++-----
 src/distrib.c |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index 245a560..eaaaed6 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -188,19 +188,21 @@ void ccmd_log(ccmd_t* q) {
     ccmd_node_t* curr = q->head;
 
     while (curr) {
-        char opts[64] = "";
+        char opts[384] = "";
 
+        // pd_str() returns a static buffer
         switch (curr->cmd) {
             case STORE:
-                sprintf(opts, "%sb,%s,offset=%s", pd_str(&curr->pd_val),
-                        curr->store.wait_sync ? "sync" : "nosync", pd_str(&curr->pd_val2));
+                sprintf(opts, "%sb,%s", pd_str(&curr->pd_val),
+                        curr->store.wait_sync ? "sync" : "nosync");
+                sprintf(opts + strlen(opts), ",offset=%s", pd_str(&curr->pd_val2));
                 break;
             case COMPUTE:
                 sprintf(opts, "%sus", pd_str(&curr->pd_val));
                 break;
             case LOAD:
-                sprintf(opts, "%sb,offset=%s", pd_str(&curr->pd_val),
-                        pd_str(&curr->pd_val2));
+                sprintf(opts, "%sb", pd_str(&curr->pd_val));
+                sprintf(opts + strlen(opts), ",offset=%s", pd_str(&curr->pd_val2));
                 break;
             case PSKIP:
                 if (curr->pd_val.val < 1.0)
diff --git a/src/distrib.c b/src/distrib.c
index 2a3311f..c127dda 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -335,7 +335,7 @@ double pd_sample(pd_spec_t *p) {
 
 // stringify spec into static array and return it
 char *pd_str(pd_spec_t *p) {
-    static char s[64];
+    static char s[128];
     double scale;
     int k;
     switch (p->prob) {
-- 
2.43.0


From 2c0725429bea128c3ddc7fd27ce09adca7cfb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:20 +0000
Subject: [PATCH 33/57] fix: count a next-hop connection established
 immediately only once

---
 src/dw_node.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 54cfadf..184e37d 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -349,11 +349,9 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
                     return 0;
                 }
                 // normal case of asynchronous connect
-                conn_set_status_by_id(fwd_conn_id, CONNECTING);
-            } else {
-                conn_set_status_by_id(fwd_conn_id, READY);
-                infos->active_conns++;
             }
+            // even if connect() succeeded immediately, the CONNECT event follows
+            conn_set_status_by_id(fwd_conn_id, CONNECTING);
         } else {
             struct epoll_event ev;
             ev.events = EPOLLIN;
-- 
2.43.0


From e213cc75379e499b6694cde0d3946b4e71938f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:20 +0000
Subject: [PATCH 34/57] fix: handle forward timeouts that do not fit in an int

---
 src/dw_node.c         | 16 ++++++++--------
 src/priority_queue.c  |  2 +-
 src/priority_queue.h  |  4 ++--
 src/queueing_common.h |  2 +-
 src/timespec.h        |  4 ++--
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 184e37d..dcfb0dd 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -86,7 +86,7 @@ typedef struct {
     int epollfd;
 
     pqueue_t *timeout_queue;
-    int time_elapsed;
+    int64_t time_elapsed;
 
     // communication with storage
     int storefd; // write
@@ -199,10 +199,10 @@ int safe_read(int fd, unsigned char *buf, size_t len) {
     return 0;
 }
 
-void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micros) {
+void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int64_t micros) {
     data_t data = {.value = req_id};
     req_info_t *req = req_get_by_id(req_id);
-    int new_micros = micros;
+    int64_t new_micros = micros;
 
     if (req == NULL)
         return;
@@ -222,18 +222,18 @@ void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micr
         sys_check(timerfd_settime(infos->timerfd, 0, &timerspec, NULL));
     }
 
-    dw_log("TIMEOUT inserted, req_id: %d, timeout: %dus\n", req_id, micros);
+    dw_log("TIMEOUT inserted, req_id: %d, timeout: %ldus\n", req_id, (long) micros);
 }
 
 // remove a timeout from a request and returns the time remained before timeout
-int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
+int64_t remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
     req_info_t *req = req_get_by_id(req_id);
     if (!req || !req->timeout_node)
         return -1;
 
     node_t *top = pqueue_top(infos->timeout_queue);
     struct itimerspec timerspec = {0};
-    int time_elapsed, req_timeout;
+    int64_t time_elapsed, req_timeout;
     bool is_top = (top == req->timeout_node);
 
     req_timeout = pqueue_node_key(req->timeout_node);
@@ -249,13 +249,13 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
     }
 
     if (pqueue_size(infos->timeout_queue) > 0) {
-        int next_timeout = pqueue_node_key(pqueue_top(infos->timeout_queue));
+        int64_t next_timeout = pqueue_node_key(pqueue_top(infos->timeout_queue));
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
         infos->time_elapsed = time_elapsed;
         // 0 would disarm the timer
         timerspec = us_to_its(max(next_timeout - time_elapsed, 1));
         sys_check(timerfd_settime(infos->timerfd, 0, &timerspec, NULL));
-        dw_log("TIMEOUT removed, req_id: %d, next interrupt: %dus\n", req_id, next_timeout - time_elapsed);
+        dw_log("TIMEOUT removed, req_id: %d, next interrupt: %ldus\n", req_id, (long) (next_timeout - time_elapsed));
     } else {
         infos->time_elapsed = 0;
         timerspec = us_to_its(0);
diff --git a/src/priority_queue.c b/src/priority_queue.c
index 16150f9..d02992f 100644
--- a/src/priority_queue.c
+++ b/src/priority_queue.c
@@ -82,7 +82,7 @@ static void down(pqueue_t *queue, node_t *node) {
 	}
 }
 
-node_t* pqueue_insert(pqueue_t *queue, int key, data_t data) {
+node_t* pqueue_insert(pqueue_t *queue, int64_t key, data_t data) {
 	int node_id = queue->stack[queue->capacity - queue->size - 1];
 	node_t *node = &(queue->nodes[node_id]);
 
diff --git a/src/priority_queue.h b/src/priority_queue.h
index aeea215..e37b367 100644
--- a/src/priority_queue.h
+++ b/src/priority_queue.h
@@ -17,7 +17,7 @@ typedef struct pqueue_t {
 pqueue_t* pqueue_alloc(uint32_t capacity);
 void pqueue_free(pqueue_t *queue);
 
-node_t* pqueue_insert(pqueue_t *queue, int key, data_t data);
+node_t* pqueue_insert(pqueue_t *queue, int64_t key, data_t data);
 void pqueue_remove(pqueue_t *queue, node_t *node);
 void pqueue_pop(pqueue_t *queue);
 
@@ -26,6 +26,6 @@ static inline int pqueue_capacity(pqueue_t *queue) { return queue->capacity; }
 static inline node_t* pqueue_top(pqueue_t *queue) { return (!queue->size) ? NULL : &queue->nodes[queue->heap[0]]; }
 
 static inline data_t pqueue_node_data(node_t *node) { return node->data; }
-static inline int pqueue_node_key(node_t *node) { return node->key; }
+static inline int64_t pqueue_node_key(node_t *node) { return node->key; }
 
 #endif /* __PRIORITY_QUEUE_H__ */
diff --git a/src/queueing_common.h b/src/queueing_common.h
index 6d05edc..4a76500 100644
--- a/src/queueing_common.h
+++ b/src/queueing_common.h
@@ -13,7 +13,7 @@ typedef union {
 
 typedef struct node_t {
 	uint32_t heap_id; // for pqueue
-	int key;
+	int64_t key;
 	data_t data;
 } node_t;
 
diff --git a/src/timespec.h b/src/timespec.h
index 0513eb5..7b9e79e 100644
--- a/src/timespec.h
+++ b/src/timespec.h
@@ -36,11 +36,11 @@ static inline int ts_leq(struct timespec a, struct timespec b) {
             || (ts.tv_sec == 0 && ((signed long) ts.tv_nsec) < 0));
 }
 
-static inline int its_to_us(struct itimerspec t) {
+static inline long its_to_us(struct itimerspec t) {
     return t.it_value.tv_sec * 1000000 + t.it_value.tv_nsec / 1000;
 }
 
-static inline struct itimerspec us_to_its(int micros) {
+static inline struct itimerspec us_to_its(long micros) {
     struct itimerspec timerspec = {0};
     timerspec.it_value.tv_sec = (micros / 1000000);
     timerspec.it_value.tv_nsec = (micros % 1000000) * 1000;
-- 
2.43.0


From 8569ba63c2696a4774181a8b8c0a909f23ea9353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:15 +0000
Subject: [PATCH 35/57] fix: do not count late replies for the next forward of
 a request

A forwarded request carries the id of the request being served. If a reply
to a forward arrived after the required ones, and the request had another
forward in progress, it was taken as a reply to the latter. Give the request
a new id, mapping to the same slot, after each forward.
---
 src/dw_node.c | 2 ++
 src/request.h | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/dw_node.c b/src/dw_node.c
index dcfb0dd..296db57 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -442,6 +442,7 @@ void handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, 1);
         
         remove_timeout(infos, req_id, epollfd);
+        req_id = req_renew_id(req);
 
         if (process_messages(req, epollfd, infos) < 0)
             fail_request(req_id, conn_id, epollfd, infos);
@@ -785,6 +786,7 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
     conn_info_t *conn = conn_get_by_id(req->conn_id);
 
     remove_timeout(infos, req_id, epollfd);
+    req_id = req_renew_id(req);
 
     command_t *p_cmd = req->curr_cmd;
     // if curr_cmd is no more on MULTI_FORWARD, ignore
diff --git a/src/request.h b/src/request.h
index a8973ee..4eb6be5 100644
--- a/src/request.h
+++ b/src/request.h
@@ -40,4 +40,10 @@ static inline req_info_t *req_get_by_id(int req_id) {
     return &reqs[req_id % MAX_REQS];
 }
 
+// change the id of a request, so that late replies to its previous FORWARD do not match
+static inline int req_renew_id(req_info_t *r) {
+    r->req_id += MAX_REQS;
+    return r->req_id;
+}
+
 #endif /* __REQUEST_H__ */
-- 
2.43.0


From fdf43daaec397d3e933b78b222a2244c953b7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:42 +0000
Subject: [PATCH 36/57] fix: keep running when epoll_wait() is interrupted

perror() may change errno, in which case the node exited when resumed
after having been stopped.
---
 src/dw_node.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 296db57..07eac83 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -938,12 +938,12 @@ void* storage_worker(void* args) {
         dw_log("epoll_wait()ing...\n");
         int nfds = epoll_wait(epollfd, events, MAX_EVENTS, -1);
         if (nfds == -1) {
-            perror("epoll_wait");
+            // to be checked first, as perror() may change errno
+            if (errno == EINTR)
+                continue;
 
-            if (errno != EINTR) {
-                perror("epoll_wait() failed (storage_worker): ");
-                exit(EXIT_FAILURE);
-            }
+            perror("epoll_wait() failed (storage_worker): ");
+            exit(EXIT_FAILURE);
         }
 
         int fd;
@@ -1073,12 +1073,12 @@ void* conn_worker(void* args) {
         dw_log("epoll_wait()ing...\n");
         int nfds = epoll_wait(infos->epollfd, events, MAX_EVENTS, -1);
         if (nfds == -1) {
-            perror("epoll_wait");
+            // to be checked first, as perror() may change errno
+            if (errno == EINTR)
+                continue;
 
-            if (errno != EINTR) {
-                perror("epoll_wait() failed (conn_worker): ");
-                exit(EXIT_FAILURE);
-            }
+            perror("epoll_wait() failed (conn_worker): ");
+            exit(EXIT_FAILURE);
         }
 
         int fd;
-- 
2.43.0


From bdfc753d05ae564256a2c9d6c2387ddb8797eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:42 +0000
Subject: [PATCH 37/57] fix: forward a MULTI_FORWARD that comes first within a
 FORWARD

---
 src/dw_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 07eac83..0b806d7 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -369,7 +369,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     }
 
     command_t *c = cmd_next(cmd);
-    while (c->cmd != EOM && c->cmd == MULTI_FORWARD) {
+    while (cmd->cmd == MULTI_FORWARD && c->cmd == MULTI_FORWARD) {
         c = cmd_next(c);
     }
 
-- 
2.43.0


From daecc6bf4c0f70db62042e5d7662d5753a048b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:16 +0000
Subject: [PATCH 38/57] fix: refuse empty and out-of-range ports

---
 src/address_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/address_utils.c b/src/address_utils.c
index 59705d1..182043d 100644
--- a/src/address_utils.c
+++ b/src/address_utils.c
@@ -30,8 +30,10 @@ void addr_parse(char* hostport_str, struct sockaddr_in* addr) {
 
         // Convert port string to integer
         char* end_ptr = NULL;
-        port = strtol(port_str, &end_ptr, 10);
-        check(!*end_ptr, "Port '%s' is not a numeric value!\n", port_str);
+        long val = strtol(port_str, &end_ptr, 10);
+        check(*port_str && !*end_ptr, "Port '%s' is not a numeric value!\n", port_str);
+        check(val >= 0 && val <= 65535, "Port '%s' is out of range!\n", port_str);
+        port = val;
     }
 
     // Now hostport_str containts hostname (or ip) only
-- 
2.43.0


From 6e38cfb82760540b4f3d8d280e550d1a7a8e7545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:16 +0000
Subject: [PATCH 39/57] fix: do not take the start of a hostname for a protocol

---
 src/address_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/address_utils.c b/src/address_utils.c
index 182043d..6486d74 100644
--- a/src/address_utils.c
+++ b/src/address_utils.c
@@ -74,11 +74,11 @@ void addr_proto_parse(char* arg, char *nodehostport, proto_t *proto) {
     if (!tok) {
         int parse_proto_check = 0;
 
-        if (strncmp(arg, "udp", 3) == 0) {
+        if (strncmp(arg, "udp", 3) == 0 && (arg[3] == ':' || arg[3] == '\0')) {
             *proto = UDP;
             parse_proto_check = 1;
         }
-        if (strncmp(arg, "tcp", 3) == 0) {
+        if (strncmp(arg, "tcp", 3) == 0 && (arg[3] == ':' || arg[3] == '\0')) {
             *proto = TCP;
             parse_proto_check = 1;
         }
-- 
2.43.0


From ff5912aa0e78d0cb63131076d2cf3d9dfa598775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:16 +0000
Subject: [PATCH 40/57] fix: forward to the default address if only the
 protocol is given

---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index dc94268..c5c8be2 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -577,7 +577,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                 || sscanf(tok, "timeout=%d", &timeout_us) == 1)
                     continue;
             else {
-                char fwdhostport[MAX_HOSTPORT_STRLEN];
+                char fwdhostport[MAX_HOSTPORT_STRLEN] = DEFAULT_ADDR ":" DEFAULT_PORT;
                 proto_t fwd_proto = TCP;
 
                 addr_proto_parse(tok, fwdhostport, &fwd_proto);
-- 
2.43.0


From 61fa76df489e82f193901cfb3b375155551f812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:16 +0000
Subject: [PATCH 41/57] fix: length of decreasing and of geometric sequences

---
 src/distrib.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/distrib.c b/src/distrib.c
index c127dda..b61dc32 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -383,11 +383,12 @@ int pd_len(pd_spec_t *p) {
     int rv;
     switch (p->prob) {
     case ARITH_SEQ:
-        rv = (p->max + p->std - p->min) / p->std;
+        // the step may be negative, and the division may be rounded down
+        rv = (p->max - p->min) / fabs(p->std) + 1 + 1e-9;
         break;
     case GEO_SEQ:
-        check(log(p->std) > 0);
-        rv = (log(p->max / p->min) / log(p->std)) + 1;
+        check(p->std > 0 && p->std != 1);
+        rv = fabs(log(p->max / p->min) / log(p->std)) + 1 + 1e-9;
         break;
     case SFILE:
         rv = p->num_samples;
-- 
2.43.0


From 601ddf0a5131799b7b1dfd912389dd552fc39464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:16 +0000
Subject: [PATCH 42/57] fix: apply the unit of any size in a distribution, not
 just of the last

---
 src/distrib.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/distrib.c b/src/distrib.c
index b61dc32..22866bd 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -124,6 +124,9 @@ int sscanf_unit(const char *str, const char *fmt, double *p_val, int is_time) {
     int rv = sscanf(str, fmt, p_val);
     if (rv != 1)
         return rv;
+    // the unit may be followed by b, as in kb
+    if (l >= 2 && !is_time && (str[l - 1] == 'b' || str[l - 1] == 'B'))
+        l--;
     switch (str[l - 1]) {
     case 'k':
     case 'K':
-- 
2.43.0


From c711d470c9d25f51c3bad2383aaec89a11809878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:04 +0000
Subject: [PATCH 43/57] fix: advance the rate ramp of each thread by one rate
 per step

---
 src/dw_client.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index c5c8be2..8f7faa7 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -81,6 +81,13 @@ unsigned long num_pkts = 1;
 
 unsigned int ramp_step_secs = 0;   // used with --rate
 
+// each thread goes through all the steps of the ramp, across its sessions
+struct {
+    int step;
+    pd_spec_t rate_pd;
+    pd_spec_t period_us_pd;
+} thread_ramp[MAX_THREADS];
+
 proto_t proto = TCP;
 
 struct sockaddr_in serveraddr;
@@ -159,23 +166,16 @@ void *thread_sender(void *data) {
             break;
         }
 
-        if (ramp_step_secs != 0 && pkt_id > 0) {
-            int step_prev =
-                usecs_send[thread_id][idx(pkt_id - 1)] / 1000000 / ramp_step_secs;
-            int step =
-                usecs_send[thread_id][idx(pkt_id)] / 1000000 / ramp_step_secs;
-            int rate;
-            while (step_prev++ < step) {
-                int old_rate = 1000000.0 / send_period_us_pd.val;
-                rate = pd_sample(&send_rate_pd);
-                send_period_us_pd.val = 1000000.0 / rate;
-                if (rate != old_rate) {
-                    dw_log("pkt_id: %d, old_rate: %d, rate: %d\n", pkt_id, old_rate, rate);
-                }
+        if (ramp_step_secs != 0) {
+            int step = usecs_send[thread_id][idx(pkt_id)] / 1000000 / ramp_step_secs;
+            for (; thread_ramp[thread_id].step < step; thread_ramp[thread_id].step++) {
+                double rate = pd_sample(&thread_ramp[thread_id].rate_pd);
+                thread_ramp[thread_id].period_us_pd.val = 1000000.0 / rate;
+                dw_log("pkt_id: %d, rate: %g\n", pkt_id, rate);
             }
         }
 
-        unsigned long period_ns = pd_sample(&send_period_us_pd) * 1000.0;
+        unsigned long period_ns = pd_sample(&thread_ramp[thread_id].period_us_pd) * 1000.0;
         dw_log("period_ns=%lu\n", period_ns);
         struct timespec ts_delta =
             (struct timespec) { period_ns / 1000000000, period_ns % 1000000000 };
@@ -251,6 +251,10 @@ void *thread_receiver(void *data) {
     message_t *m = NULL;
     int recv = 0;
 
+    thread_ramp[thread_id].step = 0;
+    thread_ramp[thread_id].rate_pd = send_rate_pd;
+    thread_ramp[thread_id].period_us_pd = send_period_us_pd;
+
     if (staggered_send) {
         struct timespec ts_sync = ts_add(ts_start, (struct timespec) { .tv_sec = 0, .tv_nsec = 200000000l + thread_id * send_period_us_pd.val * 1000 / input_args.num_threads });
         clock_nanosleep(clk_id, TIMER_ABSTIME, &ts_sync, NULL);
-- 
2.43.0


From a7759e7e286bcb69302eb9f86dffb2d67aa9acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:18 +0000
Subject: [PATCH 44/57] fix: complete the sending of requests with --non-block

---
 src/dw_client.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 8f7faa7..9a442f4 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -5,6 +5,7 @@
 #include <netdb.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
+#include <poll.h>
 #include <pthread.h>
 #include <signal.h>
 #include <stdio.h>
@@ -158,7 +159,14 @@ void *thread_sender(void *data) {
 #ifdef DW_DEBUG
         msg_log(m, "Sending msg: ");
 #endif
-        if (conn_start_send(conn, conn->target) < 0) {
+        int rv = conn_start_send(conn, conn->target);
+        // with --non-block, (part of) the request may have to wait
+        while (rv >= 0 && conn->curr_send_size > 0) {
+            struct pollfd pfd = { .fd = conn->sock, .events = POLLOUT };
+            poll(&pfd, 1, -1);
+            rv = conn_send(conn);
+        }
+        if (rv < 0) {
             fprintf(stderr,
                     "Forcing premature termination of sender thread while "
                     "attempting to send pkt %d\n",
-- 
2.43.0


From ab169628a848ed93378dd296bf0beb51fd2f4e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:40 +0000
Subject: [PATCH 45/57] fix: sequences and samples shared by several client
 threads

---
 src/distrib.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/distrib.c b/src/distrib.c
index 22866bd..ded9e7a 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -2,12 +2,16 @@
 #include "dw_debug.h"
 
 #include <math.h>
+#include <pthread.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
 
 __thread struct drand48_data rnd_buf;
 
+// a sequence may be sampled by several threads
+static pthread_mutex_t seq_mtx = PTHREAD_MUTEX_INITIALIZER;
+
 double expon(double lambda) {
     double x;
     drand48_r(&rnd_buf, &x);
@@ -306,24 +310,30 @@ double pd_sample(pd_spec_t *p) {
         val = distr_gamma(p->val, p->std);
         break;
     case ARITH_SEQ:
+        pthread_mutex_lock(&seq_mtx);
         val = p->val;
         p->val += p->std;
         if (p->val >= p->max)
             p->val = p->max;
         else if (p->val <= p->min)
             p->val = p->min;
+        pthread_mutex_unlock(&seq_mtx);
         break;
     case GEO_SEQ:
+        pthread_mutex_lock(&seq_mtx);
         val = p->val;
         p->val *= p->std;
         if (p->val >= p->max)
             p->val = p->max;
         else if (p->val <= p->min)
             p->val = p->min;
+        pthread_mutex_unlock(&seq_mtx);
         break;
     case SFILE:
+        pthread_mutex_lock(&seq_mtx);
         val = p->samples[p->cur_sample++];
         p->cur_sample %= p->num_samples;
+        pthread_mutex_unlock(&seq_mtx);
         break;
     default:
         fprintf(stderr, "Unexpected prob type: %d\n", p->prob);
-- 
2.43.0


From b92fc2ad03dc1dc02b21d306b090a134f452fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:47 +0000
Subject: [PATCH 46/57] fix: never skip the REPLY after the commands to be
 skipped

With as many commands to skip as, or more than, those left, the reply was
skipped as well and the client waited for it forever.
---
 src/ccmd.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index eaaaed6..152e592 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -103,6 +103,7 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
     ccmd_node_t* ccmd_itr = q->head;
 
     double x = 0;
+    int n_skip;
     command_t *m_cmd_itr = message_first_cmd(m);
 
     if (m->req_size < sizeof(message_t))
@@ -140,10 +141,11 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
             case PSKIP:
                 drand48_r(&rnd_buf, &x);
                 dw_log("skip: x=%g, prob=%g\n", x, ccmd_itr->pd_val.val);
-                if (x <= ccmd_itr->pd_val.val)
-                    ccmd_itr = ccmd_skip(ccmd_itr->next, ccmd_itr->n_skip);
-                else
-                    ccmd_itr = ccmd_itr -> next;
+                n_skip = x <= ccmd_itr->pd_val.val ? ccmd_itr->n_skip : 0;
+                ccmd_itr = ccmd_itr->next;
+                // the REPLY after the commands to be skipped is always needed
+                for (; ccmd_itr && ccmd_itr->cmd != REPLY && n_skip > 0; n_skip--)
+                    ccmd_itr = ccmd_skip(ccmd_itr, 1);
                 continue;
             case MULTI_FORWARD:
             case FORWARD:
-- 
2.43.0


From 8fd8cef84a3b29d06653d53d0206eb7865639360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:27 +0000
Subject: [PATCH 47/57] fix: keep the data of the session for as long as it is
 used

The variable was declared within the loop over the packets, but only set at
the first packet of each session: its value was indeterminate afterwards.
---
 src/dw_client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 9a442f4..ca032b2 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -268,8 +268,9 @@ void *thread_receiver(void *data) {
         clock_nanosleep(clk_id, TIMER_ABSTIME, &ts_sync, NULL);
     }
 
+    thread_data_t thr_data;
+
     for (int i = 0; i < num_pkts; i++) {
-        thread_data_t thr_data;
         if (i % pkts_per_session == 0) {
             struct timespec ts1, ts2;
             if (conn_times)
-- 
2.43.0


From 164fcaba73359429e0ebbba10eb734ac9783a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:35 +0000
Subject: [PATCH 48/57] fix: distributions of several fields in --reply

The argument was split at every comma, so that the fields of a distribution
were taken for separate values and refused. The given min and max were also
overwritten by the smallest and largest possible sizes.
---
 src/dw_client.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index ca032b2..b11289c 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -646,16 +646,27 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
 
         // Update deferred reply
         pd_spec_t val = *(pd_spec_t*) queue_node_data(queue_tail(deferred_replies)).ptr;
+        char *spec = NULL, *spec_end = NULL; // all but nack=, it has its own commas
         char *tok;
         while ((tok = strsep(&arg, ",")) != NULL) {
             if (sscanf(tok, "nack=%d", &nack) == 1) {
                 continue;
+            } else if (spec == NULL) {
+                spec = tok;
+                spec_end = tok + strlen(tok);
             } else {
-                check(pd_parse_bytes(&val, tok), "Wrong response size specification");
+                *spec_end++ = ',';
+                memmove(spec_end, tok, strlen(tok) + 1);
+                spec_end += strlen(spec_end);
+            }
+        }
+        if (spec != NULL) {
+            check(pd_parse_bytes(&val, spec), "Wrong response size specification");
+            if (isnan(val.min) || val.min < MIN_REPLY_SIZE)
                 val.min = MIN_REPLY_SIZE;
+            if (isnan(val.max) || val.max > BUF_SIZE)
                 val.max = BUF_SIZE;
-                check(val.prob != FIXED || (val.val >= val.min && val.val <= val.max), "Wrong min-max range for response size");
-            }
+            check(val.min <= val.max && (val.prob != FIXED || (val.val >= val.min && val.val <= val.max)), "Wrong min-max range for response size");
         }
 
         int deferred_nack = queue_node_key(queue_tail(deferred_replies));
-- 
2.43.0


From 3747af190197fed44d304e1a73acae96bee46e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:09 +0000
Subject: [PATCH 49/57] fix: forget the last message of a session when
 releasing its buffers

The pointer to it was still looked at, at the start of the next session.
---
 src/dw_client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dw_client.c b/src/dw_client.c
index b11289c..569f806 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -359,6 +359,7 @@ void *thread_receiver(void *data) {
             pthread_join(sender[thread_id], NULL);
             close(clientSocket[thread_id]);
             conn_free(thr_data.conn_id);
+            m = NULL;
             if (use_per_session_output) {
                 int first_sess_pkt = i - (pkts_per_session - 1);
                 int sess_id = i / pkts_per_session;
-- 
2.43.0


From 1af73e64e9f08f3c489afbe3591a8819ce748172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:42 +0000
Subject: [PATCH 50/57] fix: report why the connection to the node failed

The socket was closed twice, and the error printed was the one of the second
close(): Bad file descriptor.
---
 src/dw_client.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 569f806..1e9a848 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -279,8 +279,7 @@ void *thread_receiver(void *data) {
             if (conn_times)
                 clock_gettime(CLOCK_MONOTONIC, &ts2);
             // check if connection succeeded
-            if (rv != 0) {
-                close(clientSocket[thread_id]);
+            if (rv != 0) { // socket already closed
                 fprintf(stderr, "Connection to %s:%d failed: %s\n", inet_ntoa((struct in_addr) {serveraddr.sin_addr.s_addr}), ntohs(serveraddr.sin_port), strerror(errno));
                 ccmd_destroy(&ccmd);
                 exit(EXIT_FAILURE);
-- 
2.43.0


From 9f1e23bd3b1dc858049c77765268e482628ab18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:12 +0000
Subject: [PATCH 51/57] fix: claim free requests atomically

A thread could be preempted between finding a request free and taking it,
while another one that went through all of the ids took it as well.
---
 src/request.c | 6 +++---
 src/request.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/request.c b/src/request.c
index 236bcda..1710341 100644
--- a/src/request.c
+++ b/src/request.c
@@ -30,7 +30,7 @@ req_info_t* req_free(req_info_t* r) {
 }
 
 req_info_t* req_alloc() {
-    int req_id;
+    int req_id, free_id;
     req_info_t *r;
     unsigned int tries = 0;
 
@@ -39,8 +39,8 @@ req_info_t* req_alloc() {
             return NULL;
         req_id = atomic_fetch_add(&last_reqs, 1);
         r = &reqs[req_id % MAX_REQS];
-    } while (r->req_id != -1);
-    r->req_id = req_id;
+        free_id = -1;
+    } while (!atomic_compare_exchange_strong(&r->req_id, &free_id, req_id));
     r->curr_cmd = NULL;
     r->fwd_replies_left = -1;
     r->timeout_node = NULL;
diff --git a/src/request.h b/src/request.h
index 4eb6be5..9a6c23a 100644
--- a/src/request.h
+++ b/src/request.h
@@ -12,7 +12,7 @@
 typedef struct req_info_t req_info_t;
 
 struct req_info_t {
-    int req_id;
+    atomic_int req_id;            // -1 if free
     int conn_id;
     struct sockaddr_in target;
     int fwd_replies_left;
-- 
2.43.0


From 8b538b8a213578398d572a1602dfd47bfd5ae800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:12 +0000
Subject: [PATCH 52/57] fix: do not match the id of free requests

A message from the network with such an id was taken as the reply to a FORWARD
of a request that was over.
---
 src/request.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.h b/src/request.h
index 9a6c23a..b512cce 100644
--- a/src/request.h
+++ b/src/request.h
@@ -35,7 +35,7 @@ static inline message_t* req_get_message(req_info_t *r) {
 }
 
 static inline req_info_t *req_get_by_id(int req_id) {
-    if (reqs[req_id % MAX_REQS].req_id != req_id)
+    if (req_id == -1 || reqs[req_id % MAX_REQS].req_id != req_id)
         return NULL;
     return &reqs[req_id % MAX_REQS];
 }
-- 
2.43.0


From c927d1d17b1c81927b9f57592dcd56bb4afb0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:37 +0000
Subject: [PATCH 53/57] fix: never look up a connection that another thread is
 setting up

The socket was set before the thread it belongs to: until then, the thread
that last had that connection could take it as its own.
---
 src/connection.c | 5 +++--
 src/connection.h | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 5b975d6..62f84b9 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -117,7 +117,7 @@ int conn_find_existing(struct sockaddr_in target, proto_t proto) {
         if (conns[i].sock == -1)
             continue;
         // only the thread that polls a socket can use it
-        if (conns[i].proto != proto || conns[i].parent_thread != curr_thread)
+        if (conns[i].parent_thread != curr_thread || conns[i].proto != proto)
             continue;
         if (proto == UDP) {
             rv = i;
@@ -211,13 +211,14 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     if (!new_recv_buf || !new_send_buf)
         goto continue_free;
 
+    // other threads look at these: sock comes last, as it makes them valid
+    conns[conn_id].parent_thread = pthread_self();
     conns[conn_id].proto = proto;
     conns[conn_id].target = target;
     conns[conn_id].sock = conn_sock;
     conns[conn_id].status = (proto == TCP ? NOT_INIT : READY);
     conns[conn_id].recv_buf = new_recv_buf;
     conns[conn_id].send_buf = new_send_buf;
-    conns[conn_id].parent_thread = pthread_self(); 
 
     dw_log("CONN allocated, conn_id: %d\n", conn_id);
     conns[conn_id].curr_recv_buf = conns[conn_id].recv_buf;
diff --git a/src/connection.h b/src/connection.h
index 2e5da96..d9fd98e 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -21,7 +21,7 @@ typedef enum {
 
 typedef struct {
     proto_t proto;                // transport protocol to use (TCP or UDP)
-    int sock;                     // -1 for unused conn_info_t
+    atomic_int sock;              // -1 for unused conn_info_t
     conn_status_t status;         // status of the connection
 
     struct sockaddr_in target;    // target of the connection
@@ -39,7 +39,7 @@ typedef struct {
 
     req_info_t *req_list;
     unsigned int serialize_request;
-    pthread_t parent_thread;
+    _Atomic pthread_t parent_thread;
     atomic_int busy;             // 1 if conn is allocated, 0 otherwise
 } conn_info_t;
 
-- 
2.43.0


From 1a81f70a8d70bacd9592c3a242cce066bff7824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:37 +0000
Subject: [PATCH 54/57] fix: do not release the commands while other threads
 send them

A thread failing to connect did so just before terminating the client, which
could thus crash instead.
---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 1e9a848..29dd0e0 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -281,7 +281,7 @@ void *thread_receiver(void *data) {
             // check if connection succeeded
             if (rv != 0) { // socket already closed
                 fprintf(stderr, "Connection to %s:%d failed: %s\n", inet_ntoa((struct in_addr) {serveraddr.sin_addr.s_addr}), ntohs(serveraddr.sin_port), strerror(errno));
-                ccmd_destroy(&ccmd);
+                // other threads may still be using ccmd
                 exit(EXIT_FAILURE);
             }
 
-- 
2.43.0


From e545ba24449b8f704ebd061a3522dd03bd2ab960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:16 +0000
Subject: [PATCH 55/57] fix: do not let threads receive datagrams in the same
 buffer

With --accept-mode=shared, all threads polled the same UDP socket and used
the same conn_info_t, corrupting each other's requests.
---
 src/dw_node.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 0b806d7..7c47f39 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -81,6 +81,7 @@ const char* get_event_str(event_t event) {
 
 typedef struct {
     int listen_sock;
+    int listen_conn_id; // where to receive from listen_sock (UDP only), or -1
     int timerfd;        // special timerfd to handle forward timeouts
     int statfd;          // special signalfd to print statistics
     int epollfd;
@@ -1034,7 +1035,7 @@ void* conn_worker(void* args) {
 
     if (accept_mode != AM_PARENT || infos == conn_worker_infos) {
         // Add listen socket
-        int conn_id = conn_find_sock(infos->listen_sock);
+        int conn_id = infos->listen_conn_id;
 
         ev.events = EPOLLIN;
         if(conn_id == -1) // TCP
@@ -1328,8 +1329,6 @@ void init_listen_sock(int i, accept_mode_t accept_mode, proto_t proto, struct so
             conn_worker_infos[i].listen_sock = socket(PF_INET, SOCK_STREAM, 0);
         } else {
             conn_worker_infos[i].listen_sock = socket(PF_INET, SOCK_DGRAM, 0);
-            int conn_id = conn_alloc(conn_worker_infos[i].listen_sock, serverAddr, UDP);
-            conn_set_status_by_id(conn_id, READY);
         }
         int val = 1;
         sys_check(setsockopt(conn_worker_infos[i].listen_sock, SOL_SOCKET, SO_REUSEADDR, (void *)&val, sizeof(val)));
@@ -1354,6 +1353,13 @@ void init_listen_sock(int i, accept_mode_t accept_mode, proto_t proto, struct so
     } else if (accept_mode == AM_PARENT) {
         conn_worker_infos[i].listen_sock = -1;
     }
+
+    // threads may share the socket, but not the buffers
+    conn_worker_infos[i].listen_conn_id = -1;
+    if (proto == UDP && conn_worker_infos[i].listen_sock != -1) {
+        conn_worker_infos[i].listen_conn_id = conn_alloc(conn_worker_infos[i].listen_sock, serverAddr, UDP);
+        conn_set_status_by_id(conn_worker_infos[i].listen_conn_id, READY);
+    }
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From 52892f52dfd92a6b410b83f85d3e4e466999a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:31 +0000
Subject: [PATCH 56/57] fix: do not wait for a datagram that another thread has
 taken

With --accept-mode=shared, a datagram wakes all threads. The ones that find
no datagram got stuck in recvfrom(), ignoring all of their other events.
---
 src/connection.c | 3 ++-
 src/connection.h | 1 +
 src/dw_node.c    | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index 62f84b9..62b6b14 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -227,6 +227,7 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     conns[conn_id].curr_send_buf = conns[conn_id].send_buf;
     conns[conn_id].curr_send_size = 0;
     conns[conn_id].serialize_request = 0;
+    conns[conn_id].recv_flags = 0;
 
     return conn_id;
 
@@ -373,7 +374,7 @@ int conn_recv(conn_info_t *conn) {
     // outstanding requests filled the buffer, leave data in the socket
     if (conn->curr_recv_size == 0)
         return 1;
-    size_t received = recvfrom(sock, conn->curr_recv_buf, conn->curr_recv_size, 0,
+    size_t received = recvfrom(sock, conn->curr_recv_buf, conn->curr_recv_size, conn->recv_flags,
                                (struct sockaddr*)&conn->target, (socklen_t*)&recvsize);
     dw_log("RECV returned: %d\n", (int)received);
     if (received == 0 && conn->proto == TCP) {
diff --git a/src/connection.h b/src/connection.h
index d9fd98e..548b0fa 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -40,6 +40,7 @@ typedef struct {
     req_info_t *req_list;
     unsigned int serialize_request;
     _Atomic pthread_t parent_thread;
+    int recv_flags;               // for recvfrom()
     atomic_int busy;             // 1 if conn is allocated, 0 otherwise
 } conn_info_t;
 
diff --git a/src/dw_node.c b/src/dw_node.c
index 7c47f39..c7c6fcc 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1359,6 +1359,8 @@ void init_listen_sock(int i, accept_mode_t accept_mode, proto_t proto, struct so
     if (proto == UDP && conn_worker_infos[i].listen_sock != -1) {
         conn_worker_infos[i].listen_conn_id = conn_alloc(conn_worker_infos[i].listen_sock, serverAddr, UDP);
         conn_set_status_by_id(conn_worker_infos[i].listen_conn_id, READY);
+        // another thread may take the datagram first
+        conn_get_by_id(conn_worker_infos[i].listen_conn_id)->recv_flags = MSG_DONTWAIT;
     }
 }
 
-- 
2.43.0


From a482fc228f163d1f24a6522436b63967d0460008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:51 +0000
Subject: [PATCH 57/57] fix: do not take a message from any client as the reply
 to a forwarded request

---
 src/connection.c | 1 +
 src/connection.h | 1 +
 src/dw_node.c    | 5 ++++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index 62b6b14..1ea9b1d 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -227,6 +227,7 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     conns[conn_id].curr_send_buf = conns[conn_id].send_buf;
     conns[conn_id].curr_send_size = 0;
     conns[conn_id].serialize_request = 0;
+    conns[conn_id].is_fwd = 0;
     conns[conn_id].recv_flags = 0;
 
     return conn_id;
diff --git a/src/connection.h b/src/connection.h
index 548b0fa..cb8c4c6 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -39,6 +39,7 @@ typedef struct {
 
     req_info_t *req_list;
     unsigned int serialize_request;
+    int is_fwd;                   // 1 if requests have been forwarded through it, 0 otherwise
     _Atomic pthread_t parent_thread;
     int recv_flags;               // for recvfrom()
     atomic_int busy;             // 1 if conn is allocated, 0 otherwise
diff --git a/src/dw_node.c b/src/dw_node.c
index c7c6fcc..55a710d 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -363,6 +363,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
 
     int sock = conns[fwd_conn_id].sock;
     assert(sock != -1);
+    conns[fwd_conn_id].is_fwd = 1;
     message_t *m_dst = conn_send_message(&conns[fwd_conn_id]);
     if (m_dst == NULL || m_dst->req_size < fwd.pkt_size) {
         fprintf(stderr, "Not enough space in send buffer, fwd_conn_id: %d\n", fwd_conn_id);
@@ -708,7 +709,9 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
                                                                            ntohs(conns[conn_id].target.sin_port), m->req_id);
             int req_id = m->req_id;
             conn_remove_message(conn, m);
-            handle_forward_reply(req_id, epollfd, infos);
+            // only who has been sent requests can reply to them
+            if (conn->is_fwd)
+                handle_forward_reply(req_id, epollfd, infos);
         } else {
             req_info_t *req = conn_req_add(conn);
             if (req == NULL) {
-- 
2.43.0


From 93ebd50699e80a2519549cd676c1094051920e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 01/58] fix: circ_buf_trim must measure the new end from the
 start of the data

With wrapped or shifted data stop_ind > target_len says nothing about
whether the trimmed part spans the end of the buffer: stop_ind could
underflow.
---
 circular_buffer.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index ad0585a..4f84c82 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -119,12 +119,7 @@ void circ_buf_trim(circ_buf_t* circ_buf, uint32_t target_len)
     // Data:       A  B  -  -  -
     // Start/stop  S  s
     //
-    if (circ_buf->stop_ind > target_len) {
-        circ_buf->stop_ind -= in_use - target_len;
-        return;
-    }
-
-    // We need to wrap stop_ind back to the end of the buffer.
+    // If stop_ind has wrapped we may need to move it back to the end of the buffer.
     //
     // target_len: 1
     // Before
-- 
2.43.0


From e1d3e1dfb5f4d85b01f1ba1f2b8da06aaf1e57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 02/58] fix: circ_buf_read_offset must read the second segment
 from the start of the buffer

start_ind already accounts for the offset, so the wrapped part always
begins at index 0.
---
 circular_buffer.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index 4f84c82..315fac8 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -231,14 +231,9 @@ int circ_buf_read_offset(circ_buf_t* circ_buf,
     // 0 to either stop_ind (last data byte) or the number of bytes left
     // wanted by the caller, whichever is smaller.
     len -= segment_len;
-    if (offset > segment_len)
-        offset -= segment_len;
-    else
-        offset = 0;
-
     segment_len = RMC_MIN(len, circ_buf->stop_ind);
 
-    memcpy(target + copied_bytes, circ_buf->buffer + offset, segment_len);
+    memcpy(target + copied_bytes, circ_buf->buffer, segment_len);
 
     copied_bytes += segment_len;
 
-- 
2.43.0


From 3ad11a791663fa6811e14dd08a57e6a4b085bbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 03/58] fix: sub_oldest_unacknowledged_packet must look at all
 intervals

Intervals are sorted on pid. With packets received out of order the
oldest one is not necessarily in the first interval, and its ack was
sent late.
---
 sub.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sub.c b/sub.c
index 34d0e95..e445e23 100644
--- a/sub.c
+++ b/sub.c
@@ -194,10 +194,21 @@ inline user_data_t sub_packet_user_data(sub_packet_t* pack)
 
 usec_timestamp_t sub_oldest_unacknowledged_packet(sub_publisher_t* pub)
 {
+    sub_pid_interval_node_t* inode = 0;
+    usec_timestamp_t oldest = 0;
+
     if (!pub || !sub_pid_interval_list_size(&pub->received_interval))
         return 0;
 
-    return sub_pid_interval_list_head(&pub->received_interval)->data.receive_ts;
+    // The list is sorted on pid, not on the time of reception.
+    inode = sub_pid_interval_list_head(&pub->received_interval);
+    oldest = inode->data.receive_ts;
+
+    while((inode = sub_pid_interval_list_next(inode))) {
+        if (inode->data.receive_ts < oldest)
+            oldest = inode->data.receive_ts;
+    }
+    return oldest;
 }
 
 // Add the pid of a received packet to the number of
-- 
2.43.0


From 7133ddb367c85664d2caaf3d5fbb2b7933d82f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 04/58] fix: do not overflow when extending receive intervals

last_pid + 1 wraps to 0 at the highest pid, after which intervals were
inserted in the wrong place.
---
 sub.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sub.c b/sub.c
index e445e23..1dc066e 100644
--- a/sub.c
+++ b/sub.c
@@ -235,7 +235,7 @@ int sub_packet_add_to_received_interval(sub_publisher_t* pub, packet_id_t pid)
         //              ^
         //              13
         //              pid
-        if (pid > inode->data.last_pid + 1) {
+        if (pid > inode->data.last_pid && pid - inode->data.last_pid > 1) {
             sub_pid_interval_list_insert_after(inode,
                                                (sub_pid_interval_t)
                                                {
@@ -254,7 +254,7 @@ int sub_packet_add_to_received_interval(sub_publisher_t* pub, packet_id_t pid)
         //             ^
         //             11
         //             pid
-        if (inode->data.last_pid + 1 == pid) {
+        if (pid > inode->data.last_pid) {
             sub_pid_interval_node_t* inext = 0;
 
             inode->data.last_pid = pid;
-- 
2.43.0


From 1e981b1f6632372aa1e85c7c5f1b40574c67435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 05/58] fix: pub_get_timed_out_packets must start with the
 oldest packet

The inflight list is sorted with the newest packet at its head. Starting
there, a single fresh packet hid all older ones that had timed out, and
they were not resent.
---
 pub.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pub.c b/pub.c
index b483f18..775de36 100644
--- a/pub.c
+++ b/pub.c
@@ -322,13 +322,14 @@ void pub_get_timed_out_packets(pub_subscriber_t* sub,
                                usec_timestamp_t timeout_period, // Number of usecs until timeout
                                pub_packet_list_t* result)
 {
-    pub_packet_node_t* pack_node = pub_packet_list_head(&sub->inflight);
+    pub_packet_node_t* pack_node = pub_packet_list_tail(&sub->inflight);
 
-    // Traverse all inflight packets for subscriber until we find one that is not timed out.x
+    // Traverse all inflight packets for subscriber, oldest first, until we find
+    // one that is not timed out.
     while(pack_node &&
           pack_node->data->send_ts + timeout_period <= current_ts) {
         pub_packet_list_push_tail(result, pack_node->data);
-        pack_node = pub_packet_list_next(pack_node);
+        pack_node = pub_packet_list_prev(pack_node);
     }
 
     return;
-- 
2.43.0


From e3b2e699ab16f1d929292c928039e10b70807ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 06/58] fix: copy the wrapped part of a control message from
 the payload

---
 rmc_sub_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index a89713f..dfc1713 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -213,7 +213,7 @@ int rmc_sub_write_control_message(rmc_sub_context_t* ctx,
         memcpy(seg1, (uint8_t*) payload, seg1_len);
 
        if (seg2_len)
-            memcpy(seg2, ((uint8_t*) &payload) + seg1_len, seg2_len);
+            memcpy(seg2, ((uint8_t*) payload) + seg1_len, seg2_len);
 
 
         // We always want to read from the tcp  socket.
-- 
2.43.0


From 0718981078e7e9e0e221f6c22159f495e46f09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 07/58] fix: bound the work done for an acknowledged interval

---
 rmc_pub_read.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 68c22b9..7b21f0d 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -23,6 +23,8 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     cmd_ack_interval_t ack;
     rmc_pub_context_t* ctx = (rmc_pub_context_t*) user_data.ptr;
     packet_id_t pid = 0;
+    pub_packet_node_t* node = 0;
+
     // Do we have enough data?
     if (circ_buf_in_use(&conn->read_buf) < sizeof(ack) + 1)
         return EAGAIN;
@@ -37,8 +39,15 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     // Mark all packets in the interval as acknwoledged, and call the
     // payload free function provided to rmc_pub_init_context(). If no
     // function is provided, free() will bre called.
-    for (pid = ack.first_pid; pid <= ack.last_pid; ++pid)
-        rmc_pub_packet_ack(ctx, conn, pid) ;
+    // The interval comes from the network and can be of any size. Traverse the packets
+    // that the subscriber has in flight, oldest first, instead of the interval.
+    node = pub_packet_list_tail(&ctx->subscribers[conn->connection_index].inflight);
+    while(node && (pid = node->data->pid) <= ack.last_pid) {
+        node = pub_packet_list_prev(node);
+
+        if (pid >= ack.first_pid)
+            rmc_pub_packet_ack(ctx, conn, pid) ;
+    }
     return 0;
 }
 
-- 
2.43.0


From fd3b058ebb8df8824fd300238f844466cfb7f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 08/58] fix: initialise the control message callback

---
 rmc_pub_context.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 4c77812..775fbba 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -127,8 +127,7 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
 
     ctx->subscriber_connect_cb = 0;
     ctx->subscriber_disconnect_cb = 0;
-
-    ctx->subscriber_connect_cb = 0;
+    ctx->subscriber_control_message_cb = 0;
 
     ctx->announce_cb = 0;
     ctx->announce_send_interval = 0;
-- 
2.43.0


From bc073e029196b3352d843377c0b2ab1bcc1555d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 09/58] fix: keep announcement payloads alive until sent, and
 release them afterwards

---
 pub.c             | 71 ++++++++++++++++++++++++++++++++++-------------
 rmc_internal.h    |  2 ++
 rmc_pub.h         | 16 +++++++++++
 rmc_pub_packet.c  | 41 +++++++++++++++++++++++++--
 rmc_pub_timeout.c |  2 +-
 rmc_pub_write.c   | 10 +++++++
 6 files changed, 118 insertions(+), 24 deletions(-)

diff --git a/pub.c b/pub.c
index 775de36..ce0dcb7 100644
--- a/pub.c
+++ b/pub.c
@@ -107,11 +107,11 @@ static int _compare_pid(pub_packet_t* new_pack, pub_packet_t* existing_pack, voi
 
 
 
-static packet_id_t pub_queue_packet_with_pid(pub_context_t* ctx,
-                                             packet_id_t pid,
-                                             void* payload,
-                                             payload_len_t payload_len,
-                                             user_data_t pkg_user_data)
+static pub_packet_t* pub_queue_packet_with_pid(pub_context_t* ctx,
+                                               packet_id_t pid,
+                                               void* payload,
+                                               payload_len_t payload_len,
+                                               user_data_t pkg_user_data)
 {
     pub_packet_t* ppack = 0;
     assert(ctx);
@@ -125,6 +125,7 @@ static packet_id_t pub_queue_packet_with_pid(pub_context_t* ctx,
     ppack->send_ts = 0; // Will be set by pub_packet_sent()
     ppack->pkg_user_data = pkg_user_data; // Handed to (*payload_free)()
     ppack->parent_node = 0;
+    ppack->internal_payload = 0;
 
     // Insert into ctx->queued, sorted in descending order.
     // We will pop off this list at the tail to get the next
@@ -136,7 +137,7 @@ static packet_id_t pub_queue_packet_with_pid(pub_context_t* ctx,
                                       _compare_pid,
                                       0);
 
-    return ppack->pid;
+    return ppack;
 }
 
 packet_id_t pub_queue_packet(pub_context_t* ctx,
@@ -148,7 +149,7 @@ packet_id_t pub_queue_packet(pub_context_t* ctx,
                                      _next_pid(ctx),
                                      payload,
                                      payload_len,
-                                     pkg_user_data);
+                                     pkg_user_data)->pid;
 
 }
 
@@ -161,8 +162,22 @@ packet_id_t pub_queue_no_acknowledge_packet(pub_context_t* ctx,
                                      0,
                                      payload,
                                      payload_len,
-                                     pkg_user_data);
+                                     pkg_user_data)->pid;
+
+}
+
+packet_id_t pub_queue_internal_announce(pub_context_t* ctx,
+                                        void* payload,
+                                        payload_len_t payload_len)
+{
+    pub_packet_t* ppack = pub_queue_packet_with_pid(ctx,
+                                                    0,
+                                                    payload,
+                                                    payload_len,
+                                                    user_data_nil());
 
+    ppack->internal_payload = 1;
+    return ppack->pid;
 }
 
 extern uint32_t pub_queue_size(pub_context_t* ctx)
@@ -200,12 +215,15 @@ void pub_packet_sent(pub_context_t* ctx,
     // pack->parent will still be allocated and can be reused
     // when we insert the pack into the inflight packets
     // of context
-    pub_packet_list_unlink(pack->parent_node);
-
     // Do not set packet up for acknowledgement if pid is 0, which
     // means that it should not be acked at all by the subscriber.
-    if (!pack->pid)
+    if (!pack->pid) {
+        pub_packet_list_delete(pack->parent_node);
+        pack->parent_node = 0;
         return;
+    }
+
+    pub_packet_list_unlink(pack->parent_node);
 
     // Insert existing pack->parent list_node_t struct into
     // the context's inflight packets.
@@ -277,18 +295,31 @@ void pub_packet_ack(pub_subscriber_t* sub,
     // list. pack->parent_node points to the list_node_t struct in the pending
     // list that is to be unlinked and deleted.
     //
-    if (!pack->ref_count) {
+    if (!pack->ref_count)
+        pub_packet_release(pack, pub_payload_free);
+}
+
+void pub_packet_release(pub_packet_t* pack,
+                        void (*pub_payload_free)(void* payload,
+                                                 payload_len_t payload_len,
+                                                 user_data_t user_data))
+{
+    assert(pack);
+    assert(!pack->ref_count);
+
+    if (pack->parent_node)
         pub_packet_list_delete(pack->parent_node);
 
-        // Free data using function provided with this call.
-        if (pub_payload_free)
-            (*pub_payload_free)(pack->payload,
-                                pack->payload_len,
-                                pack->pkg_user_data);
+    // Free data using function provided with this call.
+    if (pack->internal_payload)
+        free(pack->payload);
+    else if (pub_payload_free)
+        (*pub_payload_free)(pack->payload,
+                            pack->payload_len,
+                            pack->pkg_user_data);
 
-        // Delete the pack.
-        _free_pending_packet(pack);
-    }
+    // Delete the pack.
+    _free_pending_packet(pack);
 }
 
 uint32_t pub_get_unacknowledged_packet_count(pub_context_t* ctx)
diff --git a/rmc_internal.h b/rmc_internal.h
index 8068eaa..dcec2eb 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -380,6 +380,8 @@ typedef struct rmc_conn_command_dispatch {
 
 
 
+extern int rmc_pub_queue_announce(struct rmc_pub_context* ctx, void* payload, payload_len_t payload_len);
+
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
 
diff --git a/rmc_pub.h b/rmc_pub.h
index 4fbc496..0dc9178 100644
--- a/rmc_pub.h
+++ b/rmc_pub.h
@@ -35,6 +35,10 @@ typedef struct pub_packet {
     void *payload;              // Payload provided by pub_queue_packet()
     payload_len_t payload_len;  // Payload length provided by pub_queue_packet()
     user_data_t pkg_user_data;  // Provided by queue_packet
+
+    // Set if payload was allocated by the library itself (with malloc()),
+    // and is thus not to be handed to an application's payload free callback.
+    uint8_t internal_payload;
 } pub_packet_t;
 
 RMC_LIST(pub_packet_list, pub_packet_node, pub_packet_t*)
@@ -128,6 +132,12 @@ extern packet_id_t pub_queue_no_acknowledge_packet(pub_context_t* ctx,
                                                    payload_len_t payload_len,
                                                    user_data_t pkg_user_data);
 
+// Same as above, with a payload that the library has allocated using malloc().
+// It will be released with free().
+extern packet_id_t pub_queue_internal_announce(pub_context_t* ctx,
+                                               void* payload,
+                                               payload_len_t payload_len);
+
 extern uint32_t pub_queue_size(pub_context_t* ctx);
 
 extern pub_packet_t* pub_next_queued_packet(pub_context_t* ctx);
@@ -144,6 +154,12 @@ extern void pub_packet_ack(pub_subscriber_t* sub,
                                                     payload_len_t payload_len,
                                                     user_data_t user_data));
 
+// Drop a packet that is queued or sent, and that no subscriber has to acknowledge.
+extern void pub_packet_release(pub_packet_t* ppack,
+                               void (*pub_payload_free)(void* payload,
+                                                        payload_len_t payload_len,
+                                                        user_data_t user_data));
+
 // Collect all subscribers that have unacknowledged
 // packets older than or equal to max_age usecs.
 extern void pub_get_timed_out_subscribers(pub_context_t* ctx,
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 98ae2a1..8ce65d6 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -14,10 +14,11 @@
 #include <stdio.h>
 #include <stdlib.h>
 
-int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
+static int _queue_packet(rmc_pub_context_t* ctx,
                          void* payload,
                          payload_len_t payload_len,
-                         uint8_t announce_flag)
+                         uint8_t announce_flag,
+                         uint8_t internal_payload)
 {
     pub_packet_t *pack;
 
@@ -41,7 +42,9 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
 
     // If this is an announcement, force PID to 0.
     // If this is a regular packet, let pub.c figure out the next PID to use.
-    if (announce_flag)
+    if (internal_payload)
+        pub_queue_internal_announce(&ctx->pub_ctx, payload, payload_len);
+    else if (announce_flag)
         pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
     else
         pub_queue_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
@@ -68,6 +71,38 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
     return 0;
 }
 
+int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
+                         void* payload,
+                         payload_len_t payload_len,
+                         uint8_t announce_flag)
+{
+    return _queue_packet(ctx, payload, payload_len, announce_flag, 0);
+}
+
+// Queue an announcement with a copy of payload, which only has to be valid during the call.
+int rmc_pub_queue_announce(rmc_pub_context_t* ctx,
+                           void* payload,
+                           payload_len_t payload_len)
+{
+    int res = 0;
+    void* copy = 0;
+
+    if (!ctx || !payload)
+        return EINVAL;
+
+    copy = malloc(payload_len?payload_len:1);
+    if (!copy)
+        return ENOMEM;
+
+    memcpy(copy, payload, payload_len);
+
+    res = _queue_packet(ctx, copy, payload_len, 1, 1);
+    if (res)
+        free(copy);
+
+    return res;
+}
+
 
 uint32_t rmc_pub_queue_length(rmc_pub_context_t* ctx)
 {
diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index da3fd1e..da6610c 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -146,7 +146,7 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
 
         if (send_announce) {
             RMC_LOG_DEBUG("Sending announce");
-            rmc_pub_queue_packet(ctx, buffer, len, 1);
+            rmc_pub_queue_announce(ctx, buffer, len);
         }
 
         // Setup next announce.
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index c16e524..417f1db 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -16,6 +16,11 @@
 #include <assert.h>
 
 
+static void _payload_free_generic(void* payload, payload_len_t payload_len, user_data_t user_data)
+{
+    free(payload);
+}
+
 static void setup_packet_header(rmc_pub_context_t* ctx,
                                 pub_packet_t* pack,
                                 packet_header_t* pack_hdr)
@@ -106,6 +111,11 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
+    // Announcements are not acknowledged, so we are done with it.
+    if (!pack_hdr.pid)
+        pub_packet_release(pack,
+                           ctx->payload_free?ctx->payload_free:_payload_free_generic);
+
     res = 0;
 rearm:
     if (ctx->conn_vec.poll_modify) {
-- 
2.43.0


From 26a0d2cbd79c5878ee723271a3ef92a2af6c4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 10/58] fix: release packets that are sent while there are no
 subscribers

---
 rmc_pub_write.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 417f1db..0835ff6 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -111,8 +111,9 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
-    // Announcements are not acknowledged, so we are done with it.
-    if (!pack_hdr.pid)
+    // If there is nobody to acknowledge the packet, then we are done with it.
+    // Announcements are never acknowledged.
+    if (!pack->ref_count)
         pub_packet_release(pack,
                            ctx->payload_free?ctx->payload_free:_payload_free_generic);
 
-- 
2.43.0


From a416738476c64cd750f597d8c8713c242971c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 11/58] fix: hand the application's user data to all callbacks

---
 rmc_pub_context.c | 1 +
 rmc_pub_packet.c  | 4 ++--
 rmc_sub_context.c | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 775fbba..75fb882 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -435,6 +435,7 @@ int rmc_pub_set_user_data(rmc_pub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data;
     return 0;
 }
 
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 8ce65d6..a75005b 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -45,9 +45,9 @@ static int _queue_packet(rmc_pub_context_t* ctx,
     if (internal_payload)
         pub_queue_internal_announce(&ctx->pub_ctx, payload, payload_len);
     else if (announce_flag)
-        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, ctx->user_data);
     else
-        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, ctx->user_data);
 
     if (ctx->conn_vec.poll_modify)  {
         // Did we already have a packet pending for send prior
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d18a6f8..af3009d 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -314,6 +314,7 @@ int rmc_sub_set_user_data(rmc_sub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data;
     return 0;
 }
 
-- 
2.43.0


From 3ed8b77d27e428107cec3e8fa450224b905ce77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 12/58] fix: free held packets with the user data of the
 context

---
 rmc_sub_read.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a77ee4c..f59e614 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -354,10 +354,19 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
+    sub_packet_node_t* node = 0;
+
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
     rmc_conn_close_connection(&ctx->conn_vec, s_ind);
 
+    // Held packets carry the connection index as their user data.
+    // The payload free callback is to get the user data of the context.
+    for (node = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
+         node;
+         node = sub_packet_list_next(node))
+        node->data->pkg_user_data = ctx->user_data;
+
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
     return 0;
-- 
2.43.0


From 5f38cea6ee1777ebb81b6fdfe9f71a55a300782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 13/58] fix: rmc_sub_close_connection() must only touch valid,
 open connections

---
 rmc_sub_context.c | 3 +++
 rmc_sub_read.c    | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index af3009d..d63357c 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -49,6 +49,7 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     unsigned int seed = rmc_usec_monotonic_timestamp() & 0xFFFFFFFF;
     rmc_sub_context_t* ctx;
     uint8_t* conn_vec = 0;
+    uint32_t ind = 0;
 
     if (!context_res || !mcast_group_addr)
         return EINVAL;
@@ -122,6 +123,8 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
 
     // FIXME: Better memory management
     ctx->publishers = malloc(sizeof(sub_publisher_t) * max_publishers);
+    for(ind = 0; ind < max_publishers; ++ind)
+        sub_init_publisher(&ctx->publishers[ind]);
 
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index f59e614..e4e6513 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -356,9 +356,16 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     sub_packet_node_t* node = 0;
 
+    int res = 0;
+
+    if (!ctx)
+        return EINVAL;
+
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
-    rmc_conn_close_connection(&ctx->conn_vec, s_ind);
+    res = rmc_conn_close_connection(&ctx->conn_vec, s_ind);
+    if (res)
+        return res;
 
     // Held packets carry the connection index as their user data.
     // The payload free callback is to get the user data of the context.
-- 
2.43.0


From 1ce5c4d6983d4a4cc2772aa2ebadb834a67be8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 14/58] fix: forget pending acknowledgements when a connection
 is closed

---
 rmc_sub_read.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index e4e6513..c3a873d 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -352,10 +352,15 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
     free(payload);
 }
 
+static int _compare_index(rmc_index_t needle, rmc_index_t haystack, void* user_data)
+{
+    return needle == haystack;
+}
+
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     sub_packet_node_t* node = 0;
-
+    rmc_index_node_t* inode = 0;
     int res = 0;
 
     if (!ctx)
@@ -367,6 +372,11 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
     if (res)
         return res;
 
+    // There is nobody left to send pending acknowledgements to.
+    inode = rmc_index_list_find_node(&ctx->pub_ack_list, s_ind, _compare_index, 0);
+    if (inode)
+        rmc_index_list_delete(inode);
+
     // Held packets carry the connection index as their user data.
     // The payload free callback is to get the user data of the context.
     for (node = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
-- 
2.43.0


From 385f649bc82f7da68e7a1cc098764d1f34fcb097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 15/58] fix: free dispatched packets

---
 rmc_sub_packet.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 6329934..98622bd 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -85,8 +85,8 @@ static int _compare_packet(sub_packet_t* needle, sub_packet_t* haystack, void* u
     return needle == haystack;
 }
 
-// Caller still need to free pack->payload
-int rmc_sub_packet_dispatched_keep_payload(rmc_sub_context_t* ctx, sub_packet_t* pack)
+// Take pack off the list of packets that are ready to be dispatched.
+static int _packet_dispatched(rmc_sub_context_t* ctx, sub_packet_t* pack)
 {
     sub_packet_node_t* node = 0;
 
@@ -104,11 +104,23 @@ int rmc_sub_packet_dispatched_keep_payload(rmc_sub_context_t* ctx, sub_packet_t*
     return 0;
 }
 
+// Caller still need to free the payload.
+// pack itself is no longer valid after this call.
+int rmc_sub_packet_dispatched_keep_payload(rmc_sub_context_t* ctx, sub_packet_t* pack)
+{
+    int res = _packet_dispatched(ctx, pack);
+
+    if (res)
+        return res;
+
+    free(pack);
+    return 0;
+}
 
 // Will free pack->payload
 int rmc_sub_packet_dispatched(rmc_sub_context_t* ctx, sub_packet_t* pack)
 {
-    int res = rmc_sub_packet_dispatched_keep_payload(ctx, pack);
+    int res = _packet_dispatched(ctx, pack);
 
     if (res)
         return res;
@@ -118,6 +130,7 @@ int rmc_sub_packet_dispatched(rmc_sub_context_t* ctx, sub_packet_t* pack)
     else
         free(pack->payload);
 
+    free(pack);
     return 0;
 }
 
-- 
2.43.0


From b46b4d6025d439c0977bb421ee0ecb0699f8145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 16/58] fix: free the payload of undispatched packets when
 deactivating

---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d63357c..f5897ff 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -234,7 +234,7 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
         return EINVAL;
 
     // Empty all packets that are dispatch ready.
-    while(sub_packet_list_pop_head(&ctx->dispatch_ready, &pack))
+    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
         rmc_sub_packet_dispatched(ctx, pack);
 
     // Empty ack list
-- 
2.43.0


From 1ea463e11ac9e6e4a8457dc61b9f58ecac88ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 17/58] fix: release everything a context holds when it is
 deleted

---
 rmc_pub_context.c | 12 ++++++++++++
 rmc_sub_context.c |  1 +
 2 files changed, 13 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 75fb882..9c778eb 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -304,13 +304,25 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
     return 0;
 }
 
+static void _payload_free_generic(void* payload, payload_len_t payload_len, user_data_t user_data)
+{
+    free(payload);
+}
+
 int rmc_pub_delete_context(rmc_pub_context_t* ctx)
 {
+    pub_packet_t* pack = 0;
 
     if (!ctx)
         return EINVAL;
     rmc_pub_deactivate_context(ctx);
 
+    // Release all packets that were never sent. Those sent were released when
+    // the connections to their subscribers were closed.
+    while((pack = pub_next_queued_packet(&ctx->pub_ctx)))
+        pub_packet_release(pack, ctx->payload_free?ctx->payload_free:_payload_free_generic);
+
+    free(ctx->subscribers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index f5897ff..bee34b0 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -269,6 +269,7 @@ int rmc_sub_delete_context(rmc_sub_context_t* ctx)
         return EINVAL;
     rmc_sub_deactivate_context(ctx);
 
+    free(ctx->publishers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
-- 
2.43.0


From 5850987ca3023a0c4d7375df692af458381e8b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 18/58] fix: deactivate only what is active, and stop polling
 descriptors before closing them

---
 rmc_pub_context.c |  4 ++++
 rmc_sub_context.c | 19 +++++++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 9c778eb..584f689 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -269,6 +269,10 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
     if (!ctx)
         return EINVAL;
 
+    // Are we active?
+    if (ctx->mcast_send_descriptor == -1)
+        return 0;
+
     // Callback to remnove listen and multicast descriptor
     // from caller's poll vector.
     if (ctx->conn_vec.poll_remove) {
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index bee34b0..88fc19e 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -240,15 +240,22 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
     // Empty ack list
     rmc_index_list_empty(&ctx->pub_ack_list);
 
-    close(ctx->mcast_recv_descriptor);
-    if (ctx->conn_vec.poll_remove)
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_recv_descriptor,
-                                     RMC_MULTICAST_INDEX);
+    if (ctx->mcast_recv_descriptor != -1) {
+        if (ctx->conn_vec.poll_remove)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->mcast_recv_descriptor,
+                                         RMC_MULTICAST_INDEX);
 
-    ctx->mcast_recv_descriptor = -1;
+        close(ctx->mcast_recv_descriptor);
+        ctx->mcast_recv_descriptor = -1;
+    }
 
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
+
+    // Do we have any connections in use at all?
+    if (max == RMC_NIL_INDEX)
+        return 0;
+
     for(ind = 0; ind <= max; ++ind) {
         rmc_connection_t* conn = rmc_conn_find_by_index(&ctx->conn_vec,
                                                         ind);
-- 
2.43.0


From 30272a0628c4524a79bf745f40a0de65662c8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 19/58] fix: refuse to activate an active publisher context

---
 rmc_pub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 584f689..f13296a 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -161,6 +161,9 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     if (!ctx)
         return EINVAL;
 
+    if (ctx->mcast_send_descriptor != -1)
+        return EEXIST;
+
     //
     // Setup udp send descriptor to be received by multicast members.
     //
-- 
2.43.0


From a4e3f43e24ad8a04f66b3425fdc4d6e9ab3570d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 20/58] fix: close the multicast socket if it cannot be bound

---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 88fc19e..9980d58 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -177,7 +177,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
              (struct sockaddr *) &sock_addr,
              sizeof(sock_addr)) < 0) {
         perror("rmc_listen(multicast_recv): bind()");
-        return errno;
+        goto error;
     }
 
     // Setup multicast group membership
-- 
2.43.0


From 70018d4021bb63ca1bf715d4457212a2ca1dcbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 21/58] fix: logging must not change errno

---
 rmc_log.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_log.c b/rmc_log.c
index 2db7c70..8dcdf16 100644
--- a/rmc_log.c
+++ b/rmc_log.c
@@ -13,6 +13,7 @@
 #include "string.h"
 #include <unistd.h>
 #include <stdlib.h>
+#include <errno.h>
 
 static usec_timestamp_t start_time = 0;
 
@@ -193,6 +194,7 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     const char* tag = 0;
     char index_str[32];
     va_list ap;
+    int saved_errno = errno; // Callers report errno after logging it.
 
     // Default rmc_log_file, if not set.
     if (!_rmc_log_file)
@@ -278,5 +280,6 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     vfprintf(_rmc_log_file, fmt, ap);
     va_end(ap);
     fputc('\n', _rmc_log_file);
+    errno = saved_errno;
 }
 // 8592
-- 
2.43.0


From 1a241ed7359e4fbce66f2304ac5b9f1fd4289de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 22/58] fix: stop polling a failed connection only once

---
 rmc_connection.c | 6 ------
 rmc_sub_write.c  | 1 -
 2 files changed, 7 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 73730e2..8eb1408 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -211,9 +211,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
 
         return sock_err;
@@ -230,9 +227,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
         return sock_err;
     }
diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index dfc1713..0747365 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -300,7 +300,6 @@ int rmc_sub_write(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         res = rmc_conn_complete_connection(&ctx->conn_vec, conn);
         if (res) {
             RMC_LOG_INDEX_INFO(s_ind, "Failed to complete connection: %s", strerror(errno));
-            rmc_conn_close_connection(&ctx->conn_vec, conn->connection_index);
             return res;
         }
         if (ctx->subscription_complete_cb) {
-- 
2.43.0


From d2112c4d0364c7485e4a9117eba26b98179807e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 23/58] fix: close the accepted socket if it cannot be
 configured

---
 rmc_connection.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 8eb1408..b7ec8e4 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -362,7 +362,10 @@ int rmc_conn_process_accept(int listen_descriptor,
     // out acks.
     if (setsockopt(conn_vec->connections[c_ind].descriptor, IPPROTO_TCP, TCP_NODELAY, (void *)&tr, sizeof(tr))) {
         sock_err = errno;
-        rmc_conn_close_connection(conn_vec, conn_vec->connections[c_ind].descriptor);
+        // The connection is not yet setup, so just drop the socket.
+        close(conn_vec->connections[c_ind].descriptor);
+        conn_vec->connections[c_ind].descriptor = -1;
+        _reset_max_connection_ind(conn_vec);
         return sock_err;
     }
 
-- 
2.43.0


From 0de60e22de191ce9000bb2358bec00e38e6e84a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 24/58] fix: restore the highest connection index if no socket
 can be opened

---
 rmc_connection.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index b7ec8e4..c7de18b 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -273,8 +273,10 @@ int rmc_conn_connect_tcp_by_address(rmc_connection_vector_t* conn_vec,
 
 
     conn_vec->connections[c_ind].descriptor = socket(AF_INET, SOCK_STREAM, 0);
-    if (conn_vec->connections[c_ind].descriptor == -1)
+    if (conn_vec->connections[c_ind].descriptor == -1) {
+        _reset_max_connection_ind(conn_vec);
         return errno;
+    }
 
     // Set nonblocking mode on the socket.
     desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
@@ -348,8 +350,10 @@ int rmc_conn_process_accept(int listen_descriptor,
                                                       (struct sockaddr*) &src_addr,
                                                       &addr_len);
 
-    if (conn_vec->connections[c_ind].descriptor == -1)
+    if (conn_vec->connections[c_ind].descriptor == -1) {
+        _reset_max_connection_ind(conn_vec);
         return errno;
+    }
 
     // Set nonblocking mode on the socket.
     desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
-- 
2.43.0


From 0607ed5e1e7e90b3659ecc482465a517d469134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 25/58] fix: record address and port of accepted connections in
 host byte order

---
 rmc_connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index c7de18b..476354f 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -374,7 +374,8 @@ int rmc_conn_process_accept(int listen_descriptor,
     }
 
     conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
-    conn_vec->connections[c_ind].remote_address = src_addr.sin_addr.s_addr;
+    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
+    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);
 
     conn_vec->connections[c_ind].action = RMC_POLLREAD;
     if (conn_vec->poll_add)
-- 
2.43.0


From 034718f13642029f35268fd4bef3be96e4e13d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 26/58] fix: a read without data is not a disconnect

---
 rmc_protocol.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rmc_protocol.c b/rmc_protocol.c
index c75fec7..8c6afbe 100644
--- a/rmc_protocol.c
+++ b/rmc_protocol.c
@@ -223,10 +223,14 @@ int rmc_conn_tcp_read(rmc_connection_vector_t* conn_vec,
                         (res == -1)?strerror(errno):"");
 
     if (res == -1 || res == 0) {
-        *op_res = RMC_READ_DISCONNECT;
-
         // Give back the memory.
-        circ_buf_trim(&conn->read_buf, available);
+        circ_buf_trim(&conn->read_buf, orig_in_use);
+
+        // Was there nothing to read after all?
+        if (res == -1 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR))
+            return EAGAIN;
+
+        *op_res = RMC_READ_DISCONNECT;
         return EPIPE;
     }
 
-- 
2.43.0


From d67a10127b61d406ec19dae5101496c0e6e6d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 27/58] fix: disconnect subscribers that violate the protocol

---
 rmc_pub_read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 7b21f0d..f61b209 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -222,6 +222,12 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return 0; // This is not an error, just regular maintenance.
     }
 
+    // There is no way to resynchronize with a subscriber that does not follow the protocol.
+    if (res == EPROTO) {
+        rmc_pub_close_connection(ctx, s_ind);
+        return res;
+    }
+
     // Read poll is always active. Callback to re-arm.
     old_action = conn->action;
     rmc_conn_get_pending_send_length(conn, &write_buf_sz);
-- 
2.43.0


From d750f1e7b4886bb4c3c3d4459e790c7876c32bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 28/58] fix: resend to all subscribers, even if the channel to
 one of them is full

---
 rmc_pub_timeout.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index da6610c..550527a 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -165,17 +165,16 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
     // Traverse the list of subscribers and process their timed out packets
     // by sending them via the TCP control channel.
     while(pub_sub_list_pop_head(&subs, &sub)) {
-        res = process_subscriber_timeout(ctx, sub, current_ts);
+        int sub_res = process_subscriber_timeout(ctx, sub, current_ts);
 
-        if (res) {
-            // Clean up the list.
-            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(res));
-            pub_sub_list_empty(&subs);
-            return res;
+        // A subscriber that cannot take more data must not hold up the others.
+        if (sub_res) {
+            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(sub_res));
+            res = sub_res;
         }
     }
 
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From b1fb783aa0d02fe031ede25ef003e9d6b1dc99a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 29/58] fix: an announcement must not delay packets that are
 due for resend

---
 rmc_pub_timeout.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index 550527a..7c0f790 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -154,8 +154,6 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
             ctx->announce_next_send_ts = current_ts + ctx->announce_send_interval;
         else
             ctx->announce_next_send_ts = 0; // Disable announce sends.
-
-        return 0;
     }
 
     // Grab a list of subscribers that have timed out packets we need to subscribe
-- 
2.43.0


From 758aaa2c8e7f5045b7938e2422ba11415583d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 30/58] fix: do not connect again while a connection is being
 setup

---
 rmc_sub_read.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index c3a873d..66a6d7a 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -171,6 +171,15 @@ static int process_multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res, uin
 
     if (!conn || conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
         RMC_LOG_INDEX_DEBUG(conn?conn->connection_index:RMC_NIL_INDEX, "mode[%d]", conn?conn->mode:-1);
+
+        // Are we already setting up the connection?
+        if (conn) {
+            if (read_res)
+                *read_res = RMC_READ_MULTICAST_NOT_READY;
+
+            return 0;
+        }
+
         res = decode_unsubscribed_multicast(ctx,
                                             pack_hdr,
                                             data);
-- 
2.43.0


From 43e58ebcd58385c08c26eb125e1ba3291d9d89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 31/58] fix: resume traffic when a departing subscriber brings
 the packets in flight down

---
 rmc_internal.h   |  2 ++
 rmc_pub_packet.c | 12 ++++++++----
 rmc_pub_read.c   |  3 +++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index dcec2eb..5eae986 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -382,6 +382,8 @@ typedef struct rmc_conn_command_dispatch {
 
 extern int rmc_pub_queue_announce(struct rmc_pub_context* ctx, void* payload, payload_len_t payload_len);
 
+extern void rmc_pub_check_resume(struct rmc_pub_context* ctx);
+
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
 
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index a75005b..c990ce3 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -134,8 +134,14 @@ int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id
                    // packet free function invoked when the last subscriber acks the packet.
                    ctx->payload_free?ctx->payload_free:_payload_free_generic);
 
-    // If we currently have suspended traffic,
-    // check if we are to resume it.
+    rmc_pub_check_resume(ctx);
+    return 0;
+}
+
+// If we currently have suspended traffic,
+// check if we are to resume it.
+void rmc_pub_check_resume(rmc_pub_context_t* ctx)
+{
     if (ctx->traffic_suspended) {
         if (pub_get_unacknowledged_packet_count(&ctx->pub_ctx) <= ctx->traffic_resume_threshold) {
             RMC_LOG_INFO("Resuming traffic");
@@ -145,6 +151,4 @@ int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id
                           pub_get_unacknowledged_packet_count(&ctx->pub_ctx),
                           ctx->traffic_resume_threshold);
     }
-
-    return 0;
 }
diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index f61b209..f8b967a 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -122,6 +122,9 @@ int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
     pub_reset_subscriber(&ctx->subscribers[s_ind],
                          ctx->payload_free?ctx->payload_free:_generic_payload_free);
+
+    // The packets that only this subscriber had yet to acknowledge are gone.
+    rmc_pub_check_resume(ctx);
     return 0;
 }
 
-- 
2.43.0


From fe230f4d2232770a92e3b84d1a649f39dec87c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 32/58] fix: apply new throttling thresholds to suspended
 traffic

---
 rmc_pub_context.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index f13296a..c063ef4 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -506,5 +506,12 @@ int rmc_pub_throttling(rmc_pub_context_t* ctx,
     }
     ctx->traffic_suspend_threshold = suspend_threshold;
     ctx->traffic_resume_threshold = resume_threshold;
+
+    // Suspended traffic may resume with the new thresholds, and
+    // always does if throttling is disabled.
+    if (!suspend_threshold)
+        ctx->traffic_suspended = 0;
+
+    rmc_pub_check_resume(ctx);
     return 0;
 }
-- 
2.43.0


From c65ce60b4ebc156dc255ac6a1c4e9fc5448fb90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 33/58] fix: record a packet as received before its publisher
 is sorted into the ack list

---
 rmc_sub_packet.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 98622bd..5cbc0cf 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -37,27 +37,28 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             user_data_t pkg_user_data)
 {
     sub_publisher_t* pub = &ctx->publishers[index];
+    uint8_t first = !sub_pid_interval_list_size(&pub->received_interval);
 
+    sub_packet_received(&ctx->publishers[index],
+                        pid,
+                        payload,
+                        payload_len,
+                        1, // We want to add this packet to receive interval so that we can ack it.
+                        rmc_usec_monotonic_timestamp(),
+                        user_data_u32(index));
 
     // If this packet is the first one that needs to be acked for the
     // given publisher, then add the index of the publisher (and
     // connection) into the ctx->pub_ack_list.
-    // The list is sorted on oldest unacknowledged packet.
+    // The list is sorted on oldest unacknowledged packet, so the packet
+    // has to be recorded as received before the publisher is inserted.
     //
-    if (!sub_oldest_unacknowledged_packet(pub))
+    if (first)
         rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
                                          index,
                                          _compare_oldest_unackowledged_packet,
                                          ctx);
 
-    sub_packet_received(&ctx->publishers[index],
-                        pid,
-                        payload,
-                        payload_len,
-                        1, // We want to add this packet to receive interval so that we can ack it.
-                        rmc_usec_monotonic_timestamp(),
-                        user_data_u32(index));
-
     return 0;
 }
 
-- 
2.43.0


From 111c4ba951f68be1d35b8fdab2bcd1127680c544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 34/58] fix: keep acknowledgements that cannot be sent yet

---
 rmc_sub_timeout.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index d7a4a13..3738711 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -22,6 +22,8 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 {
     usec_timestamp_t current_ts = rmc_usec_monotonic_timestamp();
     rmc_index_node_t *inode = 0;
+    rmc_index_node_t *next = 0;
+    int res = 0;
 
     if (!ctx)
         return EINVAL;
@@ -49,6 +51,7 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
     while(inode) {
         sub_publisher_t* pub = &ctx->publishers[inode->data];
         sub_pid_interval_t pid_intv;
+        int ack_res = 0;
 
 
         // If it is not yet time to send acks for this publisher, then
@@ -67,19 +70,26 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
         // For each publisher that we have a timed out ack  for, we will ack
         // all pending packets in one go.
         while(sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv)) {
-            int res = 0;
-            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
-            if (res) {
-                RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(res));
-                return res;
+            ack_res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
+            if (ack_res) {
+                // Keep the interval, and the publisher in the list, so that we
+                // can try again when there is room for the ack.
+                RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(ack_res));
+                sub_pid_interval_list_push_head(&pub->received_interval, pid_intv);
+                res = ack_res;
+                break;
             }
         }
 
-        rmc_index_list_delete(inode);
-        inode = rmc_index_list_head(&ctx->pub_ack_list);
+        // A publisher that cannot be acknowledged right now must not hold up the others.
+        next = rmc_index_list_next(inode);
+        if (!ack_res)
+            rmc_index_list_delete(inode);
+
+        inode = next;
     }
 
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From 53b0e568bfa8dbeede28d88a6e18afca3605938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 35/58] fix: do not lose write interest when a subscriber has
 read

---
 rmc_sub_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 66a6d7a..013cf6c 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -476,8 +476,8 @@ rearm:
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                      conn->descriptor,
                                      s_ind,
-                                     RMC_POLLREAD,
-                                     RMC_POLLREAD);
+                                     conn->action,
+                                     conn->action);
     }
     return res;
 }
-- 
2.43.0


From f120f51554ffd5e477b537519df8d4d41ced1fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 36/58] fix: return EINVAL for a null context

---
 rmc_pub_read.c  | 2 +-
 rmc_pub_write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index f8b967a..8fdf134 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -253,7 +253,7 @@ int rmc_pub_context_has_pending_send(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     payload_len_t len = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
     if (!conn)
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 0835ff6..dd3e6d0 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -326,7 +326,7 @@ int rmc_pub_context_get_pending(rmc_pub_context_t* ctx,
     uint32_t queue_size = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     if (ack_count)
         *ack_count = 0;
-- 
2.43.0


From c1b0756908eb4fdcb013fd4d572195f0dd9f14b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 37/58] fix: disconnect subscribers that announce an oversized
 control message

---
 rmc_pub_read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 8fdf134..4839203 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -64,6 +64,10 @@ static int process_control_message(rmc_connection_t* conn, user_data_t user_data
     // Read message header
     circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &msg, sizeof(msg), 0);
 
+    // A message that can never fit in the read buffer will never be complete.
+    if (sizeof(msg) + 1 + msg.payload_len > circ_buf_in_use(&conn->read_buf) + circ_buf_available(&conn->read_buf))
+        return EPROTO;
+
     // Do we have enough data for payload?
     if (circ_buf_in_use(&conn->read_buf) < sizeof(msg) + 1 + msg.payload_len)
         return EAGAIN;
-- 
2.43.0


From 1ea07d55009b20d3f83a038e8123bbd1a388db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 38/58] fix: handle empty control messages

---
 rmc_pub_read.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 4839203..e511d2e 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -78,10 +78,12 @@ static int process_control_message(rmc_connection_t* conn, user_data_t user_data
 
    // Make a callback if defined
     if (ctx->subscriber_control_message_cb) {
-        char payload[msg.payload_len];
+        // An empty message is legal on the wire, but not as an array.
+        char payload[msg.payload_len?msg.payload_len:1];
 
         // Read payload.
-        circ_buf_read_offset(&conn->read_buf, 1 + sizeof(msg), (uint8_t*) payload, msg.payload_len, 0);
+        if (msg.payload_len)
+            circ_buf_read_offset(&conn->read_buf, 1 + sizeof(msg), (uint8_t*) payload, msg.payload_len, 0);
 
         (*ctx->subscriber_control_message_cb)(ctx,
                                    conn->remote_address,
-- 
2.43.0


From 246ba8878c2011054d3c5ec2ca78df290a9289ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 39/58] fix: disconnect from publishers that resend an
 oversized packet

---
 rmc_sub_read.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 013cf6c..6447ad4 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -281,6 +281,14 @@ static int process_cmd_packet(rmc_connection_t* conn, user_data_t user_data)
     // Read the command byte and the packet header
     circ_buf_read_offset(&conn->read_buf, 1, (uint8_t*) &pack_hdr, sizeof(pack_hdr), 0);
 
+    // No publisher sends more than this, and more might never fit in the read buffer.
+    if (pack_hdr.payload_len > RMC_MAX_PAYLOAD) {
+        RMC_LOG_INDEX_WARNING(conn->connection_index,
+                              "Oversized packet [%d] bytes. Max size[%d]",
+                              pack_hdr.payload_len, RMC_MAX_PAYLOAD);
+        return EPROTO;
+    }
+
     // Now we know how big the payload is. Check if we have enough memory for an atomic
     // process or reject.
     if (circ_buf_in_use(&conn->read_buf) < 1 + sizeof(packet_header_t) + pack_hdr.payload_len) {
-- 
2.43.0


From 983f983702bfa4acafa023ba2ae4d16f2f30605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 40/58] fix: never deliver packet id 0 from the control channel
 as data

---
 rmc_sub_read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 6447ad4..a2684f2 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -304,6 +304,12 @@ static int process_cmd_packet(rmc_connection_t* conn, user_data_t user_data)
     // Free command byte and packet header from read buffer.
     circ_buf_free(&conn->read_buf, 1 + sizeof(packet_header_t), 0);
 
+    // Announcements have no place in the stream, and must not be delivered as data.
+    if (!pack_hdr.pid) {
+        circ_buf_free(&conn->read_buf, pack_hdr.payload_len, 0);
+        return 0;
+    }
+
     // Is the packet a duplicate?
     if (sub_packet_is_duplicate(&ctx->publishers[conn->connection_index], pack_hdr.pid)) {
         RMC_LOG_INDEX_DEBUG(conn->connection_index,
-- 
2.43.0


From 64504d7150548e91d3fe68dcc134184041035568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 41/58] fix: never wait for a multicast packet on the
 publisher's socket

---
 rmc_pub_read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index e511d2e..df5f26c 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -194,7 +194,7 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 
         errno = 0;
         len = recvfrom(ctx->mcast_send_descriptor,
-                       &throw_away, 1, 0,
+                       &throw_away, 1, MSG_DONTWAIT,
                        (struct sockaddr*) &src_addr, &addr_len);
 
         if (len == -1) {
-- 
2.43.0


From b7b33af6747dc4c357fb0d8d91d542a31ba709b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 42/58] fix: never wait in accept

---
 rmc_pub_context.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index c063ef4..4d49ec8 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -15,6 +15,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <arpa/inet.h>
 #include <assert.h>
 #include <signal.h>
@@ -157,6 +158,7 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     struct in_addr in_addr;
     socklen_t sock_len = sizeof(struct sockaddr_in);
     int on_flag = 1;
+    int desc_flags = 0;
 
     if (!ctx)
         return EINVAL;
@@ -194,6 +196,11 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
         goto error;
     }
 
+    // A connection can be gone before it is accepted, in which
+    // case accept() must not wait for the next one.
+    desc_flags = fcntl(ctx->listen_descriptor, F_GETFL, 0);
+    fcntl(ctx->listen_descriptor, F_SETFL, desc_flags | O_NONBLOCK);
+
     if (setsockopt(ctx->listen_descriptor, SOL_SOCKET,
                    SO_REUSEADDR, &on_flag, sizeof(on_flag)) < 0) {
         RMC_LOG_WARNING("rmc_init_pub_context(): setsockopt(REUSEADDR): %s", strerror(errno));
-- 
2.43.0


From b700afd4c2e0834febc99dfd37d757bdd55d50a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 43/58] fix: send packets queued while the context is inactive
 once it is activated

---
 rmc_pub_context.c | 4 +++-
 rmc_pub_packet.c  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 4d49ec8..dd5095f 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -243,10 +243,12 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
 
 
     if (ctx->conn_vec.poll_add) {
+        // Packets may have been queued before the context was activated.
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->mcast_send_descriptor,
                                   RMC_MULTICAST_INDEX,
-                                  RMC_POLLREAD);
+                                  RMC_POLLREAD |
+                                  (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0));
 
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->listen_descriptor,
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index c990ce3..8ff1a48 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -49,7 +49,8 @@ static int _queue_packet(rmc_pub_context_t* ctx,
     else
         pub_queue_packet(&ctx->pub_ctx, payload, payload_len, ctx->user_data);
 
-    if (ctx->conn_vec.poll_modify)  {
+    // Packets queued while the context is inactive are sent once it is activated.
+    if (ctx->conn_vec.poll_modify && ctx->mcast_send_descriptor != -1)  {
         // Did we already have a packet pending for send prior
         // to queueing the lastest packet? If so, old action
         // was POLLWRITE, if not, it was 0.
-- 
2.43.0


From 76493d5cd378014b598e7396b6e1c09759722147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 44/58] fix: re-arm the listen descriptor when accept fails

---
 rmc_connection.c | 7 -------
 rmc_pub_read.c   | 7 +++++++
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 476354f..a144076 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -384,13 +384,6 @@ int rmc_conn_process_accept(int listen_descriptor,
                               c_ind,
                               conn_vec->connections[c_ind].action);
 
-    if (conn_vec->poll_modify)
-        (*conn_vec->poll_modify)(conn_vec->user_data,
-                                 listen_descriptor,
-                                 RMC_LISTEN_INDEX,
-                                 RMC_POLLREAD,
-                                 RMC_POLLREAD);
-
     if (result_index)
         *result_index = c_ind;
 
diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index df5f26c..322c818 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -158,6 +158,13 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         rmc_connection_t* conn = 0;
         res = rmc_conn_process_accept(ctx->listen_descriptor, &ctx->conn_vec, &s_ind);
 
+        // Re-arm the listen descriptor, no matter if this connection could be accepted.
+        if (ctx->conn_vec.poll_modify && ctx->listen_descriptor != -1)
+            (*ctx->conn_vec.poll_modify)(ctx->user_data,
+                                         ctx->listen_descriptor,
+                                         RMC_LISTEN_INDEX,
+                                         RMC_POLLREAD,
+                                         RMC_POLLREAD);
 
         if (res) {
             *op_res = RMC_ERROR;
-- 
2.43.0


From acdc745515186c6c1311d4e7ee9352e892ddca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 45/58] fix: re-arm the publisher's multicast descriptor when
 there was nothing to read

---
 rmc_pub_read.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 322c818..5296724 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -205,18 +205,19 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
                        (struct sockaddr*) &src_addr, &addr_len);
 
         if (len == -1) {
-            RMC_LOG_INDEX_WARNING(RMC_MULTICAST_INDEX, "recvfrom(): %s", strerror(errno));
+            res = errno;
+            RMC_LOG_INDEX_WARNING(RMC_MULTICAST_INDEX, "recvfrom(): %s", strerror(res));
             *op_res = RMC_ERROR;
-            return errno;
-        }
-        RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
+        } else
+            RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
+
         if (ctx->conn_vec.poll_modify)
             (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                          ctx->mcast_send_descriptor,
                                          RMC_MULTICAST_INDEX,
                                          RMC_POLLREAD,
                                          RMC_POLLREAD);
-        return 0;
+        return res;
     }
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
-- 
2.43.0


From ff8a70abf20ed735eb578a4f7baee4e97567d727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 46/58] fix: do not lose write interest when the publisher
 reads its multicast descriptor

---
 rmc_pub_read.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 5296724..5d64d01 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -211,12 +211,17 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         } else
             RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
 
-        if (ctx->conn_vec.poll_modify)
+        // Stay interested in writing if we still have packets to send.
+        if (ctx->conn_vec.poll_modify) {
+            rmc_poll_action_t action = RMC_POLLREAD |
+                (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0);
+
             (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                          ctx->mcast_send_descriptor,
                                          RMC_MULTICAST_INDEX,
-                                         RMC_POLLREAD,
-                                         RMC_POLLREAD);
+                                         action,
+                                         action);
+        }
         return res;
     }
 
-- 
2.43.0


From b64959d393028d9e8fff12a06fe5d07d82f11139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 47/58] fix: re-arm the multicast descriptor when sending fails

---
 rmc_pub_write.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index dd3e6d0..02854be 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -97,9 +97,11 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     if (res == -1) {
         if ( errno != EAGAIN && errno != EWOULDBLOCK) {
+            res = errno;
             RMC_LOG_INDEX_WARNING(RMC_MULTICAST_INDEX,
-                                  "sendmsg(): %d/%s", errno, strerror(errno));
-            return errno;
+                                  "sendmsg(): %d/%s", (int) res, strerror(res));
+            // The packet is still queued.
+            goto rearm;
         }
 
         // We are ok with an EAGAIN error since we can retry later to
-- 
2.43.0


From 3ae92bc25ef8bce81dee3401f74cbdf8e873c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 48/58] fix: circ_buf_alloc must not return an empty first
 segment

---
 circular_buffer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index 315fac8..fddb155 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -77,7 +77,8 @@ int circ_buf_alloc(circ_buf_t* circ_buf,
         *segment1_len = len;
         *segment2 = 0;
         *segment2_len = 0;
-        circ_buf->stop_ind += len;
+        // Wrap, or the first segment of the next allocation would be empty.
+        circ_buf->stop_ind = (circ_buf->stop_ind + len) % buf_size;
         return 0;
     }
 
-- 
2.43.0


From 79bb574f03111f928f77b344e8848b6773c5080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 49/58] fix: free the context when it cannot be initialised

---
 rmc_pub_context.c | 12 +++++++++---
 rmc_sub_context.c | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index dd5095f..e27f33b 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -93,21 +93,21 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve multicast address %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(control_listen_if_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve tcp listen address %s to IP address\n",
                 control_listen_if_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->control_listen_if_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -149,6 +149,12 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     RMC_LOG_DEBUG("Publisher Context init. node_id[0x%X] mcast_group[%s:%d] mcast_if[%s] user_data[0x%X]",
                   ctx->node_id, mcast_group_addr, multicast_port,  mcast_if_addr, user_data.u32);
     return 0;
+
+error:
+    *context_res = 0;
+    free(conn_vec);
+    free(ctx);
+    return EINVAL;
 }
 
 
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 9980d58..b10b994 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -93,14 +93,14 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_group_addr): Could not resolve %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto error;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -129,6 +129,12 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
     return 0;
+
+error:
+    *context_res = 0;
+    free(conn_vec);
+    free(ctx);
+    return EINVAL;
 }
 
 
-- 
2.43.0


From a9b03ce71e592c72f0618af367466fb76c64e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 50/58] fix: return EINVAL for a null context when setting the
 TTL

---
 rmc_pub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index e27f33b..e5855c0 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -373,6 +373,9 @@ int rmc_pub_set_announce_interval(rmc_pub_context_t* ctx, uint32_t send_interval
 // Can be called once the context is activated.
 int rmc_pub_set_multicast_ttl(rmc_pub_context_t* ctx, int hops)
 {
+    if (!ctx)
+        return EINVAL;
+
     if (ctx->mcast_send_descriptor == -1)
         return ENOTCONN;
 
-- 
2.43.0


From 34f2b7178c7e25db3af6f7d1cde6616fafb3a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 51/58] fix: report the operation result when the publisher
 discards a multicast packet

---
 rmc_pub_read.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 5d64d01..bda6715 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -208,8 +208,10 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
             res = errno;
             RMC_LOG_INDEX_WARNING(RMC_MULTICAST_INDEX, "recvfrom(): %s", strerror(res));
             *op_res = RMC_ERROR;
-        } else
+        } else {
             RMC_LOG_INDEX_INFO(RMC_MULTICAST_INDEX, "recvfrom(MULTICAST): Ignored loopback");
+            *op_res = RMC_READ_MULTICAST_LOOPBACK;
+        }
 
         // Stay interested in writing if we still have packets to send.
         if (ctx->conn_vec.poll_modify) {
-- 
2.43.0


From 22682c46389ee7128a70099a9bdcb918399027bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 52/58] fix: stop polling the publisher's descriptors after the
 disconnect callbacks

---
 rmc_pub_context.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index e5855c0..be2d339 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -291,18 +291,6 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
     if (ctx->mcast_send_descriptor == -1)
         return 0;
 
-    // Callback to remnove listen and multicast descriptor
-    // from caller's poll vector.
-    if (ctx->conn_vec.poll_remove) {
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_send_descriptor,
-                                     RMC_MULTICAST_INDEX);
-
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->listen_descriptor,
-                                     RMC_LISTEN_INDEX);
-    }
-
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
 
     if (max != RMC_NIL_INDEX) {
@@ -317,6 +305,18 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         }
     }
 
+    // Callback to remnove listen and multicast descriptor
+    // from caller's poll vector.
+    if (ctx->conn_vec.poll_remove) {
+        (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                     ctx->mcast_send_descriptor,
+                                     RMC_MULTICAST_INDEX);
+
+        (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                     ctx->listen_descriptor,
+                                     RMC_LISTEN_INDEX);
+    }
+
     close(ctx->mcast_send_descriptor);
     close(ctx->listen_descriptor);
 
-- 
2.43.0


From 8d9a68e3c4e923bbcc4d738593262ef7fb982fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 53/58] fix: a subscriber received the traffic of other groups
 and interfaces that share its port on the host

---
 rmc_sub_context.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index b10b994..244d997 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -143,6 +143,9 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     struct sockaddr_in sock_addr;
     struct ip_mreq mreq;
     int on_flag = 1;
+#ifdef IP_MULTICAST_ALL
+    int off_flag = 0;
+#endif
     int sz = 1024*1024;
 
     if (!ctx)
@@ -173,6 +176,17 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
         goto error;
     }
 
+#ifdef IP_MULTICAST_ALL
+    // A socket bound to INADDR_ANY is otherwise also given the traffic of
+    // the groups, and on the interfaces, that other sockets of this host
+    // have joined on the same port.
+    if (setsockopt(ctx->mcast_recv_descriptor,
+                   IPPROTO_IP, IP_MULTICAST_ALL, &off_flag, sizeof(off_flag)) < 0) {
+        RMC_LOG_ERROR("setsockopt(IP_MULTICAST_ALL)");
+        goto error;
+    }
+#endif
+
     memset((void*) &sock_addr, 0, sizeof(sock_addr));
 
     sock_addr.sin_family = AF_INET;
-- 
2.43.0


From 94a06c91a2ce6cf9d05083ee549c7f7b638db32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 54/58] fix: a read call modified the poll registration of a
 connection its callback had closed

---
 rmc_pub_read.c | 4 ++++
 rmc_sub_read.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index bda6715..3f3e73c 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -252,6 +252,10 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return res;
     }
 
+    // Did the control message callback close the connection?
+    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
+        return res;
+
     // Read poll is always active. Callback to re-arm.
     old_action = conn->action;
     rmc_conn_get_pending_send_length(conn, &write_buf_sz);
diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a2684f2..ccf6dcf 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -483,6 +483,10 @@ int rmc_sub_read(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 
     *op_res = RMC_READ_TCP;
 
+    // Did the packet ready callback close the connection?
+    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
+        return res;
+
 rearm:
 
     // Read poll is always active. Callback to re-arm.
-- 
2.43.0


From 27b95bfd66bd124a291af071617318f955a67ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 55/58] fix: the subscriber kept reading its multicast socket
 after a callback deactivated it

---
 rmc_sub_read.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index ccf6dcf..b14584b 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -242,6 +242,10 @@ static int multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res)
         }
 
         res = process_multicast_read(ctx, read_res, ntohl(src_addr.sin_addr.s_addr), buffer, len);
+
+        // Did a callback deactivate the context?
+        if (ctx->mcast_recv_descriptor == -1)
+            return res?res:EAGAIN;
     }
 
 rearm:
-- 
2.43.0


From 76c13513045afcbfc616c3eb4bf5a214165a6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 56/58] fix: write calls aborted without a context

---
 rmc_pub_write.c | 4 +++-
 rmc_sub_write.c | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 02854be..1b96866 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -249,7 +249,9 @@ int rmc_pub_write(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
     uint32_t bytes_left_after = 0;
     rmc_poll_action_t old_action = 0;
     rmc_connection_t* conn = 0;
-    assert(ctx);
+    if (!ctx)
+        return EINVAL;
+
 
     if (s_ind == RMC_MULTICAST_INDEX) {
         if (op_res)
diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index 0747365..4074345 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -280,7 +280,8 @@ int rmc_sub_write(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
     rmc_poll_action_t old_action;
     rmc_connection_t* conn = 0;
 
-    assert(ctx);
+    if (!ctx)
+        return EINVAL;
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
     // Is s_ind within our connection vector?
-- 
2.43.0


From 8634c55061292ff6d648d86a2e4ffe513b42fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 57/58] fix: multicast write and accept on an inactive
 publisher

---
 rmc_pub_read.c  | 6 ++++++
 rmc_pub_write.c | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 3f3e73c..291877e 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -156,6 +156,12 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 
     if (s_ind == RMC_LISTEN_INDEX)  {
         rmc_connection_t* conn = 0;
+
+        if (ctx->listen_descriptor == -1) {
+            *op_res = RMC_ERROR;
+            return ENOTCONN;
+        }
+
         res = rmc_conn_process_accept(ctx->listen_descriptor, &ctx->conn_vec, &s_ind);
 
         // Re-arm the listen descriptor, no matter if this connection could be accepted.
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 1b96866..3ec3c17 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -252,8 +252,14 @@ int rmc_pub_write(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
     if (!ctx)
         return EINVAL;
 
-
     if (s_ind == RMC_MULTICAST_INDEX) {
+        if (ctx->mcast_send_descriptor == -1) {
+            if (op_res)
+                *op_res = RMC_ERROR;
+
+            return ENOTCONN;
+        }
+
         if (op_res)
             *op_res = RMC_WRITE_MULTICAST;
         // Write as many multicast packets as we can.
-- 
2.43.0


From d9351c7c0f5b9b0d5d41d843619963b76a897b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:29 +0000
Subject: [PATCH 58/58] fix: keep the acknowledgement list sorted when a
 publisher can only be acknowledged in part

---
 rmc_internal.h    |  2 ++
 rmc_sub_packet.c  | 13 +++++++++----
 rmc_sub_timeout.c |  9 ++++++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index 5eae986..5fc519d 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -409,6 +409,8 @@ extern int rmc_sub_packet_interval_acknowledged(struct rmc_sub_context* context,
                                                 rmc_index_t index,
                                                 sub_pid_interval_t* interval);
 
+extern void rmc_sub_add_to_ack_list(struct rmc_sub_context* ctx, rmc_index_t index);
+
 extern rmc_index_t rmc_sub_packet_connection(sub_packet_t* packet);
 
 extern void rmc_conn_init_connection_vector(struct rmc_connection_vector* conn_vec,
diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 5cbc0cf..1363630 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -27,6 +27,14 @@ static int _compare_oldest_unackowledged_packet(rmc_index_t n_ind, rmc_index_t o
 
 }
 
+// Sort a publisher into the list of those with pending packet acks.
+void rmc_sub_add_to_ack_list(rmc_sub_context_t* ctx, rmc_index_t index)
+{
+    rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
+                                     index,
+                                     _compare_oldest_unackowledged_packet,
+                                     ctx);
+}
 
 int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             rmc_index_t index, // Into ctx->connections and ctx->publishers
@@ -54,10 +62,7 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
     // has to be recorded as received before the publisher is inserted.
     //
     if (first)
-        rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
-                                         index,
-                                         _compare_oldest_unackowledged_packet,
-                                         ctx);
+        rmc_sub_add_to_ack_list(ctx, index);
 
     return 0;
 }
diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index 3738711..6fd4d05 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -51,7 +51,9 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
     while(inode) {
         sub_publisher_t* pub = &ctx->publishers[inode->data];
         sub_pid_interval_t pid_intv;
+        rmc_index_t index = inode->data;
         int ack_res = 0;
+        int acked = 0;
 
 
         // If it is not yet time to send acks for this publisher, then
@@ -79,13 +81,18 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
                 res = ack_res;
                 break;
             }
+            acked = 1;
         }
 
         // A publisher that cannot be acknowledged right now must not hold up the others.
         next = rmc_index_list_next(inode);
-        if (!ack_res)
+        if (!ack_res || acked)
             rmc_index_list_delete(inode);
 
+        // The packets that are left may be more recent than those of other publishers.
+        if (ack_res && acked)
+            rmc_sub_add_to_ack_list(ctx, index);
+
         inode = next;
     }
 
-- 
2.43.0


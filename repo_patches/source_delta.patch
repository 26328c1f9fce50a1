From 987ff4f6ce8278c35b6bd8bf5ac53103b3517e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 01/34] fix: reject base64 text with padding before the last
 quartet

base64_decode() stopped at a padding character in the middle of the text
and returned the uninitialised rest of its buffer as decoded data.
---
 src/crypto.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto.c b/src/crypto.c
index 779263f..888e891 100644
--- a/src/crypto.c
+++ b/src/crypto.c
@@ -376,6 +376,9 @@ static void base64_decode(xmpp_ctx_t *ctx,
         }
         if (hextet > 64)
             goto _base64_decode_error;
+        /* padding is only allowed in the last quartet */
+        if (i != (dlen % 3 == 0 ? len : len - 4))
+            goto _base64_decode_error;
         /* handle the remainder */
         switch (dlen % 3) {
         case 0:
-- 
2.43.0


From 061d5d7271afbb32a17d6733656f40e131a747c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 02/34] fix: no trailing dot in SRV targets ending with a
 pointer to the root

---
 src/resolver.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolver.c b/src/resolver.c
index 028320a..2da6b7c 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -359,6 +359,11 @@ static unsigned message_name_get(const unsigned char *buf,
                 name_max > name_len ? name_max - name_len : 0);
             if (rc == 0)
                 return 0;
+            if (name != NULL && name_len > 0 && name_len < name_max &&
+                name[name_len] == '\0') {
+                /* Pointer to the root label, drop the trailing dot. */
+                name[name_len - 1] = '\0';
+            }
             /* Pointer is always the last. */
             break;
 
-- 
2.43.0


From f99494b2262d7990e639c4739e843b551fd7cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 03/34] fix: don't drop SRV answers followed by a short record
 of another type

---
 src/resolver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolver.c b/src/resolver.c
index 2da6b7c..32b4ac5 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -457,12 +457,13 @@ static int resolver_raw_srv_lookup_buf(xmpp_ctx_t *ctx,
         if (name_len == 0)
             return XMPP_DOMAIN_NOT_FOUND;
         j += name_len;
-        BUF_OVERFLOW_CHECK(j + 16, len);
+        BUF_OVERFLOW_CHECK(j + 9, len);
         type = xmpp_ntohs_ptr(&buf[j]);
         class = xmpp_ntohs_ptr(&buf[j + 2]);
         rdlength = xmpp_ntohs_ptr(&buf[j + 8]);
         j += 10;
         if (type == MESSAGE_T_SRV && class == MESSAGE_C_IN) {
+            BUF_OVERFLOW_CHECK(j + 6, len);
             rr = resolver_srv_rr_new(ctx, NULL, 0, 0, 0);
             if (rr) {
                 rr->next = *srv_rr_list;
-- 
2.43.0


From 73de38b715dc8aa2d85907b68c6679b7220be925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 04/34] fix: detach children that outlive their released parent
 stanza

---
 src/stanza.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stanza.c b/src/stanza.c
index 6c6d6df..c727b1d 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -179,6 +179,8 @@ int xmpp_stanza_release(xmpp_stanza_t *stanza)
             tchild = child;
             child = child->next;
             tchild->next = NULL;
+            tchild->prev = NULL;
+            tchild->parent = NULL;
             xmpp_stanza_release(tchild);
         }
 
-- 
2.43.0


From 9552d0e3bfc85fa50f0b0b80676e0440e3df95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 05/34] fix: reset inner text bookkeeping together with the
 parser

---
 src/parser_expat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index c1d1d38..e258135 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -351,6 +351,8 @@ int parser_reset(parser_t *parser)
     if (parser->inner_text) {
         strophe_free(parser->ctx, parser->inner_text);
         parser->inner_text = NULL;
+        parser->inner_text_size = 0;
+        parser->inner_text_used = 0;
     }
 
     if (!parser->expat)
-- 
2.43.0


From fb198edf093bd91236c4e29fb4cd040e8f9c679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 06/34] fix: don't let expat defer elements split across reads

---
 src/parser_expat.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index e258135..901741c 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -360,6 +360,11 @@ int parser_reset(parser_t *parser)
 
     parser->depth = 0;
 
+#if XML_MAJOR_VERSION > 2 || (XML_MAJOR_VERSION == 2 && XML_MINOR_VERSION >= 6)
+    /* Expat may hold a complete element back until more data arrives when the
+     * element was split across reads. Nothing might follow on an XMPP stream. */
+    XML_SetReparseDeferralEnabled(parser->expat, XML_FALSE);
+#endif
     XML_SetUserData(parser->expat, parser);
     XML_SetElementHandler(parser->expat, _start_element, _end_element);
     XML_SetCharacterDataHandler(parser->expat, _characters);
-- 
2.43.0


From 7b1b9ca469a6581bbaebad10cb3e830bec55f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 07/34] fix: use the RFC 6120 name of the not-well-formed
 stream error

---
 src/auth.c   | 3 ++-
 src/stanza.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index a1bc3b5..07650a6 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -187,7 +187,8 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                     conn->stream_error->type = XMPP_SE_UNSUPPORTED_STANZA_TYPE;
                 else if (strcmp(name, "unsupported-version") == 0)
                     conn->stream_error->type = XMPP_SE_UNSUPPORTED_VERSION;
-                else if (strcmp(name, "xml-not-well-formed") == 0)
+                else if (strcmp(name, "not-well-formed") == 0 ||
+                         strcmp(name, "xml-not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
         } while ((child = xmpp_stanza_get_next(child)));
diff --git a/src/stanza.c b/src/stanza.c
index c727b1d..aa3d578 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -1595,7 +1595,7 @@ xmpp_error_new(xmpp_ctx_t *ctx, xmpp_error_type_t type, const char *text)
         xmpp_stanza_set_name(error_type, "unsupported-version");
         break;
     case XMPP_SE_XML_NOT_WELL_FORMED:
-        xmpp_stanza_set_name(error_type, "xml-not-well-formed");
+        xmpp_stanza_set_name(error_type, "not-well-formed");
         break;
     default:
         xmpp_stanza_set_name(error_type, "internal-server-error");
-- 
2.43.0


From 342df34f7277c0da809bccb5a08957ae4a1434bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 08/34] fix: give component connections a stream management
 state

The code dereferences conn->sm_state for every type of connection, but only
xmpp_connect_client() allocated it. The state may also be gone when the user
took it with xmpp_conn_get_sm_state().
---
 src/conn.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index f586a59..2948dc5 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -689,14 +689,6 @@ int xmpp_connect_client(xmpp_conn_t *conn,
     if (!domain)
         return XMPP_EMEM;
 
-    if (!conn->sm_state) {
-        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
-        if (!conn->sm_state)
-            goto err_mem;
-        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
-        conn->sm_state->ctx = conn->ctx;
-    }
-
     if (altdomain != NULL)
         strophe_debug(conn->ctx, "conn", "Connecting via altdomain.");
 
@@ -1576,7 +1568,7 @@ err_serialize:
 
 void trigger_sm_callback(xmpp_conn_t *conn)
 {
-    if (!conn || !conn->sm_callback)
+    if (!conn || !conn->sm_callback || !conn->sm_state)
         return;
 
     unsigned char *buf;
@@ -1819,7 +1811,8 @@ char *xmpp_conn_send_queue_drop_element(xmpp_conn_t *conn,
     if (t->next && t->next->userdata == t) {
         strophe_free(conn->ctx, _drop_send_queue_element(conn, t->next));
         /* reset the flag, so we restart to send `<r>` stanzas */
-        conn->sm_state->r_sent = 0;
+        if (conn->sm_state)
+            conn->sm_state->r_sent = 0;
     }
     /* Finally drop the element */
     char *r = _drop_send_queue_element(conn, t);
@@ -2034,7 +2027,7 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
     }
 
     handler_fire_stanza(conn, stanza);
-    if (conn->sm_state->sm_enabled)
+    if (conn->sm_state && conn->sm_state->sm_enabled)
         _conn_sm_handle_stanza(conn, stanza);
 }
 
@@ -2183,6 +2176,14 @@ static int _conn_connect(xmpp_conn_t *conn,
     if (type != XMPP_CLIENT && type != XMPP_COMPONENT)
         return XMPP_EINVOP;
 
+    if (!conn->sm_state) {
+        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
+        if (!conn->sm_state)
+            return XMPP_EMEM;
+        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
+        conn->sm_state->ctx = conn->ctx;
+    }
+
     _conn_reset(conn);
 
     conn->type = type;
-- 
2.43.0


From e2a91183278e1724820ec903dfa773027ef42f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 09/34] fix: notify the user only once that a connection is
 closed

conn_disconnect() is reached several times when the tear down happens while
a received chunk is processed and the rest of the chunk contains the end of
the stream. Elements following in that chunk don't belong to any connection.
---
 src/conn.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 2948dc5..a0952e1 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -909,6 +909,11 @@ void conn_disconnect_clean(xmpp_conn_t *conn)
  */
 void conn_disconnect(xmpp_conn_t *conn)
 {
+    /* the connection may be torn down from several places, but the user must be
+     * notified only once */
+    if (conn->state == XMPP_STATE_DISCONNECTED)
+        return;
+
     strophe_debug(conn->ctx, "xmpp", "Closing socket.");
     conn->state = XMPP_STATE_DISCONNECTED;
     conn->stream_negotiation_completed = 0;
@@ -1971,6 +1976,10 @@ static void _handle_stream_start(char *name, char **attrs, void *userdata)
     char *id;
     int failed = 0;
 
+    /* ignore what is left in the read buffer of a closed connection */
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (conn->stream_id)
         strophe_free(conn->ctx, conn->stream_id);
     conn->stream_id = NULL;
@@ -2007,6 +2016,10 @@ static void _handle_stream_end(char *name, void *userdata)
 
     UNUSED(name);
 
+    /* ignore what is left in the read buffer of a closed connection */
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     /* stream is over */
     strophe_debug(conn->ctx, "xmpp", "RECV: </stream:stream>");
     /* the session has been terminated properly, i.e. it can't be resumed */
@@ -2021,6 +2034,10 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
     char *buf;
     size_t len;
 
+    /* ignore what is left in the read buffer of a closed connection */
+    if (conn->state != XMPP_STATE_CONNECTED)
+        return;
+
     if (xmpp_stanza_to_text(stanza, &buf, &len) == 0) {
         strophe_debug(conn->ctx, "xmpp", "RECV: %s", buf);
         strophe_free(conn->ctx, buf);
-- 
2.43.0


From 3d164058e6ded553bc93f3c0c0303d5813fe793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 10/34] fix: keep handlers valid while the handler chain is
 processed

A handler that deleted itself or the next handlers of the chain, or that
caused the deletion of the system handlers by reconnecting from the
connection handler, made handler_fire_*() use or free items twice.
Handlers deleted while a chain is processed are now marked and freed
afterwards. Handlers added by an id handler don't see the stanza that is
being dispatched.
---
 src/common.h  |   5 +
 src/handler.c | 378 +++++++++++++++++++++++---------------------------
 2 files changed, 180 insertions(+), 203 deletions(-)

diff --git a/src/common.h b/src/common.h
index a367367..1373184 100644
--- a/src/common.h
+++ b/src/common.h
@@ -45,6 +45,8 @@ struct _xmpp_handlist_t {
     int enabled; /* handlers are added disabled and enabled after the
                   * handler chain is processed to prevent stanzas from
                   * getting processed by newly added handlers */
+    int removed; /* handlers deleted while the handler chain is processed are
+                  * only marked and freed afterwards */
     xmpp_handlist_t *next;
 
     union {
@@ -88,6 +90,7 @@ struct _xmpp_ctx_t {
     xmpp_loop_status_t loop_status;
     xmpp_connlist_t *connlist;
     xmpp_handlist_t *timed_handlers;
+    int timed_handlers_busy; /* timed_handlers is being processed */
 
     unsigned long timeout;
 };
@@ -327,6 +330,8 @@ struct _xmpp_conn_t {
     xmpp_handlist_t *timed_handlers;
     hash_t *id_handlers;
     xmpp_handlist_t *handlers;
+    int handlers_busy;    /* a handler chain is being processed */
+    int handlers_removed; /* there are handlers marked as removed */
     xmpp_sockopt_callback sockopt_cb;
     xmpp_sm_callback sm_callback;
     void *sm_callback_ctx;
diff --git a/src/handler.c b/src/handler.c
index 0577252..241ea5b 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -25,26 +25,6 @@
 #include "common.h"
 #include "ostypes.h"
 
-/* Remove item from the list pointed by head, but don't free it.
- * There can be a situation when user's handler deletes another handler which
- * is the previous in the list. handler_fire_stanza() and handler_fire_timed()
- * must handle this situation correctly. Current function helps to avoid
- * list corruption in described scenario.
- *
- * TODO Convert handler lists to double-linked lists. Current implementation
- * works for O(n).
- */
-static void _handler_item_remove(xmpp_handlist_t **head, xmpp_handlist_t *item)
-{
-    while (*head) {
-        if (*head == item) {
-            *head = item->next;
-            break;
-        }
-        head = &(*head)->next;
-    }
-}
-
 static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
 {
     if (item->u.ns)
@@ -56,6 +36,85 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
     strophe_free(ctx, item);
 }
 
+/* free the items of a list that are marked as removed */
+static void _handlers_purge(xmpp_ctx_t *ctx,
+                            xmpp_handlist_t **head,
+                            void (*free_item)(xmpp_ctx_t *, xmpp_handlist_t *))
+{
+    xmpp_handlist_t *item;
+
+    while ((item = *head)) {
+        if (item->removed) {
+            *head = item->next;
+            free_item(ctx, item);
+        } else
+            head = &item->next;
+    }
+}
+
+static void _free_timed_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
+{
+    strophe_free(ctx, item);
+}
+
+static void _free_id_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
+{
+    strophe_free(ctx, item->u.id);
+    strophe_free(ctx, item);
+}
+
+static void _id_handlers_purge(xmpp_conn_t *conn, const char *id)
+{
+    xmpp_handlist_t *head, *head_old;
+
+    head = head_old = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
+    _handlers_purge(conn->ctx, &head, _free_id_item);
+    if (head == head_old)
+        return;
+    /* hash_add() replaces value if the key exists */
+    if (head != NULL)
+        hash_add(conn->id_handlers, id, head);
+    else
+        hash_drop(conn->id_handlers, id);
+}
+
+/* free all handlers that are marked as removed. must not be called while
+ * a handler chain is processed */
+static void _handlers_purge_all(xmpp_conn_t *conn)
+{
+    hash_iterator_t *iter;
+    const char *key, *key2;
+
+    conn->handlers_removed = 0;
+
+    _handlers_purge(conn->ctx, &conn->handlers, _free_handlist_item);
+    _handlers_purge(conn->ctx, &conn->timed_handlers, _free_timed_item);
+
+    iter = hash_iter_new(conn->id_handlers);
+    key = iter == NULL ? NULL : hash_iter_next(iter);
+    while (key != NULL) {
+        /* Hash table implementation is not perfect, so we need to find next
+           key before dropping current one. Otherwise, we will get access to
+           freed memory. */
+        key2 = hash_iter_next(iter);
+        _id_handlers_purge(conn, key);
+        key = key2;
+    }
+    if (iter)
+        hash_iter_release(iter);
+}
+
+static void _handlers_enter(xmpp_conn_t *conn)
+{
+    conn->handlers_busy++;
+}
+
+static void _handlers_leave(xmpp_conn_t *conn)
+{
+    if (--conn->handlers_busy == 0 && conn->handlers_removed)
+        _handlers_purge_all(conn);
+}
+
 /** Fire off all stanza handlers that match.
  *  This function is called internally by the event loop whenever stanzas
  *  are received from the XMPP server.
@@ -65,42 +124,34 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
  */
 void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 {
-    xmpp_handlist_t *item, *next, *head, *head_old;
+    xmpp_handlist_t *item, *head;
     const char *id, *ns, *name, *type;
     int ret;
 
-    /* call id handlers */
+    _handlers_enter(conn);
+
     id = xmpp_stanza_get_id(stanza);
-    if (id) {
-        head = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
-        /* enable all added handlers */
-        for (item = head; item; item = item->next)
-            item->enabled = 1;
+    head = id ? (xmpp_handlist_t *)hash_get(conn->id_handlers, id) : NULL;
 
-        item = head;
-        while (item) {
-            /* don't fire user handlers until stream negotiation has completed
-               and skip newly added handlers */
-            if ((item->user_handler && !conn->stream_negotiation_completed) ||
-                !item->enabled) {
-                item = item->next;
-                continue;
-            }
+    /* enable all added handlers */
+    for (item = head; item; item = item->next)
+        item->enabled = 1;
+    for (item = conn->handlers; item; item = item->next)
+        item->enabled = 1;
 
-            ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
-            next = item->next;
-            if (!ret) {
-                /* handler is one-shot, so delete it */
-                head_old = head;
-                _handler_item_remove(&head, item);
-                if (head != head_old) {
-                    /* replace old value */
-                    hash_add(conn->id_handlers, id, head);
-                }
-                strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
-            }
-            item = next;
+    /* call id handlers */
+    for (item = head; item; item = item->next) {
+        /* don't fire user handlers until stream negotiation has completed
+           and skip newly added and removed handlers */
+        if ((item->user_handler && !conn->stream_negotiation_completed) ||
+            !item->enabled || item->removed)
+            continue;
+
+        ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
+        if (!ret) {
+            /* handler is one-shot, so delete it */
+            item->removed = 1;
+            conn->handlers_removed = 1;
         }
     }
 
@@ -109,37 +160,28 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
     name = xmpp_stanza_get_name(stanza);
     type = xmpp_stanza_get_type(stanza);
 
-    /* enable all added handlers */
-    for (item = conn->handlers; item; item = item->next)
-        item->enabled = 1;
-
-    item = conn->handlers;
-    while (item) {
+    for (item = conn->handlers; item; item = item->next) {
         /* don't fire user handlers until stream negotiation has completed and
-           skip newly added handlers */
+           skip newly added and removed handlers */
         if ((item->user_handler && !conn->stream_negotiation_completed) ||
-            !item->enabled) {
-            item = item->next;
+            !item->enabled || item->removed)
             continue;
-        }
 
-        next = item->next;
         if ((!item->u.ns || (ns && strcmp(ns, item->u.ns) == 0) ||
              xmpp_stanza_get_child_by_ns(stanza, item->u.ns)) &&
             (!item->u.name || (name && strcmp(name, item->u.name) == 0)) &&
             (!item->u.type || (type && strcmp(type, item->u.type) == 0))) {
 
             ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
-            /* list may be changed during execution of a handler */
-            next = item->next;
             if (!ret) {
                 /* handler is one-shot, so delete it */
-                _handler_item_remove(&conn->handlers, item);
-                _free_handlist_item(conn->ctx, item);
+                item->removed = 1;
+                conn->handlers_removed = 1;
             }
         }
-        item = next;
     }
+
+    _handlers_leave(conn);
 }
 
 /** Fire off all timed handlers that are ready.
@@ -152,7 +194,7 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
 {
     xmpp_connlist_t *connitem;
-    xmpp_handlist_t *item, *next;
+    xmpp_handlist_t *item;
     xmpp_conn_t *conn;
     uint64_t elapsed, min;
     uint64_t timestamp;
@@ -172,35 +214,32 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
         for (item = conn->timed_handlers; item; item = item->next)
             item->enabled = 1;
 
-        item = conn->timed_handlers;
-        while (item) {
+        _handlers_enter(conn);
+        for (item = conn->timed_handlers; item; item = item->next) {
+            /* a handler may have closed the connection */
+            if (conn->state != XMPP_STATE_CONNECTED)
+                break;
             /* don't fire user handlers until stream negotiation has completed
-               and skip newly added handlers */
+               and skip newly added and removed handlers */
             if ((item->user_handler && !conn->stream_negotiation_completed) ||
-                !item->enabled) {
-                item = item->next;
+                !item->enabled || item->removed)
                 continue;
-            }
 
-            next = item->next;
             timestamp = time_stamp();
             elapsed = time_elapsed(item->u.last_stamp, timestamp);
             if (elapsed >= item->u.period) {
                 /* fire! */
                 item->u.last_stamp = timestamp;
                 ret = ((xmpp_timed_handler)item->handler)(conn, item->userdata);
-                /* list may be changed during execution of a handler */
-                next = item->next;
                 if (!ret) {
                     /* delete handler if it returned false */
-                    _handler_item_remove(&conn->timed_handlers, item);
-                    strophe_free(ctx, item);
+                    item->removed = 1;
+                    conn->handlers_removed = 1;
                 }
             } else if (min > (item->u.period - elapsed))
                 min = item->u.period - elapsed;
-
-            item = next;
         }
+        _handlers_leave(conn);
 
         connitem = connitem->next;
     }
@@ -210,9 +249,10 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
      * regardless of connections state.
      * TODO Reduce copy-paste.
      */
-    item = ctx->timed_handlers;
-    while (item) {
-        next = item->next;
+    ctx->timed_handlers_busy++;
+    for (item = ctx->timed_handlers; item; item = item->next) {
+        if (item->removed)
+            continue;
         timestamp = time_stamp();
         elapsed = time_elapsed(item->u.last_stamp, timestamp);
         if (elapsed >= item->u.period) {
@@ -220,18 +260,15 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
             item->u.last_stamp = timestamp;
             ret =
                 ((xmpp_global_timed_handler)item->handler)(ctx, item->userdata);
-            /* list may be changed during execution of a handler */
-            next = item->next;
             if (!ret) {
                 /* delete handler if it returned false */
-                _handler_item_remove(&ctx->timed_handlers, item);
-                strophe_free(ctx, item);
+                item->removed = 1;
             }
         } else if (min > (item->u.period - elapsed))
             min = item->u.period - elapsed;
-
-        item = next;
     }
+    if (--ctx->timed_handlers_busy == 0)
+        _handlers_purge(ctx, &ctx->timed_handlers, _free_timed_item);
 
     return min;
 }
@@ -266,7 +303,8 @@ static void _timed_handler_add(xmpp_ctx_t *ctx,
 
     /* check if handler is already in the list */
     for (item = *handlers_list; item; item = item->next) {
-        if (item->handler == handler && item->userdata == userdata) {
+        if (item->handler == handler && item->userdata == userdata &&
+            !item->removed) {
             strophe_warn(ctx, "xmpp", "Timed handler already exists.");
             break;
         }
@@ -283,6 +321,7 @@ static void _timed_handler_add(xmpp_ctx_t *ctx,
     item->handler = handler;
     item->userdata = userdata;
     item->enabled = 0;
+    item->removed = 0;
 
     item->u.period = period;
     item->u.last_stamp = time_stamp();
@@ -292,20 +331,12 @@ static void _timed_handler_add(xmpp_ctx_t *ctx,
     *handlers_list = item;
 }
 
-static void _timed_handler_delete(xmpp_ctx_t *ctx,
-                                  xmpp_handlist_t **handlers_list,
-                                  xmpp_void_handler handler)
+static void _handlers_mark_removed(xmpp_handlist_t *item,
+                                   xmpp_void_handler handler)
 {
-    xmpp_handlist_t *item;
-
-    while (*handlers_list) {
-        item = *handlers_list;
-        if (item->handler == handler) {
-            *handlers_list = item->next;
-            strophe_free(ctx, item);
-        } else {
-            handlers_list = &item->next;
-        }
+    for (; item; item = item->next) {
+        if (item->handler == handler)
+            item->removed = 1;
     }
 }
 
@@ -318,7 +349,11 @@ static void _timed_handler_delete(xmpp_ctx_t *ctx,
  */
 void xmpp_timed_handler_delete(xmpp_conn_t *conn, xmpp_timed_handler handler)
 {
-    _timed_handler_delete(conn->ctx, &conn->timed_handlers, handler);
+    _handlers_mark_removed(conn->timed_handlers, handler);
+    if (conn->handlers_busy)
+        conn->handlers_removed = 1;
+    else
+        _handlers_purge(conn->ctx, &conn->timed_handlers, _free_timed_item);
 }
 
 static void _id_handler_add(xmpp_conn_t *conn,
@@ -332,7 +367,8 @@ static void _id_handler_add(xmpp_conn_t *conn,
     /* check if handler is already in the list */
     item = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
     while (item) {
-        if (item->handler == handler && item->userdata == userdata) {
+        if (item->handler == handler && item->userdata == userdata &&
+            !item->removed) {
             strophe_warn(conn->ctx, "xmpp", "Id handler already exists.");
             break;
         }
@@ -350,6 +386,7 @@ static void _id_handler_add(xmpp_conn_t *conn,
     item->handler = handler;
     item->userdata = userdata;
     item->enabled = 0;
+    item->removed = 0;
     item->next = NULL;
 
     item->u.id = strophe_strdup(conn->ctx, id);
@@ -381,32 +418,14 @@ void xmpp_id_handler_delete(xmpp_conn_t *conn,
                             xmpp_handler handler,
                             const char *id)
 {
-    xmpp_handlist_t *item, *prev, *next;
-
-    prev = NULL;
-    item = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
-    if (!item)
-        return;
-
-    while (item) {
-        next = item->next;
-
-        if (item->handler == handler) {
-            if (prev)
-                prev->next = next;
-            else {
-                hash_drop(conn->id_handlers, id);
-                hash_add(conn->id_handlers, id, next);
-            }
-
-            strophe_free(conn->ctx, item->u.id);
-            strophe_free(conn->ctx, item);
-            item = next;
-        } else {
-            prev = item;
-            item = next;
-        }
-    }
+    xmpp_handlist_t *head;
+
+    head = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
+    _handlers_mark_removed(head, handler);
+    if (conn->handlers_busy)
+        conn->handlers_removed = 1;
+    else
+        _id_handlers_purge(conn, id);
 }
 
 static int _dup_string(xmpp_ctx_t *ctx, const char *src, char **dest)
@@ -434,7 +453,8 @@ static void _handler_add(xmpp_conn_t *conn,
     for (item = conn->handlers; item; item = item->next) {
         /* same handler function can process different stanzas and
            distinguish them according to userdata. */
-        if (item->handler == handler && item->userdata == userdata) {
+        if (item->handler == handler && item->userdata == userdata &&
+            !item->removed) {
             strophe_warn(conn->ctx, "xmpp", "Stanza handler already exists.");
             break;
         }
@@ -484,27 +504,11 @@ error_out:
  */
 void xmpp_handler_delete(xmpp_conn_t *conn, xmpp_handler handler)
 {
-    xmpp_handlist_t *prev, *item;
-
-    if (!conn->handlers)
-        return;
-
-    prev = NULL;
-    item = conn->handlers;
-    while (item) {
-        if (item->handler == handler) {
-            if (prev)
-                prev->next = item->next;
-            else
-                conn->handlers = item->next;
-
-            _free_handlist_item(conn->ctx, item);
-            item = prev ? prev->next : conn->handlers;
-        } else {
-            prev = item;
-            item = item->next;
-        }
-    }
+    _handlers_mark_removed(conn->handlers, handler);
+    if (conn->handlers_busy)
+        conn->handlers_removed = 1;
+    else
+        _handlers_purge(conn->ctx, &conn->handlers, _free_handlist_item);
 }
 
 /** Add a timed handler.
@@ -651,64 +655,30 @@ void handler_add(xmpp_conn_t *conn,
  */
 void handler_system_delete_all(xmpp_conn_t *conn)
 {
-    xmpp_handlist_t *item, *next, *head, *head_old;
+    xmpp_handlist_t *item;
     hash_iterator_t *iter;
-    const char *key, *key2;
-
-    /* TODO unify all kinds of handlers and avoid copy-paste below */
+    const char *key;
 
-    item = conn->handlers;
-    while (item) {
-        if (!item->user_handler) {
-            next = item->next;
-            _handler_item_remove(&conn->handlers, item);
-            _free_handlist_item(conn->ctx, item);
-            item = next;
-        } else
-            item = item->next;
-    }
-
-    item = conn->timed_handlers;
-    while (item) {
-        if (!item->user_handler) {
-            next = item->next;
-            _handler_item_remove(&conn->timed_handlers, item);
-            strophe_free(conn->ctx, item);
-            item = next;
-        } else
-            item = item->next;
-    }
+    for (item = conn->handlers; item; item = item->next)
+        item->removed |= !item->user_handler;
+    for (item = conn->timed_handlers; item; item = item->next)
+        item->removed |= !item->user_handler;
 
     iter = hash_iter_new(conn->id_handlers);
     key = iter == NULL ? NULL : hash_iter_next(iter);
     while (key != NULL) {
-        head = head_old = (xmpp_handlist_t *)hash_get(conn->id_handlers, key);
-        item = head;
-        while (item) {
-            if (!item->user_handler) {
-                next = item->next;
-                _handler_item_remove(&head, item);
-                strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
-                item = next;
-            } else
-                item = item->next;
-        }
-        /* Hash table implementation is not perfect, so we need to find next
-           key before dropping current one. Otherwise, we will get access to
-           freed memory. */
-        key2 = hash_iter_next(iter);
-        if (head != head_old) {
-            /* hash_add() replaces value if the key exists */
-            if (head != NULL)
-                hash_add(conn->id_handlers, key, head);
-            else
-                hash_drop(conn->id_handlers, key);
-        }
-        key = key2;
+        item = (xmpp_handlist_t *)hash_get(conn->id_handlers, key);
+        for (; item; item = item->next)
+            item->removed |= !item->user_handler;
+        key = hash_iter_next(iter);
     }
     if (iter)
         hash_iter_release(iter);
+
+    if (conn->handlers_busy)
+        conn->handlers_removed = 1;
+    else
+        _handlers_purge_all(conn);
 }
 
 /** Add a global timed handler.
@@ -758,5 +728,7 @@ void xmpp_global_timed_handler_add(xmpp_ctx_t *ctx,
 void xmpp_global_timed_handler_delete(xmpp_ctx_t *ctx,
                                       xmpp_global_timed_handler handler)
 {
-    _timed_handler_delete(ctx, &ctx->timed_handlers, handler);
+    _handlers_mark_removed(ctx->timed_handlers, handler);
+    if (!ctx->timed_handlers_busy)
+        _handlers_purge(ctx, &ctx->timed_handlers, _free_timed_item);
 }
-- 
2.43.0


From f8ece99c2c70034c73d450899b28971d3ada72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 11/34] fix: don't lose or repeat compressed data under
 back-pressure

A partial or refused write discarded the rest of the compressed buffer
or compressed the same data twice, a flush didn't always complete, output
held back in the inflater was forgotten, a read which produced no output
was taken for the end of the connection and the state leaked.
---
 src/common.h            |   1 +
 src/compression.c       | 225 ++++++++++++++++++++++------------------
 src/compression_dummy.c |   6 ++
 src/event.c             |   2 +-
 4 files changed, 134 insertions(+), 100 deletions(-)

diff --git a/src/common.h b/src/common.h
index 1373184..d915a44 100644
--- a/src/common.h
+++ b/src/common.h
@@ -234,6 +234,7 @@ int conn_int_nop(struct conn_interface *intf);
 
 int compression_init(xmpp_conn_t *conn);
 void compression_free(xmpp_conn_t *conn);
+int compression_write_pending(xmpp_conn_t *conn);
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text);
 
 struct _xmpp_conn_t {
diff --git a/src/compression.c b/src/compression.c
index b1a2c3a..f2de58f 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -25,7 +25,7 @@
 #endif
 
 struct zlib_compression {
-    void *buffer, *buffer_end;
+    void *buffer;
     z_stream stream;
 };
 
@@ -33,130 +33,147 @@ struct xmpp_compression {
     xmpp_conn_t *conn;
     struct zlib_compression compression, decompression;
     struct conn_interface next;
+    Bytef *out;             /* first compressed byte that wasn't sent yet */
+    int unflushed;          /* there's data to be flushed out of the deflater */
+    int decompression_full; /* there may be data left in the inflater */
+    int again;              /* more input is needed */
+    int failed;             /* set to the zlib error if the stream is broken */
 };
 
-static int _conn_decompress(struct xmpp_compression *comp,
-                            size_t c_len,
-                            void *buff,
-                            size_t len)
+/* Inflate what is available. The amount of data produced may be 0. */
+static int
+_conn_decompress(struct xmpp_compression *comp, void *buff, size_t len)
 {
-    if (comp->decompression.stream.next_in == NULL) {
-        comp->decompression.stream.next_in = comp->decompression.buffer;
-        comp->decompression.buffer_end =
-            comp->decompression.stream.next_in + c_len;
-        comp->decompression.stream.avail_in = c_len;
-    } else if (c_len) {
-        strophe_error(comp->conn->ctx, "zlib",
-                      "_conn_decompress() called with c_len=%zu", c_len);
-    }
-    comp->decompression.stream.next_out = buff;
-    comp->decompression.stream.avail_out = len;
-    int ret = inflate(&comp->decompression.stream, Z_SYNC_FLUSH);
-    switch (ret) {
-    case Z_STREAM_END:
-    case Z_OK:
-        if (comp->decompression.buffer_end ==
-            comp->decompression.stream.next_in)
-            comp->decompression.stream.next_in = NULL;
-        return comp->decompression.stream.next_out - (Bytef *)buff;
-    case Z_BUF_ERROR:
-        break;
-    default:
-        strophe_error(comp->conn->ctx, "zlib", "inflate error %d", ret);
-        comp->conn->error = ret;
-        conn_disconnect(comp->conn);
-        break;
-    }
-    return 0;
+    z_stream *stream = &comp->decompression.stream;
+    int ret;
+
+    stream->next_out = buff;
+    stream->avail_out = len;
+    ret = inflate(stream, Z_SYNC_FLUSH);
+    /* zlib may hold back output which doesn't fit into the buffer */
+    comp->decompression_full = stream->avail_out == 0;
+    if (stream->avail_in == 0)
+        stream->next_in = NULL;
+    len -= stream->avail_out;
+    if (len > 0 || ret == Z_OK || ret == Z_BUF_ERROR)
+        return (int)len;
+
+    strophe_error(comp->conn->ctx, "zlib", "inflate error %d", ret);
+    comp->failed = ret;
+    return -1;
 }
 
 static int compression_read(struct conn_interface *intf, void *buff, size_t len)
 {
     xmpp_conn_t *conn = intf->conn;
     struct xmpp_compression *comp = conn->compression.state;
-    void *dbuff = buff;
-    size_t dlen = len;
-    if (comp->decompression.stream.next_in != NULL) {
-        return _conn_decompress(comp, 0, buff, len);
+    z_stream *stream = &comp->decompression.stream;
+    int ret;
+
+    comp->again = 0;
+    if (stream->next_in != NULL || comp->decompression_full) {
+        ret = _conn_decompress(comp, buff, len);
+        if (ret != 0)
+            return ret;
     }
-    dbuff = comp->decompression.buffer;
-    dlen = STROPHE_COMPRESSION_BUFFER_SIZE;
-    int ret = comp->next.read(intf, dbuff, dlen);
-    if (ret > 0) {
-        return _conn_decompress(comp, ret, buff, len);
+    ret = comp->next.read(intf, comp->decompression.buffer,
+                          STROPHE_COMPRESSION_BUFFER_SIZE);
+    if (ret <= 0)
+        return ret;
+    stream->next_in = comp->decompression.buffer;
+    stream->avail_in = ret;
+    ret = _conn_decompress(comp, buff, len);
+    if (ret == 0) {
+        /* not enough input to produce something, the stream isn't closed */
+        comp->again = 1;
+        ret = -1;
     }
     return ret;
 }
 
-static int _try_compressed_write_to_network(xmpp_conn_t *conn, int force)
+/* Write the compressed data to the network. What isn't accepted by the
+ * transport is kept and sent later. */
+static int _compressed_write_to_network(struct xmpp_compression *comp)
 {
-    struct xmpp_compression *comp = conn->compression.state;
-    int ret = 0;
-    ptrdiff_t len =
-        comp->compression.stream.next_out - (Bytef *)comp->compression.buffer;
-    int buffer_full =
-        comp->compression.stream.next_out == comp->compression.buffer_end;
-    if ((buffer_full || force) && len > 0) {
-        ret = conn_interface_write(&comp->next, comp->compression.buffer, len);
-        if (ret < 0)
+    z_stream *stream = &comp->compression.stream;
+    int ret;
+
+    while (comp->out < stream->next_out) {
+        ret = conn_interface_write(&comp->next, comp->out,
+                                   stream->next_out - comp->out);
+        if (ret <= 0)
             return ret;
-        comp->compression.stream.next_out = comp->compression.buffer;
-        comp->compression.stream.avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
+        comp->out += ret;
     }
-    return ret;
+    comp->out = comp->compression.buffer;
+    stream->next_out = comp->compression.buffer;
+    stream->avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
+    return 0;
 }
 
-static int
-_compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
+static int _compression_deflate(struct xmpp_compression *comp, int flush)
 {
-    int ret;
-    const void *buff_end = buff + len;
-    struct xmpp_compression *comp = conn->compression.state;
-    comp->compression.stream.next_in = (Bytef *)buff;
-    comp->compression.stream.avail_in = len;
-    do {
-        ret = _try_compressed_write_to_network(conn, 0);
-        if (ret < 0) {
-            return ret;
-        }
+    int ret = deflate(&comp->compression.stream, flush);
 
-        ret = deflate(&comp->compression.stream, flush);
-        if (ret == Z_STREAM_END) {
-            break;
-        }
-        if (flush && ret == Z_BUF_ERROR) {
-            break;
-        }
-        if (ret != Z_OK) {
-            strophe_error(conn->ctx, "zlib", "deflate error %d", ret);
-            conn->error = ret;
-            conn_disconnect(conn);
-            return ret;
-        }
-        ret = comp->compression.stream.next_in - (Bytef *)buff;
-    } while (comp->compression.stream.next_in < (Bytef *)buff_end);
-    if (flush) {
-        ret = _try_compressed_write_to_network(conn, 1);
-        if (ret < 0) {
-            return ret;
-        }
-    }
-    return ret;
+    if (ret == Z_OK || ret == Z_BUF_ERROR)
+        return 0;
+
+    strophe_error(comp->conn->ctx, "zlib", "deflate error %d", ret);
+    comp->failed = ret;
+    comp->conn->error = ret;
+    return -1;
 }
 
 static int
 compression_write(struct conn_interface *intf, const void *buff, size_t len)
 {
-    return _compression_write(intf->conn, buff, len, Z_NO_FLUSH);
+    struct xmpp_compression *comp = intf->conn->compression.state;
+    z_stream *stream = &comp->compression.stream;
+    int ret = 0;
+
+    comp->again = 0;
+    stream->next_in = (Bytef *)buff;
+    stream->avail_in = len;
+    while (stream->avail_in > 0) {
+        if (stream->avail_out == 0) {
+            ret = _compressed_write_to_network(comp);
+            if (ret < 0 || stream->avail_out == 0)
+                break;
+        }
+        comp->unflushed = 1;
+        if (_compression_deflate(comp, Z_NO_FLUSH))
+            return -1;
+    }
+    /* the part that has been compressed must not be passed again */
+    len -= stream->avail_in;
+    stream->avail_in = 0;
+    return ret < 0 && len == 0 ? ret : (int)len;
 }
 
 static int compression_flush(struct conn_interface *intf)
 {
     xmpp_conn_t *conn = intf->conn;
     struct xmpp_compression *comp = conn->compression.state;
-    return _compression_write(conn, comp->compression.buffer, 0,
-                              conn->compression.dont_reset ? Z_SYNC_FLUSH
-                                                           : Z_FULL_FLUSH);
+    z_stream *stream = &comp->compression.stream;
+    int ret;
+
+    comp->again = 0;
+    stream->avail_in = 0;
+    while (comp->unflushed) {
+        if (stream->avail_out == 0) {
+            ret = _compressed_write_to_network(comp);
+            if (ret < 0 || stream->avail_out == 0)
+                return ret;
+        }
+        if (_compression_deflate(comp, conn->compression.dont_reset
+                                           ? Z_SYNC_FLUSH
+                                           : Z_FULL_FLUSH))
+            return -1;
+        /* the flush is complete when there's space left for output */
+        if (stream->avail_out > 0)
+            comp->unflushed = 0;
+    }
+    return _compressed_write_to_network(comp);
 }
 
 static int compression_pending(struct conn_interface *intf)
@@ -164,19 +181,28 @@ static int compression_pending(struct conn_interface *intf)
     xmpp_conn_t *conn = intf->conn;
     struct xmpp_compression *comp = conn->compression.state;
     return comp->decompression.stream.next_in != NULL ||
-           comp->next.pending(intf);
+           comp->decompression_full || comp->next.pending(intf);
+}
+
+int compression_write_pending(xmpp_conn_t *conn)
+{
+    struct xmpp_compression *comp = conn->compression.state;
+    return comp &&
+           (comp->unflushed || comp->out < comp->compression.stream.next_out);
 }
 
 static int compression_get_error(struct conn_interface *intf)
 {
-    struct conn_interface *next = &intf->conn->compression.state->next;
-    return next->get_error(next);
+    struct xmpp_compression *comp = intf->conn->compression.state;
+    return comp->failed ? comp->failed : comp->next.get_error(&comp->next);
 }
 
 static int compression_is_recoverable(struct conn_interface *intf, int err)
 {
-    struct conn_interface *next = &intf->conn->compression.state->next;
-    return next->error_is_recoverable(next, err);
+    struct xmpp_compression *comp = intf->conn->compression.state;
+    if (comp->failed || comp->again)
+        return !comp->failed;
+    return comp->next.error_is_recoverable(&comp->next, err);
 }
 
 static const struct conn_interface compression_intf = {
@@ -201,7 +227,6 @@ static void *_zlib_alloc(void *opaque, unsigned int items, unsigned int size)
 static void _init_zlib_compression(xmpp_ctx_t *ctx, struct zlib_compression *s)
 {
     s->buffer = strophe_alloc(ctx, STROPHE_COMPRESSION_BUFFER_SIZE);
-    s->buffer_end = s->buffer + STROPHE_COMPRESSION_BUFFER_SIZE;
 
     s->stream.opaque = ctx;
     s->stream.zalloc = _zlib_alloc;
@@ -225,6 +250,7 @@ int compression_init(xmpp_conn_t *conn)
 
     _init_zlib_compression(conn->ctx, &comp->compression);
 
+    comp->out = comp->compression.buffer;
     comp->compression.stream.next_out = comp->compression.buffer;
     comp->compression.stream.avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
     int ret = deflateInit(&comp->compression.stream, Z_DEFAULT_COMPRESSION);
@@ -260,6 +286,7 @@ void compression_free(xmpp_conn_t *conn)
         inflateEnd(&comp->decompression.stream);
         strophe_free_and_null(conn->ctx, comp->decompression.buffer);
     }
+    strophe_free_and_null(conn->ctx, conn->compression.state);
 }
 
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text)
diff --git a/src/compression_dummy.c b/src/compression_dummy.c
index 994ef6b..12837b3 100644
--- a/src/compression_dummy.c
+++ b/src/compression_dummy.c
@@ -29,6 +29,12 @@ void compression_free(xmpp_conn_t *conn)
     UNUSED(conn);
 }
 
+int compression_write_pending(xmpp_conn_t *conn)
+{
+    UNUSED(conn);
+    return 0;
+}
+
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text)
 {
     UNUSED(text);
diff --git a/src/event.c b/src/event.c
index 56d0a24..cfa50c6 100644
--- a/src/event.c
+++ b/src/event.c
@@ -235,7 +235,7 @@ next_item:
             break;
         case XMPP_STATE_CONNECTED:
             FD_SET(conn->sock, &rfds);
-            if (conn->send_queue_len > 0)
+            if (conn->send_queue_len > 0 || compression_write_pending(conn))
                 FD_SET(conn->sock, &wfds);
             break;
         case XMPP_STATE_DISCONNECTED:
-- 
2.43.0


From b1078f1db1e2fd2a99a47327e3063112facdbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 12/34] fix: keep the send queue consistent while it is written

The new head kept a pointer to the freed previous element and the SM
callback could free the element that was to be written next.
---
 src/event.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index cfa50c6..1392beb 100644
--- a/src/event.c
+++ b/src/event.c
@@ -138,7 +138,9 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
         while (sq) {
             towrite = sq->len - sq->written;
 
-            ret = conn_interface_write(intf, &sq->data[sq->written], towrite);
+            ret = towrite ? conn_interface_write(
+                                intf, &sq->data[sq->written], towrite)
+                          : 0;
             if (ret > 0 && ret < towrite)
                 sq->written += ret; /* not all data could be sent now */
             sq->wip = 1;
@@ -174,7 +176,11 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             /* if we've sent everything update the tail */
             if (!sq)
                 conn->send_queue_tail = NULL;
+            else
+                sq->prev = NULL;
             trigger_sm_callback(conn);
+            /* the callback is allowed to modify the queue */
+            sq = conn->send_queue_head;
         }
         intf->flush(intf);
 
-- 
2.43.0


From 06e79e854d4260c5648c68032b7ef142ef164ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 13/34] fix: don't take a read that would block for a closed
 connection

Also process what is left in the compression buffer even if there's no
activity on the socket.
---
 src/event.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/event.c b/src/event.c
index 1392beb..6e6e7d5 100644
--- a/src/event.c
+++ b/src/event.c
@@ -102,7 +102,7 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
     char buf[STROPHE_MESSAGE_BUFFER_SIZE];
     uint64_t next;
     uint64_t usec;
-    int tls_read_bytes = 0;
+    int pending = 0;
 
     if (ctx->loop_status == XMPP_LOOP_QUIT)
         return;
@@ -250,9 +250,9 @@ next_item:
             break;
         }
 
-        /* Check if there is something in the SSL buffer. */
-        if (conn->tls)
-            tls_read_bytes += tls_pending(intf);
+        /* Check if there is something in the SSL or compression buffer. */
+        if (conn->state == XMPP_STATE_CONNECTED && intf->pending(intf))
+            pending = 1;
 
         if (conn->state != XMPP_STATE_DISCONNECTED && conn->sock > max)
             max = conn->sock;
@@ -260,6 +260,10 @@ next_item:
         connitem = connitem->next;
     }
 
+    /* don't wait if there's already something to read */
+    if (pending)
+        tv.tv_sec = tv.tv_usec = 0;
+
     /* check for events */
     if (max > 0)
         ret = select(max + 1, &rfds, &wfds, NULL, &tv);
@@ -278,7 +282,7 @@ next_item:
     }
 
     /* no events happened */
-    if (ret == 0 && tls_read_bytes == 0)
+    if (ret == 0 && !pending)
         return;
 
     /* process events */
@@ -331,7 +335,7 @@ next_item:
                                       err);
                         conn->error = err;
                         conn_disconnect(conn);
-                    } else if (!conn->tls) {
+                    } else if (!conn->tls && ret == 0) {
                         /* return of 0 means socket closed by server */
                         strophe_debug(ctx, "xmpp",
                                       "Socket closed by remote host.");
-- 
2.43.0


From c68983aa9a531bb6a71fbbeebdaf652084b0a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 14/34] fix: close the stream only once and don't negotiate a
 closed stream

Repeated xmpp_disconnect() calls sent </stream:stream> several times, a
disconnect while the socket was connecting had no effect until the
connection was established and the negotiation went on after the stream
had been closed, prolonging the deadline.
---
 src/common.h |  1 +
 src/conn.c   | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/common.h b/src/common.h
index d915a44..7cb2ca8 100644
--- a/src/common.h
+++ b/src/common.h
@@ -322,6 +322,7 @@ struct _xmpp_conn_t {
     /* user handlers only get called after the stream negotiation has completed
      */
     int stream_negotiation_completed;
+    int disconnecting; /* our stream is closed, waiting for the server */
 
     /* connection events handler */
     xmpp_conn_handler conn_handler;
diff --git a/src/conn.c b/src/conn.c
index a0952e1..c885683 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -957,9 +957,16 @@ void conn_parser_reset(xmpp_conn_t *conn)
  */
 void xmpp_disconnect(xmpp_conn_t *conn)
 {
-    if (conn->state != XMPP_STATE_CONNECTING &&
-        conn->state != XMPP_STATE_CONNECTED)
+    /* there's no stream to be closed yet */
+    if (conn->state == XMPP_STATE_CONNECTING) {
+        conn_disconnect(conn);
+        return;
+    }
+
+    /* the stream can be closed only once */
+    if (conn->state != XMPP_STATE_CONNECTED || conn->disconnecting)
         return;
+    conn->disconnecting = 1;
 
     /* close the stream */
     send_raw_string(conn, "</stream:stream>");
@@ -2003,8 +2010,9 @@ static void _handle_stream_start(char *name, char **attrs, void *userdata)
     }
 
     if (!failed) {
-        /* call stream open handler */
-        conn->open_handler(conn);
+        /* call stream open handler, unless our stream is closed already */
+        if (!conn->disconnecting)
+            conn->open_handler(conn);
     } else {
         conn_disconnect(conn);
     }
@@ -2043,6 +2051,11 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
         strophe_free(conn->ctx, buf);
     }
 
+    /* don't negotiate a stream which has been closed by us */
+    if (conn->disconnecting && !conn->stream_negotiation_completed &&
+        strcmp(xmpp_stanza_get_name(stanza), "error") != 0)
+        return;
+
     handler_fire_stanza(conn, stanza);
     if (conn->sm_state && conn->sm_state->sm_enabled)
         _conn_sm_handle_stanza(conn, stanza);
@@ -2168,6 +2181,7 @@ static void _conn_reset(xmpp_conn_t *conn)
     strophe_free_and_null(ctx, conn->bound_jid);
     strophe_free_and_null(ctx, conn->stream_id);
     conn->stream_negotiation_completed = 0;
+    conn->disconnecting = 0;
     conn->secured = 0;
     conn->tls_failed = 0;
     conn->error = 0;
-- 
2.43.0


From 6eb9c42d5d1af666e5b7174d78ce90bd5f757149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 15/34] fix: close the stream after an XML parse error

The connection stayed open though nothing could be received any more, the
error was sent again for each further read, the debug message printed an
unterminated buffer and the stream error was retained for SM resending.
---
 src/conn.c  |  3 ++-
 src/event.c | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index c885683..bba5288 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -122,7 +122,8 @@ void xmpp_send_error(xmpp_conn_t *conn, xmpp_error_type_t type, char *text)
 {
     xmpp_stanza_t *error = xmpp_error_new(conn->ctx, type, text);
 
-    send_stanza(conn, error, XMPP_QUEUE_STROPHE);
+    /* stream errors are no stanzas, they aren't subject to SM */
+    send_stanza(conn, error, XMPP_QUEUE_SM_STROPHE);
 }
 
 /** Create a new Strophe connection object.
diff --git a/src/event.c b/src/event.c
index 6e6e7d5..5eca4bb 100644
--- a/src/event.c
+++ b/src/event.c
@@ -99,6 +99,7 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
     struct timeval tv;
     xmpp_send_queue_t *sq, *tsq;
     int towrite;
+    int len;
     char buf[STROPHE_MESSAGE_BUFFER_SIZE];
     uint64_t next;
     uint64_t usec;
@@ -322,11 +323,17 @@ next_item:
                 ret = intf->read(intf, buf, STROPHE_MESSAGE_BUFFER_SIZE);
 
                 if (ret > 0) {
+                    len = ret;
                     ret = parser_feed(conn->parser, buf, ret);
-                    if (!ret) {
-                        strophe_debug(ctx, "xmpp", "parse error [%s]", buf);
+                    /* the connection may have been closed meanwhile */
+                    if (!ret && conn->state == XMPP_STATE_CONNECTED &&
+                        !conn->disconnecting) {
+                        strophe_debug(ctx, "xmpp", "parse error [%.*s]", len,
+                                      buf);
+                        /* stream errors are unrecoverable */
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
+                        xmpp_disconnect(conn);
                     }
                 } else {
                     int err = intf->get_error(intf);
-- 
2.43.0


From 65831914253031d3efe42dbbedda4fad810381a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 16/34] fix: don't apply events of a closed socket to its
 successor

When a handler reconnects, the new socket may get the descriptor of a
socket which was watched in the same loop iteration, so that its events
were attributed to the new one.
---
 src/common.h | 1 +
 src/conn.c   | 1 +
 src/event.c  | 9 +++++++++
 3 files changed, 11 insertions(+)

diff --git a/src/common.h b/src/common.h
index 7cb2ca8..c851586 100644
--- a/src/common.h
+++ b/src/common.h
@@ -252,6 +252,7 @@ struct _xmpp_conn_t {
 
     xmpp_sock_t *xsock;
     sock_t sock;
+    int watched; /* the event loop is watching the socket */
     int ka_timeout;  /* TCP keepalive timeout */
     int ka_interval; /* TCP keepalive interval */
     int ka_count;    /* TCP keepalive count */
diff --git a/src/conn.c b/src/conn.c
index bba5288..7acf28c 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2224,6 +2224,7 @@ static int _conn_connect(xmpp_conn_t *conn,
         return XMPP_EMEM;
 
     conn->sock = sock_connect(conn->xsock);
+    conn->watched = 0;
     if (conn->sock == INVALID_SOCKET)
         return XMPP_EINT;
 
diff --git a/src/event.c b/src/event.c
index 5eca4bb..80fb09d 100644
--- a/src/event.c
+++ b/src/event.c
@@ -219,6 +219,7 @@ next_item:
     while (connitem) {
         conn = connitem->conn;
         intf = &conn->intf;
+        conn->watched = conn->state != XMPP_STATE_DISCONNECTED;
 
         switch (conn->state) {
         case XMPP_STATE_CONNECTING:
@@ -292,6 +293,14 @@ next_item:
         conn = connitem->conn;
         intf = &conn->intf;
 
+        /* A handler may have replaced the socket by a new one. There are no
+         * events of it yet, but its descriptor may be the one of a socket which
+         * has been watched and closed. */
+        if (!conn->watched) {
+            connitem = connitem->next;
+            continue;
+        }
+
         switch (conn->state) {
         case XMPP_STATE_CONNECTING:
             if (FD_ISSET(conn->sock, &wfds)) {
-- 
2.43.0


From 1dfcbee900eca51360c05de4a635896a51ce25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 17/34] fix: don't wait forever for the completion of a TLS
 handshake

---
 src/tls_openssl.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tls_openssl.c b/src/tls_openssl.c
index 641ca6c..4471a9c 100644
--- a/src/tls_openssl.c
+++ b/src/tls_openssl.c
@@ -119,6 +119,7 @@ enum {
     TLS_SHUTDOWN_MAX_RETRIES = 10,
     TLS_TIMEOUT_SEC = 0,
     TLS_TIMEOUT_USEC = 100000,
+    TLS_HANDSHAKE_TIMEOUT = 15000, /* milliseconds */
 };
 
 static void _tls_sock_wait(tls_t *tls, int error);
@@ -863,6 +864,7 @@ int tls_start(tls_t *tls)
     int error;
     int ret;
     long x509_res;
+    uint64_t start = time_stamp();
 
     /* Since we're non-blocking, loop the connect call until it
        succeeds or fails */
@@ -871,6 +873,12 @@ int tls_start(tls_t *tls)
         error = ret <= 0 ? SSL_get_error(tls->ssl, ret) : 0;
 
         if (ret == -1 && tls_is_recoverable(NULL, error)) {
+            /* don't wait forever for a peer that doesn't respond */
+            if (time_elapsed(start, time_stamp()) >= TLS_HANDSHAKE_TIMEOUT) {
+                strophe_error(tls->ctx, "tls", "TLS handshake timed out");
+                error = SSL_ERROR_SYSCALL;
+                break;
+            }
             /* wait for something to happen on the sock before looping back */
             _tls_sock_wait(tls, error);
             continue;
-- 
2.43.0


From 566d086c59b19ada9a8126ecaa7e7c226bc38df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 18/34] fix: limit the nesting depth of received XML

---
 src/parser_expat.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index 901741c..c3a7581 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -46,6 +46,11 @@ struct _parser_t {
     int inner_text_used;
 };
 
+#ifndef PARSER_MAX_DEPTH
+/** Max nesting depth of the elements in a stream. */
+#define PARSER_MAX_DEPTH 1024
+#endif
+
 /* Use the Unit Separator to delimit namespace and name in our XML */
 const XML_Char namespace_sep = '\x1F';
 
@@ -207,6 +212,11 @@ _start_element(void *userdata, const XML_Char *nsname, const XML_Char **attrs)
         strophe_free(parser->ctx, name);
 
     parser->depth++;
+
+    /* Stanzas are processed recursively, don't let the server exhaust the
+     * stack. This makes XML_Parse() fail. */
+    if (parser->depth > PARSER_MAX_DEPTH)
+        XML_StopParser(parser->expat, XML_FALSE);
 }
 
 static void _end_element(void *userdata, const XML_Char *name)
-- 
2.43.0


From 0b6f81733f61dbd70ad2e67b130b97e85c0d2c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 19/34] fix: don't carry offers of a previous connection over
 to the next

---
 src/conn.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 7acf28c..a50236b 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -103,6 +103,12 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
 static unsigned short _conn_default_port(xmpp_conn_t *conn,
                                          xmpp_conn_type_t type);
 static void _conn_reset(xmpp_conn_t *conn);
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata,
+                           int is_raw);
 static int _conn_connect(xmpp_conn_t *conn,
                          const char *domain,
                          xmpp_conn_type_t type,
@@ -663,10 +669,24 @@ int xmpp_connect_client(xmpp_conn_t *conn,
                         unsigned short altport,
                         xmpp_conn_handler callback,
                         void *userdata)
+{
+    return _connect_client(conn, altdomain, altport, callback, userdata, 0);
+}
+
+static int _connect_client(xmpp_conn_t *conn,
+                           const char *altdomain,
+                           unsigned short altport,
+                           xmpp_conn_handler callback,
+                           void *userdata,
+                           int is_raw)
 {
     char *domain;
     int rc;
 
+    /* don't touch anything that belongs to an existing connection */
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     if (!conn->jid && (conn->tls_client_cert || conn->tls_client_key)) {
         if (tls_id_on_xmppaddr_num(conn) != 1) {
             strophe_debug(conn->ctx, "xmpp",
@@ -706,6 +726,7 @@ int xmpp_connect_client(xmpp_conn_t *conn,
     if (!conn->xsock)
         goto err_mem;
 
+    conn->is_raw = is_raw;
     rc = _conn_connect(conn, domain, XMPP_CLIENT, callback, userdata);
     strophe_free(conn->ctx, domain);
 
@@ -749,6 +770,10 @@ int xmpp_connect_component(xmpp_conn_t *conn,
     if (!(server && conn->jid && conn->pass))
         return XMPP_EINVOP;
 
+    /* don't touch anything that belongs to an existing connection */
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     /* XEP-0114 does not support TLS */
     (void)xmpp_conn_set_flags(conn, xmpp_conn_get_flags(conn) |
                                         XMPP_CONN_FLAG_DISABLE_TLS);
@@ -766,6 +791,7 @@ int xmpp_connect_component(xmpp_conn_t *conn,
     if (!conn->xsock)
         return XMPP_EMEM;
 
+    conn->is_raw = 0;
     /* JID serves as an identifier here and will be used as "to" attribute
        of the stream */
     return _conn_connect(conn, conn->jid, XMPP_COMPONENT, callback, userdata);
@@ -798,8 +824,7 @@ int xmpp_connect_raw(xmpp_conn_t *conn,
                      xmpp_conn_handler callback,
                      void *userdata)
 {
-    conn->is_raw = 1;
-    return xmpp_connect_client(conn, altdomain, altport, callback, userdata);
+    return _connect_client(conn, altdomain, altport, callback, userdata, 1);
 }
 
 /* Called when tcp connection is established. */
@@ -2188,6 +2213,8 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->error = 0;
 
     conn->tls_support = 0;
+    conn->sasl_support = 0;
+    conn->compression.supported = 0;
 
     conn->bind_required = 0;
     conn->session_required = 0;
-- 
2.43.0


From 4d42336a2bf6a77a53bd1bf81a4a3372f7e541bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:28 +0000
Subject: [PATCH 20/34] fix: handle missing and late stream features
 consistently

---
 src/auth.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 07650a6..781f7e4 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -71,6 +71,8 @@ static int _handle_component_hs_response(xmpp_conn_t *conn,
                                          xmpp_stanza_t *stanza,
                                          void *userdata);
 
+static int
+_handle_features(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata);
 static int
 _handle_features_sasl(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata);
 static int _handle_features_compress(xmpp_conn_t *conn,
@@ -206,6 +208,9 @@ static int _handle_missing_features(xmpp_conn_t *conn, void *userdata)
 
     strophe_debug(conn->ctx, "xmpp", "didn't get stream features");
 
+    /* it's too late for them */
+    xmpp_handler_delete(conn, _handle_features);
+
     /* legacy auth will be attempted */
     _auth(conn);
 
@@ -977,7 +982,8 @@ static void _handle_open_compress(xmpp_conn_t *conn)
     /* setup stream:features handlers */
     handler_add(conn, _handle_features_compress, XMPP_NS_STREAMS, "features",
                 NULL, NULL);
-    handler_add_timed(conn, _handle_missing_features, FEATURES_TIMEOUT, NULL);
+    handler_add_timed(conn, _handle_missing_features_sasl, FEATURES_TIMEOUT,
+                      NULL);
 }
 
 static int _do_bind(xmpp_conn_t *conn, xmpp_stanza_t *bind)
@@ -1072,7 +1078,7 @@ static int _handle_features_compress(xmpp_conn_t *conn,
     xmpp_stanza_t *child;
 
     /* remove missing features handler */
-    xmpp_timed_handler_delete(conn, _handle_missing_features);
+    xmpp_timed_handler_delete(conn, _handle_missing_features_sasl);
 
     /* check for compression */
     child = xmpp_stanza_get_child_by_name_and_ns(stanza, "compression",
-- 
2.43.0


From 319dd256ffa457bb14fb8f81d8a3a9de19839a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 21/34] fix: make stream management resumption lossless

Evaluate the replies to <enable/> and <resume/> separately, continue the
numbering with the count of the server, keep what wasn't reported as handled
when the resumption fails, and don't let a failed or unexpected reply end
in an unusable connection.
---
 src/auth.c   | 212 +++++++++++++++++++++++++++------------------------
 src/common.h |   2 +
 src/conn.c   |  81 ++++++++++++--------
 3 files changed, 163 insertions(+), 132 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 781f7e4..3a91d5d 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -103,6 +103,7 @@ static int _handle_missing_handshake(xmpp_conn_t *conn, void *userdata);
 static int _handle_sm(xmpp_conn_t *const conn,
                       xmpp_stanza_t *const stanza,
                       void *const userdata);
+static void _sm_unavailable(xmpp_conn_t *conn);
 
 /* stream:error handler */
 static int
@@ -1141,18 +1142,19 @@ _handle_features_sasl(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     }
 
     /* Check stream-management support */
-    if (xmpp_stanza_get_child_by_name_and_ns(stanza, "sm", XMPP_NS_SM)) {
-        conn->sm_state->sm_support = 1;
-    }
+    conn->sm_state->sm_support =
+        xmpp_stanza_get_child_by_name_and_ns(stanza, "sm", XMPP_NS_SM) != NULL;
 
     /* We are expecting either <bind/> and optionally <session/> since this is a
        XMPP style connection or we <resume/> the previous session */
 
     /* Check whether we can <resume/> the previous session */
-    if (!conn->sm_disable && conn->sm_state->can_resume &&
-        conn->sm_state->previd && conn->sm_state->bound_jid) {
+    if (!conn->sm_disable && conn->sm_state->sm_support &&
+        conn->sm_state->can_resume && conn->sm_state->previd) {
         resume = xmpp_stanza_new(conn->ctx);
         if (!resume) {
+            if (bind)
+                xmpp_stanza_release(bind);
             disconnect_mem_error(conn);
             return 0;
         }
@@ -1237,7 +1239,10 @@ static void _sm_enable(xmpp_conn_t *conn)
         xmpp_stanza_set_attribute(enable, "resume", "true");
     handler_add(conn, _handle_sm, XMPP_NS_SM, NULL, NULL, NULL);
     send_stanza(conn, enable, XMPP_QUEUE_SM_STROPHE);
-    conn->sm_state->sm_sent_nr = 0;
+    /* this is a new session, the previous one can't be resumed anymore */
+    conn->sm_state->can_resume = 0;
+    conn->sm_state->resume = 0;
+    reset_sm_state(conn->sm_state);
     conn->sm_state->sm_enabled = 1;
     trigger_sm_callback(conn);
 }
@@ -1265,6 +1270,7 @@ _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
         if (binding) {
             jid_stanza = xmpp_stanza_get_child_by_name(binding, "jid");
             if (jid_stanza) {
+                strophe_free_and_null(conn->ctx, conn->bound_jid);
                 conn->bound_jid = xmpp_stanza_get_text(jid_stanza);
             }
         }
@@ -1282,7 +1288,7 @@ _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
          * successful
          */
         else {
-            _stream_negotiation_success(conn);
+            _sm_unavailable(conn);
         }
     } else {
         strophe_error(conn->ctx, "xmpp", "Server sent malformed bind reply.");
@@ -1321,7 +1327,7 @@ _handle_session(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
         if (conn->sm_state->sm_support && !conn->sm_disable) {
             _sm_enable(conn);
         } else {
-            _stream_negotiation_success(conn);
+            _sm_unavailable(conn);
         }
     } else {
         strophe_error(conn->ctx, "xmpp",
@@ -1353,30 +1359,18 @@ static int _handle_missing_legacy(xmpp_conn_t *conn, void *userdata)
     return 0;
 }
 
-static int _get_h_attribute(xmpp_stanza_t *stanza, unsigned long *ul_h)
+static int _get_h_attribute(xmpp_stanza_t *stanza, uint32_t *h)
 {
-    const char *h = xmpp_stanza_get_attribute(stanza, "h");
-    if (!h || string_to_ul(h, ul_h)) {
-        strophe_error(
-            stanza->ctx, "xmpp",
-            "SM error: failed parsing 'h', \"%s\" got converted to %llu.",
-            STR_MAYBE_NULL(h), *ul_h);
+    const char *attr_h = xmpp_stanza_get_attribute(stanza, "h");
+    if (!attr_h || sm_parse_h(attr_h, h)) {
+        strophe_error(stanza->ctx, "xmpp",
+                      "SM error: failed parsing 'h', \"%s\".",
+                      attr_h ? attr_h : "(null)");
         return -1;
     }
     return 0;
 }
 
-static void _sm_queue_cleanup(xmpp_conn_t *conn, unsigned long ul_h)
-{
-    xmpp_send_queue_t *e;
-    while ((e = peek_queue_front(&conn->sm_state->sm_queue))) {
-        if (e->sm_h >= ul_h)
-            break;
-        e = pop_queue_front(&conn->sm_state->sm_queue);
-        strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
-    }
-}
-
 static void _sm_queue_resend(xmpp_conn_t *conn)
 {
     xmpp_send_queue_t *e;
@@ -1391,34 +1385,52 @@ static void _sm_queue_resend(xmpp_conn_t *conn)
     }
 }
 
+/* There's no stream management in the new session, but there could be elements
+ * left which weren't acknowledged in a previous one. */
+static void _sm_unavailable(xmpp_conn_t *conn)
+{
+    conn->sm_state->sm_enabled = 0;
+    conn->sm_state->can_resume = 0;
+    reset_sm_state(conn->sm_state);
+    _sm_queue_resend(conn);
+    _stream_negotiation_success(conn);
+}
+
 static int _handle_sm(xmpp_conn_t *const conn,
                       xmpp_stanza_t *const stanza,
                       void *const userdata)
 {
-    xmpp_stanza_t *failed_cause, *bind = NULL;
-    const char *name, *id, *previd, *resume, *cause;
-    unsigned long ul_h = 0;
+    xmpp_sm_state_t *sm = conn->sm_state;
+    xmpp_stanza_t *failed_cause, *bind;
+    const char *name, *ns, *id, *previd, *resume, *cause = NULL;
+    char *buf;
+    size_t buflen;
+    uint32_t h;
 
     UNUSED(userdata);
 
     name = xmpp_stanza_get_name(stanza);
-    if (!name)
-        goto err_sm;
-
-    if (strcmp(name, "enabled") == 0) {
-        conn->sm_state->sm_handled_nr = 0;
+    ns = xmpp_stanza_get_ns(stanza);
+    /* This is not the reply we're waiting for */
+    if (!name || !ns || strcmp(ns, XMPP_NS_SM) != 0 ||
+        strcmp(name, "r") == 0 || strcmp(name, "a") == 0)
+        return 1;
+
+    if (strcmp(name, "enabled") == 0 && !sm->resume) {
+        sm->sm_handled_nr = 0;
         resume = xmpp_stanza_get_attribute(stanza, "resume");
-        if (resume && (strcasecmp(resume, "true") || strcmp(resume, "1"))) {
+        if (resume && (strcasecmp(resume, "true") == 0 ||
+                       strcmp(resume, "1") == 0)) {
             id = xmpp_stanza_get_attribute(stanza, "id");
             if (!id) {
                 strophe_error(conn->ctx, "xmpp",
                               "SM error: server said it can resume, but "
                               "didn't provide an ID.");
-                name = NULL;
                 goto err_sm;
             }
-            conn->sm_state->can_resume = 1;
-            conn->sm_state->id = strophe_strdup(conn->ctx, id);
+            strophe_free_and_null(conn->ctx, sm->id);
+            sm->id = strophe_strdup(conn->ctx, id);
+            sm->can_resume = sm->id != NULL;
         }
         /* We maybe have stuff in the SM queue if we tried to resume, but the
          * server doesn't remember all details of our session, but the `h` was
@@ -1426,98 +1438,96 @@ static int _handle_sm(xmpp_conn_t *const conn,
          */
         _sm_queue_resend(conn);
         _stream_negotiation_success(conn);
-    } else if (strcmp(name, "resumed") == 0) {
+    } else if (strcmp(name, "resumed") == 0 && sm->resume) {
         previd = xmpp_stanza_get_attribute(stanza, "previd");
-        if (!previd || strcmp(previd, conn->sm_state->previd)) {
+        if (!previd || strcmp(previd, sm->previd)) {
             strophe_error(conn->ctx, "xmpp",
                           "SM error: previd didn't match, ours is \"%s\".",
-                          conn->sm_state->previd);
-            name = NULL;
+                          sm->previd);
             goto err_sm;
         }
-        if (_get_h_attribute(stanza, &ul_h)) {
-            name = NULL;
+        if (_get_h_attribute(stanza, &h))
             goto err_sm;
-        }
-        conn->sm_state->sm_enabled = 1;
-        conn->sm_state->id = conn->sm_state->previd;
-        conn->sm_state->previd = NULL;
-        conn->bound_jid = conn->sm_state->bound_jid;
-        conn->sm_state->bound_jid = NULL;
-        if (conn->sm_state->sm_queue.head)
-            conn->sm_state->sm_sent_nr = conn->sm_state->sm_queue.head->sm_h;
-        else
-            conn->sm_state->sm_sent_nr = ul_h;
-        _sm_queue_cleanup(conn, ul_h);
+        if (sm->bind)
+            xmpp_stanza_release(sm->bind);
+        sm->bind = NULL;
+        sm->resume = 0;
+        sm->sm_enabled = 1;
+        strophe_free_and_null(conn->ctx, sm->id);
+        sm->id = sm->previd;
+        sm->previd = NULL;
+        strophe_free_and_null(conn->ctx, conn->bound_jid);
+        conn->bound_jid = sm->bound_jid;
+        sm->bound_jid = NULL;
+        /* What's left gets its number again when it's sent again */
+        sm->sm_sent_nr = h;
+        sm_queue_cleanup(conn, h);
         _sm_queue_resend(conn);
         strophe_debug(conn->ctx, "xmpp", "Session resumed successfully.");
         _stream_negotiation_success(conn);
     } else if (strcmp(name, "failed") == 0) {
-        name = NULL;
-        conn->sm_state->sm_enabled = 0;
+        sm->sm_enabled = 0;
 
         failed_cause =
             xmpp_stanza_get_child_by_ns(stanza, XMPP_NS_STANZAS_IETF);
-        if (!failed_cause)
-            goto err_sm;
+        if (failed_cause)
+            cause = xmpp_stanza_get_name(failed_cause);
 
-        cause = xmpp_stanza_get_name(failed_cause);
-        if (!cause)
-            goto err_sm;
+        if (xmpp_stanza_to_text(stanza, &buf, &buflen) == XMPP_EOK) {
+            strophe_warn(conn->ctx, "xmpp",
+                         "SM error: Stanza received was: %s", buf);
+            strophe_free(conn->ctx, buf);
+        }
 
-        if (!strcmp(cause, "item-not-found")) {
-            if (conn->sm_state->resume) {
-                /* It's no error if there's no `h` attribute included
-                 * but if there is, it gives a hint at what the server
-                 * already received.
-                 */
-                if (!_get_h_attribute(stanza, &ul_h)) {
-                    /* In cases there's no `h` included, drop all elements. */
-                    ul_h = (unsigned long)-1;
-                }
-                _sm_queue_cleanup(conn, ul_h);
-            }
-        } else if (!strcmp(cause, "feature-not-implemented")) {
-            conn->sm_state->resume = 0;
-            conn->sm_state->can_resume = 0;
+        if (!sm->resume) {
+            _sm_unavailable(conn);
+            goto out;
+        }
+
+        sm->resume = 0;
+        sm->can_resume = 0;
+        if (cause && strcmp(cause, "feature-not-implemented") == 0) {
             /* remember that the server reports having support
              * for resumption, but actually it doesn't ...
              */
-            conn->sm_state->dont_request_resume = 1;
+            sm->dont_request_resume = 1;
+        }
+        /* It's no error if there's no `h` attribute included
+         * but if there is, it gives a hint at what the server
+         * already received.
+         */
+        if (xmpp_stanza_get_attribute(stanza, "h") &&
+            !_get_h_attribute(stanza, &h))
+            sm_queue_cleanup(conn, h);
+
+        bind = sm->bind;
+        sm->bind = NULL;
+        reset_sm_state(sm);
+        if (!bind) {
+            strophe_error(conn->ctx, "xmpp",
+                          "Stream features does not allow "
+                          "resource bind.");
+            xmpp_disconnect(conn);
+            goto out;
         }
-        bind = conn->sm_state->bind;
-        conn->sm_state->bind = NULL;
-        reset_sm_state(conn->sm_state);
         _do_bind(conn, bind);
     } else {
-        /* unknown stanza received */
-        name = NULL;
+        /* unexpected element received */
+        goto err_sm;
     }
 
+out:
     trigger_sm_callback(conn);
+    return 0;
 
 err_sm:
-    if (!name) {
-        char *err = "Couldn't convert stanza to text!";
-        char *buf;
-        size_t buflen;
-        switch (xmpp_stanza_to_text(stanza, &buf, &buflen)) {
-        case XMPP_EOK:
-            break;
-        case XMPP_EMEM:
-            disconnect_mem_error(conn);
-            return 0;
-        default:
-            buf = err;
-            break;
-        }
+    if (xmpp_stanza_to_text(stanza, &buf, &buflen) == XMPP_EOK) {
         strophe_warn(conn->ctx, "xmpp", "SM error: Stanza received was: %s",
                      buf);
-        if (buf != err)
-            strophe_free(conn->ctx, buf);
-        /* Don't disable for <failure> cases, they're no hard errors */
-        conn->sm_state->sm_enabled = bind != NULL;
+        strophe_free(conn->ctx, buf);
     }
+    sm->sm_enabled = 0;
+    xmpp_disconnect(conn);
     return 0;
 }
 
diff --git a/src/common.h b/src/common.h
index c851586..15b7b3a 100644
--- a/src/common.h
+++ b/src/common.h
@@ -392,6 +392,8 @@ void handler_system_delete_all(xmpp_conn_t *conn);
 
 /* utility functions */
 void trigger_sm_callback(xmpp_conn_t *conn);
+int sm_parse_h(const char *str, uint32_t *h);
+void sm_queue_cleanup(xmpp_conn_t *conn, uint32_t h);
 void reset_sm_state(xmpp_sm_state_t *sm_state);
 void disconnect_mem_error(xmpp_conn_t *conn);
 
diff --git a/src/conn.c b/src/conn.c
index a50236b..a85b397 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1619,21 +1619,19 @@ static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
 {
     xmpp_sm_state_t *s = conn->sm_state;
 
-    if (s->previd) {
-        strophe_free(conn->ctx, s->previd);
-        s->previd = NULL;
-    }
-
-    if (s->can_resume) {
+    if (!s->can_resume) {
+        strophe_free_and_null(conn->ctx, s->previd);
+        strophe_free_and_null(conn->ctx, s->id);
+        strophe_free_and_null(conn->ctx, s->bound_jid);
+    } else if (s->id) {
+        strophe_free_and_null(conn->ctx, s->previd);
         s->previd = s->id;
         s->id = NULL;
 
+        strophe_free_and_null(conn->ctx, s->bound_jid);
         s->bound_jid = conn->bound_jid;
         conn->bound_jid = NULL;
-    } else if (s->id) {
-        strophe_free(conn->ctx, s->id);
-        s->id = NULL;
-    }
+    } /* else there was no chance yet to resume the previous session */
 
     s->r_sent = s->sm_enabled = s->sm_support = s->resume = 0;
 
@@ -2057,7 +2055,8 @@ static void _handle_stream_end(char *name, void *userdata)
     /* stream is over */
     strophe_debug(conn->ctx, "xmpp", "RECV: </stream:stream>");
     /* the session has been terminated properly, i.e. it can't be resumed */
-    conn->sm_state->can_resume = 0;
+    if (conn->sm_state->sm_enabled)
+        conn->sm_state->can_resume = 0;
     trigger_sm_callback(conn);
     conn_disconnect_clean(conn);
 }
@@ -2087,18 +2086,48 @@ static void _handle_stream_stanza(xmpp_stanza_t *stanza, void *userdata)
         _conn_sm_handle_stanza(conn, stanza);
 }
 
+/* The value of a `h` attribute, a counter that wraps at 2^32 */
+int sm_parse_h(const char *str, uint32_t *h)
+{
+    uint64_t val = 0;
+    const char *c;
+
+    for (c = str; *c >= '0' && *c <= '9' && val <= UINT32_MAX; ++c)
+        val = val * 10 + (uint64_t)(*c - '0');
+    if (c == str || *c != '\0' || val > UINT32_MAX)
+        return -1;
+    *h = (uint32_t)val;
+    return 0;
+}
+
+/* Drop the elements that have been handled by the server */
+void sm_queue_cleanup(xmpp_conn_t *conn, uint32_t h)
+{
+    xmpp_send_queue_t *e;
+
+    /* the counters wrap around, so compare their distance */
+    while ((e = peek_queue_front(&conn->sm_state->sm_queue)) &&
+           (int32_t)(e->sm_h - h) < 0) {
+        e = pop_queue_front(&conn->sm_state->sm_queue);
+        strophe_debug_verbose(2, conn->ctx, "conn", "SM_Q_DROP: %p, h=%lu", e,
+                              e->sm_h);
+        strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
+    }
+}
+
 /* XEP-0198 stream management */
 static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                                    xmpp_stanza_t *stanza)
 {
     xmpp_stanza_t *a;
-    xmpp_send_queue_t *e;
-    char *c;
     const char *name, *ns, *attr_h;
     char h[11];
-    unsigned long ul_h;
+    uint32_t ack_h;
 
     ns = xmpp_stanza_get_ns(stanza);
+    /* stream errors and the like aren't stanzas */
+    if (ns && strcmp(ns, XMPP_NS_STREAMS) == 0)
+        return;
     if (ns && strcmp(ns, XMPP_NS_SM) != 0)
         ++conn->sm_state->sm_handled_nr;
     else {
@@ -2122,23 +2151,11 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                 strophe_debug(conn->ctx, "conn", "Didn't find 'h' attribute.");
                 return;
             }
-            if (string_to_ul(attr_h, &ul_h)) {
-                strophe_error(
-                    conn->ctx, "conn",
-                    "Error on strtoul() of '%s', returned value is %llu.",
-                    attr_h, ul_h);
-                /* We continue here and drop the complete SM queue instead of
-                 * returning and letting the queue fill up.
-                 */
-                ul_h = ULONG_MAX;
-            }
-            while (conn->sm_state->sm_queue.head &&
-                   conn->sm_state->sm_queue.head->sm_h < ul_h) {
-                e = pop_queue_front(&conn->sm_state->sm_queue);
-                strophe_debug_verbose(2, conn->ctx, "conn",
-                                      "SM_Q_DROP: %p, h=%lu", e, e->sm_h);
-                c = queue_element_free(conn->ctx, e);
-                strophe_free(conn->ctx, c);
+            if (sm_parse_h(attr_h, &ack_h)) {
+                strophe_error(conn->ctx, "conn", "Invalid 'h' attribute '%s'.",
+                              attr_h);
+            } else {
+                sm_queue_cleanup(conn, ack_h);
             }
             conn->sm_state->r_sent = 0;
         }
@@ -2244,6 +2261,8 @@ static int _conn_connect(xmpp_conn_t *conn,
     }
 
     _conn_reset(conn);
+    /* the state could have been restored */
+    _reset_sm_state_for_reconnect(conn);
 
     conn->type = type;
     conn->domain = strophe_strdup(conn->ctx, domain);
-- 
2.43.0


From a88c6f3aa0ee9aa99e05b47871fa514a574183fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:32 +0000
Subject: [PATCH 22/34] fix: refuse invalid SM state blobs cleanly and link the
 restored send queue

---
 src/conn.c | 78 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index a85b397..a23dcfc 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -102,6 +102,7 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                                    xmpp_stanza_t *stanza);
 static unsigned short _conn_default_port(xmpp_conn_t *conn,
                                          xmpp_conn_type_t type);
+static void _send_queue_free(xmpp_conn_t *conn);
 static void _conn_reset(xmpp_conn_t *conn);
 static int _connect_client(xmpp_conn_t *conn,
                            const char *altdomain,
@@ -1317,6 +1318,11 @@ struct sm_restore {
 
 static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
 {
+    if (sm->state_end - sm->state < 5) {
+        strophe_error(sm->conn->ctx, "conn",
+                      "Provided sm_state data is too short");
+        return XMPP_EINVOP;
+    }
     if (*sm->state != type) {
         strophe_error(
             sm->conn->ctx, "conn",
@@ -1325,11 +1331,6 @@ static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
         return XMPP_EINVOP;
     }
     sm->state++;
-    if ((sm->state + 4) > sm->state_end) {
-        strophe_error(sm->conn->ctx, "conn",
-                      "Provided sm_state data is too short");
-        return XMPP_EINVOP;
-    }
     uint32_t v;
     memcpy(&v, sm->state, 4);
     sm->state += 4;
@@ -1343,12 +1344,12 @@ static int sm_load_string(struct sm_restore *sm, char **val, size_t *len)
     int ret = sm_load_u32(sm, 0x7a, &l);
     if (ret)
         return ret;
-    if ((sm->state + l) > sm->state_end) {
+    if ((size_t)(sm->state_end - sm->state) < l) {
         strophe_error(sm->conn->ctx, "conn",
                       "Provided sm_state data is too short");
         return XMPP_EINVOP;
     }
-    *val = strophe_alloc(sm->conn->ctx, l + 1);
+    *val = strophe_alloc(sm->conn->ctx, (size_t)l + 1);
     if (!*val)
         return XMPP_EMEM;
     memcpy(*val, sm->state, l);
@@ -1424,6 +1425,8 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     conn->sm_state->resume = 1;
 
     int ret;
+    xmpp_queue_t send_queue = {NULL, NULL};
+    xmpp_send_queue_t *sq;
     ret = sm_load_u32(&sm, 0x1a, &conn->sm_state->sm_sent_nr);
     if (ret)
         goto err_reload;
@@ -1437,12 +1440,11 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     if (ret)
         goto err_reload;
 
-    uint32_t len, i;
-    ret = sm_load_u32(&sm, 0x9a, &len);
+    uint32_t len, send_queue_len, i;
+    ret = sm_load_u32(&sm, 0x9a, &send_queue_len);
     if (ret)
         goto err_reload;
-    conn->send_queue_user_len = conn->send_queue_len = len;
-    for (i = 0; i < len; i++) {
+    for (i = 0; i < send_queue_len; i++) {
         xmpp_send_queue_t *item = strophe_alloc(conn->ctx, sizeof(*item));
         if (!item) {
             ret = XMPP_EMEM;
@@ -1450,13 +1452,7 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
         }
         memset(item, 0, sizeof(*item));
 
-        if (!conn->send_queue_tail) {
-            conn->send_queue_head = item;
-            conn->send_queue_tail = item;
-        } else {
-            conn->send_queue_tail->next = item;
-            conn->send_queue_tail = item;
-        }
+        add_queue_back(&send_queue, item);
 
         ret = sm_load_string(&sm, &item->data, &item->len);
         if (ret)
@@ -1488,10 +1484,25 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
         item->owner = XMPP_QUEUE_USER;
     }
 
+    if (sm.state != sm.state_end) {
+        strophe_error(conn->ctx, "conn", "Provided sm_state data is too long");
+        ret = XMPP_EINVOP;
+        goto err_reload;
+    }
+
+    /* replaces what could be left of a previous connection */
+    _send_queue_free(conn);
+    conn->send_queue_head = send_queue.head;
+    conn->send_queue_tail = send_queue.tail;
+    conn->send_queue_user_len = conn->send_queue_len = send_queue_len;
+
     return XMPP_EOK;
 
 err_reload:
+    while ((sq = pop_queue_front(&send_queue)))
+        strophe_free(conn->ctx, queue_element_free(conn->ctx, sq));
     xmpp_free_sm_state(conn->sm_state);
+    conn->sm_state = NULL;
     return ret;
 }
 
@@ -1600,7 +1611,8 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 
 err_serialize:
     strophe_error(conn->ctx, "conn", "Can't serialize more data, buffer full");
-    strophe_free(conn->ctx, buf);
+    strophe_free(conn->ctx, *buf);
+    *buf = NULL;
     return 0;
 }
 
@@ -2187,10 +2199,25 @@ char *queue_element_free(xmpp_ctx_t *ctx, xmpp_send_queue_t *e)
     return ret;
 }
 
+static void _send_queue_free(xmpp_conn_t *conn)
+{
+    xmpp_send_queue_t *sq, *tsq;
+
+    sq = conn->send_queue_head;
+    while (sq) {
+        tsq = sq;
+        sq = sq->next;
+        strophe_free(conn->ctx, queue_element_free(conn->ctx, tsq));
+    }
+    conn->send_queue_head = NULL;
+    conn->send_queue_tail = NULL;
+    conn->send_queue_len = 0;
+    conn->send_queue_user_len = 0;
+}
+
 static void _conn_reset(xmpp_conn_t *conn)
 {
     xmpp_ctx_t *ctx = conn->ctx;
-    xmpp_send_queue_t *sq, *tsq;
 
     if (conn->state != XMPP_STATE_DISCONNECTED) {
         strophe_debug(ctx, "conn", "Can't reset connected object.");
@@ -2203,16 +2230,7 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->intf.conn = conn;
 
     /* free queued */
-    sq = conn->send_queue_head;
-    while (sq) {
-        tsq = sq;
-        sq = sq->next;
-        strophe_free(ctx, queue_element_free(ctx, tsq));
-    }
-    conn->send_queue_head = NULL;
-    conn->send_queue_tail = NULL;
-    conn->send_queue_len = 0;
-    conn->send_queue_user_len = 0;
+    _send_queue_free(conn);
 
     if (conn->stream_error) {
         xmpp_stanza_release(conn->stream_error->stanza);
-- 
2.43.0


From 83eddfe8c4fa8ff0ed71bba56903ea27c3facb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:43 +0000
Subject: [PATCH 23/34] fix: send exactly the given raw bytes

---
 src/conn.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index a23dcfc..7a985a7 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2323,11 +2323,14 @@ void send_raw(xmpp_conn_t *conn,
     if (conn->state != XMPP_STATE_CONNECTED)
         return;
 
-    d = strophe_strndup(conn->ctx, data, len);
+    /* the data is neither necessarily terminated, nor free of NUL */
+    d = strophe_alloc(conn->ctx, len + 1);
     if (!d) {
-        strophe_error(conn->ctx, "conn", "Failed to strndup");
+        strophe_error(conn->ctx, "conn", "Failed to allocate memory");
         return;
     }
+    memcpy(d, data, len);
+    d[len] = '\0';
 
     _send_raw(conn, d, len, owner, userdata);
 }
-- 
2.43.0


From 56f176cc001ae648b8328bacecaed356fc710fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:43 +0000
Subject: [PATCH 24/34] fix: don't replace an existing TLS session of a
 connection

---
 src/conn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 7a985a7..aaf55b7 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1115,8 +1115,11 @@ int conn_tls_start(xmpp_conn_t *conn)
 {
     int rc;
 
+    /* there's either no connection or it's secured already */
+    if (conn->state != XMPP_STATE_CONNECTED || conn->tls)
+        return XMPP_EINVOP;
+
     if (conn->tls_disabled) {
-        conn->tls = NULL;
         rc = XMPP_EINVOP;
     } else {
         conn->tls = tls_new(conn);
-- 
2.43.0


From ded3682e5f994431e84b323d1a8536bcbadc9656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:43 +0000
Subject: [PATCH 25/34] fix: try all SRV targets even if some can't be resolved

---
 src/sock.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sock.c b/src/sock.c
index 90b0431..6418152 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -212,10 +212,10 @@ sock_t sock_connect(xmpp_sock_t *xsock)
     char buf[64];
 
     do {
-        if (!xsock->ainfo_cur) {
+        /* A target that can't be resolved doesn't end the search. */
+        while (!xsock->ainfo_cur && xsock->srv_rr_cur) {
             sock_getaddrinfo(xsock);
-            if (xsock->srv_rr_cur)
-                xsock->srv_rr_cur = xsock->srv_rr_cur->next;
+            xsock->srv_rr_cur = xsock->srv_rr_cur->next;
         }
         if (!xsock->ainfo_cur) {
             /* We tried all available addresses. */
-- 
2.43.0


From f0e80e212fac9eb833445ffc89d07f38117cf534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:43 +0000
Subject: [PATCH 26/34] fix: answer DIGEST-MD5 challenges as RFC 2831 demands

Select the qop instead of echoing the list of the server, respect the
charset, escape quoted strings, and refuse challenges that are empty or have
no nonce.
---
 src/auth.c |   6 ++-
 src/sasl.c | 124 +++++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 110 insertions(+), 20 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 3a91d5d..3ba2877 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -397,12 +397,16 @@ static int _handle_digestmd5_challenge(xmpp_conn_t *conn,
 
     if (strcmp(name, "challenge") == 0) {
         text = xmpp_stanza_get_text(stanza);
+        if (!text) {
+            disconnect_mem_error(conn);
+            return 0;
+        }
         response = sasl_digest_md5(conn->ctx, text, conn->jid, conn->pass);
+        strophe_free(conn->ctx, text);
         if (!response) {
             disconnect_mem_error(conn);
             return 0;
         }
-        strophe_free(conn->ctx, text);
 
         auth = xmpp_stanza_new(conn->ctx);
         if (!auth) {
diff --git a/src/sasl.c b/src/sasl.c
index a280a7f..54d6dbd 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -25,6 +25,11 @@
 #include "scram.h"
 #include "util.h"
 
+#ifdef _MSC_VER
+#define strcasecmp _stricmp
+#define strncasecmp _strnicmp
+#endif
+
 /* strtok_s() has appeared in visual studio 2005.
    Use own implementation for older versions. */
 #ifdef _MSC_VER
@@ -77,22 +82,84 @@ static char *_make_string(xmpp_ctx_t *ctx, const char *s, unsigned len)
     return result;
 }
 
+/* create a new, null-terminated string from the content of a quoted string */
+static char *_make_unquoted(xmpp_ctx_t *ctx, const char *s, unsigned len)
+{
+    char *result, *c;
+    unsigned i;
+
+    result = c = strophe_alloc(ctx, len + 1);
+    if (result != NULL) {
+        for (i = 0; i < len; i++) {
+            if (s[i] == '\\' && i + 1 < len)
+                i++;
+            *c++ = s[i];
+        }
+        *c = '\0';
+    }
+    return result;
+}
+
 /* create a new, null-terminated string quoting another string */
 static char *_make_quoted(xmpp_ctx_t *ctx, const char *s)
 {
-    char *result;
-    size_t len = strlen(s);
+    char *result, *c;
 
-    result = strophe_alloc(ctx, len + 3);
+    result = c = strophe_alloc(ctx, 2 * strlen(s) + 3);
     if (result != NULL) {
-        result[0] = '"';
-        memcpy(result + 1, s, len);
-        result[len + 1] = '"';
-        result[len + 2] = '\0';
+        *c++ = '"';
+        for (; *s; s++) {
+            if (*s == '"' || *s == '\\')
+                *c++ = '\\';
+            *c++ = *s;
+        }
+        *c++ = '"';
+        *c = '\0';
+    }
+    return result;
+}
+
+/* create a new, null-terminated ISO 8859-1 version of an UTF-8 string, or a
+ * plain copy if it contains anything that doesn't exist in this charset */
+static char *_make_latin1(xmpp_ctx_t *ctx, const char *s)
+{
+    const unsigned char *u = (const unsigned char *)s;
+    char *result, *c;
+
+    result = c = strophe_alloc(ctx, strlen(s) + 1);
+    if (result == NULL)
+        return NULL;
+
+    while (*u) {
+        if (*u < 0x80) {
+            *c++ = (char)*u++;
+        } else if ((*u == 0xc2 || *u == 0xc3) && (u[1] & 0xc0) == 0x80) {
+            *c++ = (char)((*u & 0x03) << 6 | (u[1] & 0x3f));
+            u += 2;
+        } else {
+            strcpy(result, s);
+            return result;
+        }
     }
+    *c = '\0';
     return result;
 }
 
+/* check whether a comma separated list contains the value */
+static int _list_contains(const char *list, const char *value)
+{
+    size_t len, value_len = strlen(value);
+
+    while (*list) {
+        list += strspn(list, ", \t");
+        len = strcspn(list, ", \t");
+        if (len == value_len && strncasecmp(list, value, len) == 0)
+            return 1;
+        list += len;
+    }
+    return 0;
+}
+
 /* split key, value pairs into a hash */
 static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
 {
@@ -129,9 +196,12 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
             /* if we see quotes, grab the string in between */
             if ((*s == '\'') || (*s == '"')) {
                 t++;
-                while ((*t != *s) && (*t != '\0'))
+                while ((*t != *s) && (*t != '\0')) {
+                    if (*t == '\\' && t[1] != '\0')
+                        t++;
                     t++;
-                value = _make_string(ctx, (char *)s + 1, (t - s - 1));
+                }
+                value = _make_unquoted(ctx, (char *)s + 1, (t - s - 1));
                 if (*t == *s) {
                     s = t + 1;
                 } else {
@@ -234,6 +304,8 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     hash_t *table;
     char *result = NULL;
     char *node, *domain, *realm;
+    char *node_latin1, *password_latin1;
+    int utf8;
     char *value;
     char *response;
     struct MD5Context MD5;
@@ -259,8 +331,24 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
         return NULL;
     }
 
+    /* there must be a nonce and "auth" is the only qop we support, it's the
+       default if the server doesn't tell */
+    value = hash_get(table, "qop");
+    if (!hash_get(table, "nonce") || (value && !_list_contains(value, "auth"))) {
+        strophe_error(ctx, "SASL", "unsupported digest challenge");
+        hash_release(table);
+        return NULL;
+    }
+    hash_add(table, "qop", strophe_strdup(ctx, "auth"));
+    value = hash_get(table, "charset");
+    utf8 = value && strcasecmp(value, "utf-8") == 0;
+
     node = xmpp_jid_node(ctx, jid);
     domain = xmpp_jid_domain(ctx, jid);
+    /* RFC 2831 wants ISO 8859-1 to be hashed if possible, and to be sent if
+       the server doesn't support UTF-8 */
+    node_latin1 = _make_latin1(ctx, node);
+    password_latin1 = _make_latin1(ctx, password);
 
     /* generate default realm of domain if one didn't come from the
        server */
@@ -271,12 +359,11 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     }
 
     /* add our response fields */
-    hash_add(table, "username", strophe_strdup(ctx, node));
+    hash_add(table, "username",
+             strophe_strdup(ctx, utf8 ? node : node_latin1));
     xmpp_rand_nonce(ctx->rand, cnonce, sizeof(cnonce));
     hash_add(table, "cnonce", strophe_strdup(ctx, cnonce));
     hash_add(table, "nc", strophe_strdup(ctx, "00000001"));
-    if (hash_get(table, "qop") == NULL)
-        hash_add(table, "qop", strophe_strdup(ctx, "auth"));
     value = strophe_alloc(ctx, 5 + strlen(domain) + 1);
     memcpy(value, "xmpp/", 5);
     memcpy(value + 5, domain, strlen(domain));
@@ -287,11 +374,11 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
 
     /* construct MD5(node : realm : password) */
     MD5Init(&MD5);
-    MD5Update(&MD5, (unsigned char *)node, strlen(node));
+    MD5Update(&MD5, (unsigned char *)node_latin1, strlen(node_latin1));
     MD5Update(&MD5, (unsigned char *)":", 1);
     MD5Update(&MD5, (unsigned char *)realm, strlen(realm));
     MD5Update(&MD5, (unsigned char *)":", 1);
-    MD5Update(&MD5, (unsigned char *)password, strlen(password));
+    MD5Update(&MD5, (unsigned char *)password_latin1, strlen(password_latin1));
     MD5Final(digest, &MD5);
 
     /* digest now contains the first field of A1 */
@@ -314,10 +401,6 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     MD5Update(&MD5, (unsigned char *)"AUTHENTICATE:", 13);
     value = hash_get(table, "digest-uri");
     MD5Update(&MD5, (unsigned char *)value, strlen(value));
-    if (strcmp(hash_get(table, "qop"), "auth") != 0) {
-        MD5Update(&MD5, (unsigned char *)":00000000000000000000000000000000",
-                  33);
-    }
     MD5Final(digest, &MD5);
 
     memcpy(HA2, digest, 16);
@@ -359,9 +442,12 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     result = _add_key(ctx, table, "qop", result, 0);
     result = _add_key(ctx, table, "digest-uri", result, 1);
     result = _add_key(ctx, table, "response", result, 0);
-    result = _add_key(ctx, table, "charset", result, 0);
+    if (utf8)
+        result = _add_key(ctx, table, "charset", result, 0);
 
     strophe_free(ctx, node);
+    strophe_free(ctx, node_latin1);
+    strophe_free(ctx, password_latin1);
     strophe_free(ctx, domain);
     hash_release(table); /* also frees value strings */
 
-- 
2.43.0


From ae29e10f098f94201d0d7aa44aea79e23d765be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 27/34] fix: follow RFC 5802 for every SCRAM username and
 challenge

Escape the username, verify the nonce and the iteration count, accept salts
of any length, don't claim that the server has no channel binding when it
offered some, and free the state when the connection is closed meanwhile.
---
 src/auth.c   | 60 +++++++++++++++++++++++++++++++++++++++-------------
 src/common.h |  3 +++
 src/conn.c   |  2 ++
 src/sasl.c   | 20 ++++++++++++++++++
 src/scram.c  | 37 ++++++++++++++++++++------------
 5 files changed, 93 insertions(+), 29 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 3ba2877..9755ca6 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -89,7 +89,6 @@ static int _handle_digestmd5_rspauth(xmpp_conn_t *conn,
 static int _handle_scram_challenge(xmpp_conn_t *conn,
                                    xmpp_stanza_t *stanza,
                                    void *userdata);
-struct scram_user_data;
 static int _make_scram_init_msg(struct scram_user_data *scram);
 
 static int _handle_missing_features_sasl(xmpp_conn_t *conn, void *userdata);
@@ -256,6 +255,8 @@ static void _handle_sasl_children(xmpp_conn_t *conn, const char *text)
         for (n = 0; n < scram_algs_num; ++n) {
             if (strcasecmp(text, scram_algs[n]->scram_name) == 0) {
                 conn->sasl_support |= scram_algs[n]->mask;
+                if (scram_algs[n]->mask & SASL_MASK_SCRAM_PLUS)
+                    conn->sasl_plus = 1;
                 break;
             }
         }
@@ -480,6 +481,23 @@ struct scram_user_data {
     const struct hash_alg *alg;
 };
 
+static void _scram_free(xmpp_conn_t *conn, struct scram_user_data *scram)
+{
+    if (!scram)
+        return;
+    if (conn->scram == scram)
+        conn->scram = NULL;
+    strophe_free_and_null(conn->ctx, scram->channel_binding);
+    strophe_free_and_null(conn->ctx, scram->scram_init);
+    strophe_free(conn->ctx, scram);
+}
+
+/* the connection could have been closed in the middle of the authentication */
+void auth_scram_free(xmpp_conn_t *conn)
+{
+    _scram_free(conn, conn->scram);
+}
+
 /* handle the challenge phase of SCRAM-SHA-1 auth */
 static int _handle_scram_challenge(xmpp_conn_t *conn,
                                    xmpp_stanza_t *stanza,
@@ -544,9 +562,7 @@ static int _handle_scram_challenge(xmpp_conn_t *conn,
          */
         rc = _handle_sasl_result(conn, stanza,
                                  (void *)scram_ctx->alg->scram_name);
-        strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-        strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-        strophe_free(conn->ctx, scram_ctx);
+        _scram_free(conn, scram_ctx);
     }
 
     return rc;
@@ -556,9 +572,7 @@ err_release_auth:
 err_free_response:
     strophe_free(conn->ctx, response);
 err:
-    strophe_free_and_null(conn->ctx, scram_ctx->channel_binding);
-    strophe_free_and_null(conn->ctx, scram_ctx->scram_init);
-    strophe_free(conn->ctx, scram_ctx);
+    _scram_free(conn, scram_ctx);
     disconnect_mem_error(conn);
     return 0;
 }
@@ -569,8 +583,8 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
     xmpp_ctx_t *ctx = conn->ctx;
     const void *binding_data;
     const char *binding_type;
-    char *node, *message;
-    size_t message_len, binding_type_len = 0, binding_data_len;
+    char *node, *message, *c;
+    size_t i, message_len, binding_type_len = 0, binding_data_len;
     int l, is_secured = xmpp_conn_is_secured(conn);
     /* This buffer must be able to hold:
      * "p=<10 bytes binding type>,,<36 bytes binding data>"
@@ -598,6 +612,22 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
     if (!node) {
         return -1;
     }
+    /* ',' and '=' must be sent as "=2C" and "=3D" */
+    message = c = strophe_alloc(ctx, 3 * strlen(node) + 1);
+    if (!message) {
+        goto err_node;
+    }
+    for (i = 0; node[i]; i++) {
+        if (node[i] == ',' || node[i] == '=') {
+            memcpy(c, node[i] == ',' ? "=2C" : "=3D", 3);
+            c += 3;
+        } else {
+            *c++ = node[i];
+        }
+    }
+    *c = '\0';
+    strophe_free(ctx, node);
+    node = message;
     /* 32 bytes nonce is enough */
     xmpp_rand_nonce(ctx->rand, buf, 33);
     message_len = strlen(node) + strlen(buf) + 8 + binding_type_len + 1;
@@ -614,7 +644,8 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
                              binding_type, node, buf);
     } else {
         l = strophe_snprintf(message, message_len, "%c,,n=%s,r=%s",
-                             is_secured ? 'y' : 'n', node, buf);
+                             is_secured && !conn->sasl_plus ? 'y' : 'n', node,
+                             buf);
     }
     if (l < 0 || (size_t)l >= message_len) {
         goto err_msg;
@@ -827,11 +858,12 @@ static void _auth(xmpp_conn_t *conn)
             return;
         }
 
+        conn->scram = scram_ctx;
         scram_ctx->conn = conn;
         scram_ctx->sasl_plus =
             scram_ctx->alg->mask & SASL_MASK_SCRAM_PLUS ? 1 : 0;
         if (_make_scram_init_msg(scram_ctx)) {
-            strophe_free(conn->ctx, scram_ctx);
+            _scram_free(conn, scram_ctx);
             xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
@@ -841,8 +873,7 @@ static void _auth(xmpp_conn_t *conn)
                                  (unsigned char *)scram_ctx->scram_init,
                                  strlen(scram_ctx->scram_init));
         if (!str) {
-            strophe_free(conn->ctx, scram_ctx->scram_init);
-            strophe_free(conn->ctx, scram_ctx);
+            _scram_free(conn, scram_ctx);
             xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
@@ -851,8 +882,7 @@ static void _auth(xmpp_conn_t *conn)
         authdata = xmpp_stanza_new(conn->ctx);
         if (!authdata) {
             strophe_free(conn->ctx, str);
-            strophe_free(conn->ctx, scram_ctx->scram_init);
-            strophe_free(conn->ctx, scram_ctx);
+            _scram_free(conn, scram_ctx);
             xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
diff --git a/src/common.h b/src/common.h
index 15b7b3a..6d68abb 100644
--- a/src/common.h
+++ b/src/common.h
@@ -268,6 +268,8 @@ struct _xmpp_conn_t {
     char *tls_client_cert;
     char *tls_client_key;
     int tls_failed;   /* set when tls fails, so we don't try again */
+    int sasl_plus;    /* SCRAM-*-PLUS has been offered */
+    struct scram_user_data *scram; /* state of the SCRAM authentication */
     int sasl_support; /* if true, field is a bitfield of supported
                          mechanisms */
     int auth_legacy_enabled;
@@ -391,6 +393,7 @@ void handler_add(xmpp_conn_t *conn,
 void handler_system_delete_all(xmpp_conn_t *conn);
 
 /* utility functions */
+void auth_scram_free(xmpp_conn_t *conn);
 void trigger_sm_callback(xmpp_conn_t *conn);
 int sm_parse_h(const char *str, uint32_t *h);
 void sm_queue_cleanup(xmpp_conn_t *conn, uint32_t h);
diff --git a/src/conn.c b/src/conn.c
index aaf55b7..43b166e 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2252,6 +2252,8 @@ static void _conn_reset(xmpp_conn_t *conn)
 
     conn->tls_support = 0;
     conn->sasl_support = 0;
+    conn->sasl_plus = 0;
+    auth_scram_free(conn);
     conn->compression.supported = 0;
 
     conn->bind_required = 0;
diff --git a/src/sasl.c b/src/sasl.c
index 54d6dbd..1447f26 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -458,6 +458,14 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     return response;
 }
 
+#ifndef SCRAM_MAX_ITERATIONS
+/** @def SCRAM_MAX_ITERATIONS
+ *  The highest iteration count that is accepted, it limits the time a server
+ *  can make us spend for the computation of the response.
+ */
+#define SCRAM_MAX_ITERATIONS 10000000
+#endif
+
 /** generate auth response string for the SASL SCRAM mechanism */
 char *sasl_scram(xmpp_ctx_t *ctx,
                  const struct hash_alg *alg,
@@ -475,6 +483,7 @@ char *sasl_scram(xmpp_ctx_t *ctx,
     unsigned char *sval;
     size_t sval_len;
     long ival;
+    const char *nonce;
     char *tmp;
     char *ptr;
     char *saveptr = NULL;
@@ -510,11 +519,22 @@ char *sasl_scram(xmpp_ctx_t *ctx,
         goto out;
     }
 
+    /* the nonce must start with ours, otherwise it could be a replay */
+    nonce = strstr(first_bare, ",r=");
+    if (!nonce || strncmp(r, nonce + 1, strlen(nonce + 1)) != 0) {
+        strophe_error(ctx, "SASL", "invalid nonce in SCRAM challenge");
+        goto out;
+    }
+
     xmpp_base64_decode_bin(ctx, s, strlen(s), &sval, &sval_len);
     if (!sval) {
         goto out;
     }
     ival = strtol(i, &saveptr, 10);
+    if (*saveptr != '\0' || ival <= 0 || ival > SCRAM_MAX_ITERATIONS) {
+        strophe_error(ctx, "SASL", "invalid SCRAM iteration count '%s'", i);
+        goto out_sval;
+    }
 
     /* "c=<channel_binding>," + r + ",p=" + sign_b64 + '\0' */
     response_len = 3 + strlen(channel_binding) + strlen(r) + 3 +
diff --git a/src/scram.c b/src/scram.c
index 35a62db..2d030f6 100644
--- a/src/scram.c
+++ b/src/scram.c
@@ -121,12 +121,15 @@ union common_hash_ctx {
     sha512_context sha512;
 };
 
-static void crypto_HMAC(const struct hash_alg *alg,
-                        const uint8_t *key,
-                        size_t key_len,
-                        const uint8_t *text,
-                        size_t len,
-                        uint8_t *digest)
+/* HMAC of the concatenation of two texts */
+static void crypto_HMAC2(const struct hash_alg *alg,
+                         const uint8_t *key,
+                         size_t key_len,
+                         const uint8_t *text,
+                         size_t len,
+                         const uint8_t *text2,
+                         size_t len2,
+                         uint8_t *digest)
 {
     uint8_t key_pad[HMAC_BLOCK_SIZE_MAX];
     uint8_t key_ipad[HMAC_BLOCK_SIZE_MAX];
@@ -155,6 +158,8 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->init((void *)&ctx);
     alg->update((void *)&ctx, key_ipad, blocksize);
     alg->update((void *)&ctx, text, len);
+    if (len2)
+        alg->update((void *)&ctx, text2, len2);
     alg->final((void *)&ctx, sha_digest);
 
     alg->init((void *)&ctx);
@@ -163,6 +168,16 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->final((void *)&ctx, digest);
 }
 
+static void crypto_HMAC(const struct hash_alg *alg,
+                        const uint8_t *key,
+                        size_t key_len,
+                        const uint8_t *text,
+                        size_t len,
+                        uint8_t *digest)
+{
+    crypto_HMAC2(alg, key, key_len, text, len, NULL, 0, digest);
+}
+
 static void SCRAM_Hi(const struct hash_alg *alg,
                      const uint8_t *text,
                      size_t len,
@@ -173,23 +188,17 @@ static void SCRAM_Hi(const struct hash_alg *alg,
 {
     size_t k;
     uint32_t j;
-    uint8_t tmp[128];
+    uint8_t tmp[SCRAM_DIGEST_SIZE];
 
     static uint8_t int1[] = {0x0, 0x0, 0x0, 0x1};
 
-    /* assume salt + INT(1) isn't longer than sizeof(tmp) */
-    assert(salt_len <= sizeof(tmp) - sizeof(int1));
-
     memset(digest, 0, alg->digest_size);
     if (i == 0) {
         return;
     }
 
-    memcpy(tmp, salt, salt_len);
-    memcpy(&tmp[salt_len], int1, sizeof(int1));
-
     /* 'text' for Hi is a 'key' for HMAC */
-    crypto_HMAC(alg, text, len, tmp, salt_len + sizeof(int1), digest);
+    crypto_HMAC2(alg, text, len, salt, salt_len, int1, sizeof(int1), digest);
     memcpy(tmp, digest, alg->digest_size);
 
     for (j = 1; j < i; j++) {
-- 
2.43.0


From c9ece602f593991106092a4913447d4204a9fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 28/34] fix: don't scan the whole text for each piece of it
 that is received

expat reports e.g. each line break on its own, a text of line breaks took
quadratic time, most of it within a single event loop iteration.
---
 src/parser_expat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index c3a7581..91960e7 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -268,8 +268,9 @@ static void _characters(void *userdata, const XML_Char *s, int len)
         parser->inner_text = p;
         parser->inner_text[parser->inner_text_used] = '\0';
     }
+    memcpy(&parser->inner_text[parser->inner_text_used], s, len);
     parser->inner_text_used += len;
-    strncat(parser->inner_text, s, len);
+    parser->inner_text[parser->inner_text_used] = '\0';
 }
 
 parser_t *parser_new(xmpp_ctx_t *ctx,
-- 
2.43.0


From fd3bafbddcab85a1a6b1808449ac89039cb7a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:38 +0000
Subject: [PATCH 29/34] fix: don't crash on a stream error without children

---
 src/auth.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 9755ca6..a2b03b8 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -129,13 +129,9 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     conn->stream_error->type = XMPP_SE_UNDEFINED_CONDITION;
 
     if (conn->stream_error) {
-        child = xmpp_stanza_get_children(stanza);
-        do {
-            const char *ns = NULL;
-
-            if (child) {
-                ns = xmpp_stanza_get_ns(child);
-            }
+        for (child = xmpp_stanza_get_children(stanza); child;
+             child = xmpp_stanza_get_next(child)) {
+            const char *ns = xmpp_stanza_get_ns(child);
 
             if (ns && strcmp(ns, XMPP_NS_STREAMS_IETF) == 0) {
                 name = xmpp_stanza_get_name(child);
@@ -193,7 +189,7 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                          strcmp(name, "xml-not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
-        } while ((child = xmpp_stanza_get_next(child)));
+        }
 
         conn->stream_error->stanza = xmpp_stanza_clone(stanza);
     }
-- 
2.43.0


From 74b0297bbd240dc4ea03e790987984fcb96ef719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 30/34] fix: keep unacknowledged stanzas when the connection is
 lost while they're sent again

After a resumption the unacknowledged elements were moved to the send queue,
which is dropped when the connection breaks before they're written.
---
 src/auth.c   | 14 ++++++--
 src/common.h |  3 ++
 src/conn.c   | 94 ++++++++++++++++++++++++++++++++++++++--------------
 src/event.c  |  1 +
 4 files changed, 85 insertions(+), 27 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index a2b03b8..0a1fc2d 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1404,14 +1404,24 @@ static int _get_h_attribute(xmpp_stanza_t *stanza, uint32_t *h)
 static void _sm_queue_resend(xmpp_conn_t *conn)
 {
     xmpp_send_queue_t *e;
+    const char *req_ack = "<r xmlns='urn:xmpp:sm:3'/>";
+
+    if (!peek_queue_front(&conn->sm_state->sm_queue))
+        return;
+
     while ((e = pop_queue_front(&conn->sm_state->sm_queue))) {
         /* Re-send what was already sent out and is still in the
          * SM queue (i.e. it hasn't been ACK'ed by the server)
          */
         strophe_debug_verbose(2, conn->ctx, "conn", "SM_Q_RESEND: %p, h=%lu", e,
                               e->sm_h);
-        send_raw(conn, e->data, e->len, e->owner, NULL);
-        strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
+        e->userdata = NULL;
+        e->resend = 1;
+        send_queue_add(conn, e);
+    }
+    if (conn->sm_state->sm_enabled && !conn->sm_state->r_sent) {
+        conn->sm_state->r_sent = 1;
+        send_raw(conn, req_ack, strlen(req_ack), XMPP_QUEUE_SM_STROPHE, NULL);
     }
 }
 
diff --git a/src/common.h b/src/common.h
index 6d68abb..1a78e69 100644
--- a/src/common.h
+++ b/src/common.h
@@ -166,6 +166,8 @@ struct _xmpp_send_queue_t {
     xmpp_send_queue_owner_t owner;
     void *userdata;
     uint32_t sm_h;
+    /* has been sent before, and wasn't acknowledged */
+    int resend;
 
     xmpp_send_queue_t *prev, *next;
 };
@@ -407,6 +409,7 @@ void auth_handle_open_raw(xmpp_conn_t *conn);
 void auth_handle_open_stub(xmpp_conn_t *conn);
 
 /* queue functions */
+void send_queue_add(xmpp_conn_t *conn, xmpp_send_queue_t *item);
 void add_queue_back(xmpp_queue_t *queue, xmpp_send_queue_t *item);
 xmpp_send_queue_t *peek_queue_front(xmpp_queue_t *queue);
 xmpp_send_queue_t *pop_queue_front(xmpp_queue_t *queue);
diff --git a/src/conn.c b/src/conn.c
index 43b166e..9deeb9c 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -103,6 +103,7 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
 static unsigned short _conn_default_port(xmpp_conn_t *conn,
                                          xmpp_conn_type_t type);
 static void _send_queue_free(xmpp_conn_t *conn);
+static void _send_queue_unlink(xmpp_conn_t *conn, xmpp_send_queue_t *e);
 static void _conn_reset(xmpp_conn_t *conn);
 static int _connect_client(xmpp_conn_t *conn,
                            const char *altdomain,
@@ -1547,8 +1548,13 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
     size_t send_queue_size = 0;
     peek = conn->send_queue_head;
     while (peek) {
-        send_queue_len++;
-        send_queue_size += 5 + peek->len;
+        if (peek->resend) {
+            sm_queue_len++;
+            sm_queue_size += 10 + peek->len;
+        } else {
+            send_queue_len++;
+            send_queue_size += 5 + peek->len;
+        }
         peek = peek->next;
     }
 
@@ -1582,15 +1588,15 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
     if (sm_store_u32(&next, end, 0x9a, send_queue_len))
         goto err_serialize;
 
-    peek = conn->send_queue_head;
-    while (peek) {
+    for (peek = conn->send_queue_head; peek; peek = peek->next) {
+        if (peek->resend)
+            continue;
         if (sm_store_u32(&next, end, 0x7a, (uint32_t)peek->len))
             goto err_serialize;
         if (next + peek->len > end)
             goto err_serialize;
         memcpy(next, peek->data, peek->len);
         next += peek->len;
-        peek = peek->next;
     }
 
     if (sm_store_u32(&next, end, 0xba, sm_queue_len))
@@ -1610,6 +1616,21 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
         peek = peek->next;
     }
 
+    /* elements that are sent again are still not acknowledged */
+    uint32_t h = conn->sm_state->sm_sent_nr;
+    for (peek = conn->send_queue_head; peek; peek = peek->next) {
+        if (!peek->resend)
+            continue;
+        if (sm_store_u32(&next, end, 0x1a, h++))
+            goto err_serialize;
+        if (sm_store_u32(&next, end, 0x7a, (uint32_t)peek->len))
+            goto err_serialize;
+        if (next + peek->len > end)
+            goto err_serialize;
+        memcpy(next, peek->data, peek->len);
+        next += peek->len;
+    }
+
     return buf_size;
 
 err_serialize:
@@ -1633,6 +1654,18 @@ void trigger_sm_callback(xmpp_conn_t *conn)
 static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
 {
     xmpp_sm_state_t *s = conn->sm_state;
+    xmpp_send_queue_t *e, *next;
+
+    /* What couldn't be sent again is still not acknowledged */
+    for (e = conn->send_queue_head; e; e = next) {
+        next = e->next;
+        if (e->resend) {
+            _send_queue_unlink(conn, e);
+            e->resend = 0;
+            e->sm_h = s->sm_sent_nr++;
+            add_queue_back(&s->sm_queue, e);
+        }
+    }
 
     if (!s->can_resume) {
         strophe_free_and_null(conn->ctx, s->previd);
@@ -1776,7 +1809,7 @@ int xmpp_conn_send_queue_len(const xmpp_conn_t *conn)
         return conn->send_queue_user_len;
 }
 
-static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
+static void _send_queue_unlink(xmpp_conn_t *conn, xmpp_send_queue_t *e)
 {
     if (e == conn->send_queue_head)
         conn->send_queue_head = e->next;
@@ -1791,6 +1824,11 @@ static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
     conn->send_queue_len--;
     if (e->owner == XMPP_QUEUE_USER)
         conn->send_queue_user_len--;
+}
+
+static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
+{
+    _send_queue_unlink(conn, e);
     return queue_element_free(conn->ctx, e);
 }
 
@@ -2445,6 +2483,29 @@ xmpp_send_queue_t *pop_queue_front(xmpp_queue_t *queue)
     return ret;
 }
 
+void send_queue_add(xmpp_conn_t *conn, xmpp_send_queue_t *item)
+{
+    item->next = NULL;
+    item->prev = conn->send_queue_tail;
+    item->written = 0;
+    item->wip = 0;
+
+    if (!conn->send_queue_tail) {
+        /* first item, set head and tail */
+        conn->send_queue_head = item;
+        conn->send_queue_tail = item;
+    } else {
+        /* add to the tail */
+        conn->send_queue_tail->next = item;
+        conn->send_queue_tail = item;
+    }
+    conn->send_queue_len++;
+    if (item->owner == XMPP_QUEUE_USER)
+        conn->send_queue_user_len++;
+    strophe_debug_verbose(3, conn->ctx, "conn", "QUEUED: %s", item->data);
+    strophe_debug_verbose(1, conn->ctx, "conn", "Q_ADD: %p", item);
+}
+
 static int _send_raw(xmpp_conn_t *conn,
                      char *data,
                      size_t len,
@@ -2464,27 +2525,10 @@ static int _send_raw(xmpp_conn_t *conn,
 
     item->data = data;
     item->len = len;
-    item->next = NULL;
-    item->prev = conn->send_queue_tail;
-    item->written = 0;
-    item->wip = 0;
     item->userdata = userdata;
     item->owner = owner;
-
-    if (!conn->send_queue_tail) {
-        /* first item, set head and tail */
-        conn->send_queue_head = item;
-        conn->send_queue_tail = item;
-    } else {
-        /* add to the tail */
-        conn->send_queue_tail->next = item;
-        conn->send_queue_tail = item;
-    }
-    conn->send_queue_len++;
-    if (owner == XMPP_QUEUE_USER)
-        conn->send_queue_user_len++;
-    strophe_debug_verbose(3, conn->ctx, "conn", "QUEUED: %s", data);
-    strophe_debug_verbose(1, conn->ctx, "conn", "Q_ADD: %p", item);
+    item->resend = 0;
+    send_queue_add(conn, item);
     if (!(owner & XMPP_QUEUE_SM) && conn->sm_state->sm_enabled &&
         !conn->sm_state->r_sent) {
         conn->sm_state->r_sent = 1;
diff --git a/src/event.c b/src/event.c
index 80fb09d..eb20dec 100644
--- a/src/event.c
+++ b/src/event.c
@@ -157,6 +157,7 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             if (tsq->owner & XMPP_QUEUE_USER)
                 conn->send_queue_user_len--;
             if (!(tsq->owner & XMPP_QUEUE_SM) && conn->sm_state->sm_enabled) {
+                tsq->resend = 0;
                 tsq->sm_h = conn->sm_state->sm_sent_nr;
                 conn->sm_state->sm_sent_nr++;
                 strophe_debug_verbose(1, ctx, "xmpp", "SM_Q_MOVE: %p, h=%lu",
-- 
2.43.0


From 13af4a7d2af843157272173403b26f3f55c49660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 31/34] fix: don't read a value after freeing it when an
 object's own value is set again

---
 src/conn.c   | 26 ++++++++++++++++++--------
 src/stanza.c | 29 +++++++++++++++++++----------
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 9deeb9c..eb3eb40 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -420,9 +420,12 @@ const char *xmpp_conn_get_bound_jid(const xmpp_conn_t *conn)
  */
 void xmpp_conn_set_jid(xmpp_conn_t *conn, const char *jid)
 {
-    if (conn->jid)
-        strophe_free(conn->ctx, conn->jid);
+    char *old = conn->jid;
+
+    /* jid could be the one returned by xmpp_conn_get_jid() */
     conn->jid = strophe_strdup(conn->ctx, jid);
+    if (old)
+        strophe_free(conn->ctx, old);
 }
 
 /** Set the Handler function which will be called when the TLS stack can't
@@ -557,12 +560,11 @@ void xmpp_conn_set_client_cert(xmpp_conn_t *const conn,
                                const char *const cert,
                                const char *const key)
 {
+    char *old_cert = conn->tls_client_cert;
+    char *old_key = conn->tls_client_key;
+
     strophe_debug(conn->ctx, "conn", "set client cert %s %s", cert, key);
-    if (conn->tls_client_cert)
-        strophe_free(conn->ctx, conn->tls_client_cert);
     conn->tls_client_cert = NULL;
-    if (conn->tls_client_key)
-        strophe_free(conn->ctx, conn->tls_client_key);
     conn->tls_client_key = NULL;
     if (cert && key) {
         conn->tls_client_cert = strophe_strdup(conn->ctx, cert);
@@ -575,6 +577,11 @@ void xmpp_conn_set_client_cert(xmpp_conn_t *const conn,
                      "parameter is deprecated. Use 'cert' instead");
         conn->tls_client_cert = strophe_strdup(conn->ctx, key);
     }
+    /* key could be the one returned by xmpp_conn_get_keyfile() */
+    if (old_cert)
+        strophe_free(conn->ctx, old_cert);
+    if (old_key)
+        strophe_free(conn->ctx, old_key);
 }
 
 /** Get the number of xmppAddr entries in the client certificate.
@@ -628,9 +635,12 @@ const char *xmpp_conn_get_pass(const xmpp_conn_t *conn)
  */
 void xmpp_conn_set_pass(xmpp_conn_t *conn, const char *pass)
 {
-    if (conn->pass)
-        strophe_free(conn->ctx, conn->pass);
+    char *old = conn->pass;
+
+    /* pass could be the one returned by xmpp_conn_get_pass() */
     conn->pass = pass ? strophe_strdup(conn->ctx, pass) : NULL;
+    if (old)
+        strophe_free(conn->ctx, old);
 }
 
 /** Get the strophe context that the connection is associated with.
diff --git a/src/stanza.c b/src/stanza.c
index aa3d578..bfd1100 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -501,14 +501,16 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
  */
 int xmpp_stanza_set_name(xmpp_stanza_t *stanza, const char *name)
 {
+    char *old = stanza->data;
+
     if (stanza->type == XMPP_STANZA_TEXT)
         return XMPP_EINVOP;
 
-    if (stanza->data)
-        strophe_free(stanza->ctx, stanza->data);
-
     stanza->type = XMPP_STANZA_TAG;
+    /* name could be the one returned by xmpp_stanza_get_name() */
     stanza->data = strophe_strdup(stanza->ctx, name);
+    if (old)
+        strophe_free(stanza->ctx, old);
 
     return stanza->data == NULL ? XMPP_EMEM : XMPP_EOK;
 }
@@ -721,14 +723,17 @@ int xmpp_stanza_add_child(xmpp_stanza_t *stanza, xmpp_stanza_t *child)
  */
 int xmpp_stanza_set_text(xmpp_stanza_t *stanza, const char *text)
 {
+    char *old = stanza->data;
+
     if (stanza->type == XMPP_STANZA_TAG)
         return XMPP_EINVOP;
 
     stanza->type = XMPP_STANZA_TEXT;
 
-    if (stanza->data)
-        strophe_free(stanza->ctx, stanza->data);
+    /* text could be the one returned by xmpp_stanza_get_text_ptr() */
     stanza->data = strophe_strdup(stanza->ctx, text);
+    if (old)
+        strophe_free(stanza->ctx, old);
 
     return stanza->data == NULL ? XMPP_EMEM : XMPP_EOK;
 }
@@ -751,20 +756,24 @@ int xmpp_stanza_set_text_with_size(xmpp_stanza_t *stanza,
                                    const char *text,
                                    size_t size)
 {
+    char *old = stanza->data;
+
     if (stanza->type == XMPP_STANZA_TAG)
         return XMPP_EINVOP;
 
     stanza->type = XMPP_STANZA_TEXT;
 
-    if (stanza->data)
-        strophe_free(stanza->ctx, stanza->data);
+    /* text could point into the one returned by xmpp_stanza_get_text_ptr() */
     stanza->data = strophe_alloc(stanza->ctx, size + 1);
+    if (stanza->data) {
+        memcpy(stanza->data, text, size);
+        stanza->data[size] = 0;
+    }
+    if (old)
+        strophe_free(stanza->ctx, old);
     if (!stanza->data)
         return XMPP_EMEM;
 
-    memcpy(stanza->data, text, size);
-    stanza->data[size] = 0;
-
     return XMPP_EOK;
 }
 
-- 
2.43.0


From 1cb307617c8d7d75e7d86cf816ab2e89e3039732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 32/34] fix: free the global timed handlers together with their
 context

---
 src/ctx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ctx.c b/src/ctx.c
index ef4dff1..2f2ec15 100644
--- a/src/ctx.c
+++ b/src/ctx.c
@@ -497,6 +497,13 @@ xmpp_ctx_t *xmpp_ctx_new(const xmpp_mem_t *mem, const xmpp_log_t *log)
  */
 void xmpp_ctx_free(xmpp_ctx_t *ctx)
 {
+    xmpp_handlist_t *item;
+
+    while ((item = ctx->timed_handlers)) {
+        ctx->timed_handlers = item->next;
+        strophe_free(ctx, item);
+    }
+
     /* mem and log are owned by their suppliers */
     xmpp_rand_free(ctx, ctx->rand);
     strophe_free(ctx, ctx); /* pull the hole in after us */
-- 
2.43.0


From a7d6d300f45d2b8e489a99a26bedb4f4bbb6c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 33/34] fix: don't accept any certificate if the domain is
 empty

---
 src/tls_openssl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tls_openssl.c b/src/tls_openssl.c
index 4471a9c..7b71985 100644
--- a/src/tls_openssl.c
+++ b/src/tls_openssl.c
@@ -727,7 +727,15 @@ tls_t *tls_new(xmpp_conn_t *conn)
          */
         X509_VERIFY_PARAM_set_hostflags(param,
                                         X509_CHECK_FLAG_NO_PARTIAL_WILDCARDS);
-        X509_VERIFY_PARAM_set1_host(param, conn->domain, 0);
+        /* With an empty name OpenSSL would accept any certificate, and any
+         * subdomain with a leading dot. Neither is a valid domain. */
+        if (!conn->tls_trust &&
+            (conn->domain[0] == '\0' || conn->domain[0] == '.' ||
+             !X509_VERIFY_PARAM_set1_host(param, conn->domain, 0))) {
+            strophe_error(tls->ctx, "tls", "Can't verify the domain \"%s\"",
+                          conn->domain);
+            goto err_free_ssl;
+        }
 #endif
 
         ret = SSL_set_fd(tls->ssl, conn->sock);
-- 
2.43.0


From c6aa9f2a7a5e6f7cf99fab8df53a5e0006b5ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 34/34] fix: only take an iq for the answer to a bind or
 session request

---
 src/auth.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 0a1fc2d..7c6b761 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1277,6 +1277,15 @@ static void _sm_enable(xmpp_conn_t *conn)
     trigger_sm_callback(conn);
 }
 
+/* the type of an iq stanza, NULL for anything else */
+static const char *_iq_type(xmpp_stanza_t *stanza)
+{
+    const char *name = xmpp_stanza_get_name(stanza);
+
+    return name && strcmp(name, "iq") == 0 ? xmpp_stanza_get_type(stanza)
+                                           : NULL;
+}
+
 static int
 _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
 {
@@ -1289,7 +1298,7 @@ _handle_bind(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     xmpp_timed_handler_delete(conn, _handle_missing_bind);
 
     /* server has replied to bind request */
-    type = xmpp_stanza_get_type(stanza);
+    type = _iq_type(stanza);
     if (type && strcmp(type, "error") == 0) {
         strophe_error(conn->ctx, "xmpp", "Binding failed.");
         xmpp_disconnect(conn);
@@ -1348,7 +1357,7 @@ _handle_session(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     xmpp_timed_handler_delete(conn, _handle_missing_session);
 
     /* server has replied to the session request */
-    type = xmpp_stanza_get_type(stanza);
+    type = _iq_type(stanza);
     if (type && strcmp(type, "error") == 0) {
         strophe_error(conn->ctx, "xmpp", "Session establishment failed.");
         xmpp_disconnect(conn);
-- 
2.43.0


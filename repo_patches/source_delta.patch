From c18dd524f92af94e3fb395997e7f3228b5d52aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 01/73] fix: dn_store: propagate errors from store_begin

---
 libimaildir/dn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 9c52eeb..6dab2d9 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1098,7 +1098,7 @@ derr_t dn_store(
     PROP(&e, healthcheck(dn) );
 
     if(!dn->store.started){
-        store_begin(dn, tagp, store, out, ok);
+        PROP(&e, store_begin(dn, tagp, store, out, ok) );
         return e;
     }
 
-- 
2.43.0


From db59521d64098b300c6841fa1df005ae14108b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 02/73] fix: relay_copy_cb: do not use hold_m after failing to
 obtain it

---
 libimaildir/imaildir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index f2f7dfe..76ff75b 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -2021,7 +2021,7 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
     const ie_seq_set_t *dst_uids_up = st_resp->code->arg.copyuid.uids_out;
 
     imaildir_t *hold_m;
-    dirmgr_hold_get_imaildir(relay->hold, &hold_m);
+    PROP(&e, dirmgr_hold_get_imaildir(relay->hold, &hold_m) );
 
     if(uidvld != imaildir_get_uidvld_up(hold_m)){
         LOG_WARN("detected COPY with mismatched UIDVALIDITY\n");
-- 
2.43.0


From 5403f5edecbefcf049e9f8c5cca1b3f53fc92dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 03/73] fix: sc: propagate errors from mailbox_synced

---
 libcitm/sc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 23edd8f..3ce83f2 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -352,7 +352,7 @@ static derr_t advance_select(
         // did we sync a mailbox successfully?
         if(success){
             const dstr_t *mailbox_name = ie_mailbox_name(sc->selected_mailbox);
-            sc->kd->mailbox_synced(sc->kd, *mailbox_name);
+            PROP(&e, sc->kd->mailbox_synced(sc->kd, *mailbox_name) );
         }
     }
 
-- 
2.43.0


From bfc942c04945ea35ac2e5a18e4cef1b321cd99fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 04/73] fix: cli_encrypt: propagate errors without leaking keys

---
 encrypt_msg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encrypt_msg.c b/encrypt_msg.c
index e082539..7c2ab30 100644
--- a/encrypt_msg.c
+++ b/encrypt_msg.c
@@ -75,10 +75,10 @@ static derr_t cli_encrypt(int argc, char** argv){
         link_list_append(&keys, &kp->link);
         // this is for debug
         DSTR_VAR(hex, 256);
-        bin2hex(kp->fingerprint, &hex);
+        PROP_GO(&e, bin2hex(kp->fingerprint, &hex), cu_keys);
         LOG_DEBUG("%x : %x\n", FS(argv[i]), FD(hex));
         DSTR_VAR(pemout, 4096);
-        PROP(&e, keypair_get_public_pem(kp, &pemout) );
+        PROP_GO(&e, keypair_get_public_pem(kp, &pemout), cu_keys);
         LOG_DEBUG("%x\n", FD(pemout));
     }
 
-- 
2.43.0


From c3648b78ec8d87f9f114003fbd8066b1537807c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 05/73] fix: addr_skip_fill: propagate errors, including a full
 buffer

---
 libimap/write.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libimap/write.c b/libimap/write.c
index 6459da4..6f253e2 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -1579,12 +1579,12 @@ static derr_t addr_skip_fill(skip_fill_t *sf, ie_addr_t *addr){
     bool sp = false;
     for(ie_addr_t *p = addr; p; p = p->next){
         LEAD_SP;
-        nstring_skip_fill(sf, p->name);
+        PROP(&e, nstring_skip_fill(sf, p->name) );
         // We never parse or render the route.
         STATIC_SKIP_FILL(" NIL ");
-        nstring_skip_fill(sf, p->mailbox);
+        PROP(&e, nstring_skip_fill(sf, p->mailbox) );
         STATIC_SKIP_FILL(" ");
-        nstring_skip_fill(sf, p->host);
+        PROP(&e, nstring_skip_fill(sf, p->host) );
     }
     STATIC_SKIP_FILL(")");
     return e;
-- 
2.43.0


From faa8548842305a744efa75a419aade30c6496f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 06/73] fix: api_command_main: propagate errors from
 get_os_default_account_path

---
 libcli/ui.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libcli/ui.c b/libcli/ui.c
index 48e6a2b..c65b566 100644
--- a/libcli/ui.c
+++ b/libcli/ui.c
@@ -850,9 +850,11 @@ static derr_t api_command_main(
         cu);
     }else{
         // default is determined by OS and environment variables
-        get_os_default_account_path(
-            ui, &mem, &account_path, &account_dir_access
-        );
+        PROP_GO(&e,
+            get_os_default_account_path(
+                ui, &mem, &account_path, &account_dir_access
+            ),
+        cu);
     }
 
     if(!account_dir_access){
-- 
2.43.0


From 7c9f1ea0400f3a1e57008135f967601be4d23b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 07/73] fix: dir_is_empty: do not report an unreadable
 directory as empty

---
 libimaildir/dirmgr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/dirmgr.c b/libimaildir/dirmgr.c
index 38f2b3a..3a3bb6d 100644
--- a/libimaildir/dirmgr.c
+++ b/libimaildir/dirmgr.c
@@ -433,7 +433,7 @@ static derr_t dir_is_empty(const string_builder_t *path, bool *empty){
     CATCH(&e2, E_BREAK){
         DROP_VAR(&e2);
         *empty = false;
-    }
+    }else PROP_VAR(&e, &e2);
 
     return e;
 }
-- 
2.43.0


From d0abf6cbe6f04f794c2f2a48ae6b50fe8333e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 08/73] fix: status_client: propagate non-parameter errors from
 reading responses

---
 libcitm/status_client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcitm/status_client.c b/libcitm/status_client.c
index d984172..4a1cc62 100644
--- a/libcitm/status_client.c
+++ b/libcitm/status_client.c
@@ -172,7 +172,7 @@ static derr_t handle_response(status_client_t *sc, dstr_t line, json_t json){
     CATCH(&e2, E_PARAM){
         TRACE(&e2, "unexpected server response: \"%x\"\n", FD_DBG(line));
         RETHROW(&e, &e2, E_RESPONSE);
-    }
+    }else PROP_VAR(&e, &e2);
 
     if(have_vmaj != have_vmin || have_vmin != have_vpatch){
         ORIG(&e,
@@ -214,7 +214,7 @@ static derr_t handle_response(status_client_t *sc, dstr_t line, json_t json){
     CATCH(&e2, E_PARAM){
         TRACE(&e2, "unexpected server response: \"%x\"\n", FD_DBG(line));
         RETHROW(&e, &e2, E_RESPONSE);
-    }
+    }else PROP_VAR(&e, &e2);
 
     // initial or update status message
     // we treat both the same by caching static values on the status_client_t
-- 
2.43.0


From 678b2515ba6ff529e36034da632f5e817fe9db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 09/73] fix: status_client: drop the secondary error after
 being closed

---
 libcitm/status_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libcitm/status_client.c b/libcitm/status_client.c
index 4a1cc62..21ec62f 100644
--- a/libcitm/status_client.c
+++ b/libcitm/status_client.c
@@ -313,6 +313,8 @@ fail:
     if(!is_error(sc->e)){
         sc->e = e;
         e = (derr_t){0};
+    }else{
+        DROP_VAR(&e);
     }
 cu:
     /* libuv documents that uv_cancel() doesn't work on connect requests, so
-- 
2.43.0


From 6ab8427c339f1ad1776af699414160fcf4dddfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 10/73] fix: user: drop the xc error type into the failure
 path, always close

---
 libcitm/user.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libcitm/user.c b/libcitm/user.c
index 6526c8d..55a52f1 100644
--- a/libcitm/user.c
+++ b/libcitm/user.c
@@ -58,9 +58,9 @@ static void await_xc(
 
     // xc should never close gracefully
     if(!is_error(e)){
-        ORIG_GO(&e,
-            E_INTERNAL, "user->xc closed early but without error",
-        done);
+        TRACE_ORIG(&e,
+            E_INTERNAL, "user->xc closed early but without error"
+        );
     }
 
     if(u->failed) DROP_VAR(&e);
@@ -75,7 +75,6 @@ static void await_xc(
     }
     KEEP_FIRST_IF_NOT_CANCELED_VAR(&u->e, &e);
 
-done:
     // either we were already canceled, or we now have an error set
     schedule(u);
 }
-- 
2.43.0


From d53f30f25fc8cc8148affd01a65e32c57842f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 11/73] fix: stub: always drop the stream error

---
 libcitm/stub.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/stub.c b/libcitm/stub.c
index 617a6ae..a6197a5 100644
--- a/libcitm/stub.c
+++ b/libcitm/stub.c
@@ -52,9 +52,9 @@ static void await_cb(
         // we didn't cancel it
         TRACE(&e, "failure occured while communicating with stub\n");
         DUMP(e);
-        DROP_VAR(&e);
         stub->done = true;
     }
+    DROP_VAR(&e);
     schedule(stub);
 }
 
-- 
2.43.0


From c7f4f8c9c53fffb05664b94cc50b0b491e6e1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 12/73] fix: io_pair: always drop the stream error

---
 libcitm/io_pair.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/io_pair.c b/libcitm/io_pair.c
index 9bf09a8..eee596b 100644
--- a/libcitm/io_pair.c
+++ b/libcitm/io_pair.c
@@ -49,9 +49,9 @@ static void await_cb(
             "failure occured while informing client of connection failure\n"
         );
         DUMP(e);
-        DROP_VAR(&e);
         io_pair->done = true;
     }
+    DROP_VAR(&e);
     schedule(io_pair);
 }
 
-- 
2.43.0


From 2d8fb941e267a8c18331a68e4317561eef346059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 13/73] fix: acme: drop errors when no request is active

---
 libacme/reqs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libacme/reqs.c b/libacme/reqs.c
index 438223e..1dae1bd 100644
--- a/libacme/reqs.c
+++ b/libacme/reqs.c
@@ -225,6 +225,8 @@ static void acme_advance_state(acme_t *acme, derr_t err){
        be a type-specific advance_state to call */
     if(acme->advance_state){
         acme->advance_state(acme, err);
+    }else{
+        DROP_VAR(&err);
     }
 
     if(closed && !acme->advance_state){
-- 
2.43.0


From d585330038ed62d8dd2212d4c04a9914aefce7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 14/73] fix: list_append_with_mem: propagate append errors

---
 libdstr/common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index eb0da77..801c1a7 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -909,11 +909,11 @@ derr_t list_append_with_mem(LIST(dstr_t)* list, dstr_t* mem, dstr_t in,
     PROP(&e, dstr_grow(mem, mem->len + to_grow) );
     // now do the appending
     // append *in to the backing memory
-    dstr_append(mem, &in);
+    PROP(&e, dstr_append(mem, &in) );
     size_t end = mem->len;
     // null_term if that was requested
     if(null_term){
-        dstr_null_terminate(mem);
+        PROP_GO(&e, dstr_null_terminate(mem), fail_1);
         mem->len++;
     }
     // detect reallocations
-- 
2.43.0


From 859c4e8f24bbf5721236dc0825f8a0f316c115e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 15/73] fix: get_token_context: do not create an untracked
 error

---
 libdstr/dstr_off.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdstr/dstr_off.c b/libdstr/dstr_off.c
index 11e7b06..c6a9d38 100644
--- a/libdstr/dstr_off.c
+++ b/libdstr/dstr_off.c
@@ -40,7 +40,7 @@ void get_token_context(dstr_t *buf, const dstr_off_t token, size_t ctxsize){
     derr_type_t type = dstr_null_terminate_quiet(buf);
     if(type != E_NONE && buf->len != 0){
         buf->len--;
-        dstr_null_terminate(buf);
+        dstr_null_terminate_quiet(buf);
     }
 }
 
-- 
2.43.0


From b5176a36f13247191df375e88230b41c8add62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 16/73] fix: badbadbad_alert: do not create an untracked error

---
 server/badbadbad_alert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/badbadbad_alert.c b/server/badbadbad_alert.c
index 78f2f56..ebc4dca 100644
--- a/server/badbadbad_alert.c
+++ b/server/badbadbad_alert.c
@@ -112,7 +112,7 @@ static void badbadbad_log(dstr_t tag, dstr_t summary, dstr_t body,
     derr_t e = E_OK;
     // get a timestamp for this error
     DSTR_VAR(ts, 128);
-    FMT(&ts, "(TIMESTAMP ERROR)");
+    FMT_QUIET(&ts, "(TIMESTAMP ERROR)");
 
     IF_PROP(&e, get_timestamp(&ts)){
         // just accumulate messages in the trace
-- 
2.43.0


From 9f55f98c84d4cb9c9df1ea8d2a6785ffbefbefba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 17/73] fix: smsql: do not create untracked errors when writing
 to stderr

---
 server/smsql.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/smsql.c b/server/smsql.c
index 3dce089..984f55a 100644
--- a/server/smsql.c
+++ b/server/smsql.c
@@ -55,7 +55,7 @@ static derr_t get_uuid_action(MYSQL *sql, int argc, char **argv){
     if(ok){
         PFMT("%x\n", FSID(uuid));
     }else{
-        FFMT(stderr, "no results\n");
+        FFMT_QUIET(stderr, "no results\n");
     }
 
     return e;
@@ -81,7 +81,7 @@ static derr_t get_email_action(MYSQL *sql, int argc, char **argv){
     if(ok){
         PFMT("%x\n", FD(email));
     }else{
-        FFMT(stderr, "no results\n");
+        FFMT_QUIET(stderr, "no results\n");
     }
 
     return e;
@@ -124,7 +124,7 @@ static derr_t list_aliases_action(MYSQL *sql, int argc, char **argv){
     link_init(&aliases);
     PROP(&e, list_aliases(sql, uuid, &aliases) );
     if(link_list_isempty(&aliases)){
-        FFMT(stderr, "NO ALIASES\n");
+        FFMT_QUIET(stderr, "NO ALIASES\n");
         return e;
     }
 
@@ -290,7 +290,7 @@ static derr_t get_device_action(MYSQL *sql, int argc, char **argv){
     if(ok){
         PFMT("%x\n", FD(pubkey));
     }else{
-        FFMT(stderr, "no results\n");
+        FFMT_QUIET(stderr, "no results\n");
     }
 
     return e;
@@ -758,7 +758,7 @@ static derr_t list_deletions_action(MYSQL *sql, int argc, char **argv){
     link_init(&uuids);
     PROP(&e, list_deletions(sql, server_id, &uuids) );
     if(link_list_isempty(&uuids)){
-        FFMT(stderr, "nothing to delete\n");
+        FFMT_QUIET(stderr, "nothing to delete\n");
         return e;
     }
 
@@ -786,7 +786,7 @@ static derr_t list_users_action(MYSQL *sql, int argc, char **argv){
     link_init(&users);
     PROP(&e, list_users(sql, &users) );
     if(link_list_isempty(&users)){
-        FFMT(stderr, "(none)\n");
+        FFMT_QUIET(stderr, "(none)\n");
         return e;
     }
 
@@ -983,7 +983,7 @@ int main(int argc, char **argv){
     CATCH(&e2, E_USERMSG){
         DSTR_VAR(usermsg, 256);
         consume_e_usermsg(&e2, &usermsg);
-        FFMT(stderr, "%x\n", FD(usermsg));
+        FFMT_QUIET(stderr, "%x\n", FD(usermsg));
         return 1;
     }else PROP_VAR_GO(&e, &e2, fail);
 
-- 
2.43.0


From 65db443a1482e0e273f01020e623efc1f57d0f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 18/73] fix: dirmgr: reject mailbox names which lead outside of
 the mail directory

---
 libimaildir/dirmgr.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libimaildir/dirmgr.c b/libimaildir/dirmgr.c
index 3a3bb6d..d839416 100644
--- a/libimaildir/dirmgr.c
+++ b/libimaildir/dirmgr.c
@@ -19,6 +19,11 @@ static void managed_dir_free(managed_dir_t **mgd){
 static derr_t managed_dir_new(managed_dir_t **out, dirmgr_t *dm, dstr_t name){
     derr_t e = E_OK;
 
+    // never let a client-provided name lead outside of the dirmgr's path
+    if(!dirmgr_name_valid(&name)){
+        ORIG(&e, E_PARAM, "invalid mailbox name (%x)", FD_DBG(name));
+    }
+
     // maildir not open in dirmgr, make sure it exists on the filesystem
     string_builder_t dir_path = sb_append(&dm->path, SBD(name));
     PROP(&e, mkdirs_path(&dir_path, 0777) );
@@ -561,6 +566,11 @@ derr_t dirmgr_hold_new(dirmgr_t *dm, const dstr_t *name, dirmgr_hold_t **out){
     derr_t e = E_OK;
     *out = NULL;
 
+    // never let a client-provided name lead outside of the dirmgr's path
+    if(!dirmgr_name_valid(name)){
+        ORIG(&e, E_PARAM, "invalid mailbox name (%x)", FD_DBG(*name));
+    }
+
     // check if we already have a hold for this name
     hash_elem_t *h = hashmap_gets(&dm->holds, name);
     if(h != NULL){
@@ -795,6 +805,11 @@ derr_t dirmgr_process_status_resp(
         managed_dir_t *mgd = CONTAINER_OF(h, managed_dir_t, h);
         m = &mgd->m;
     }else{
+        // never let a server-provided name lead outside of the dirmgr's path
+        if(!dirmgr_name_valid(name)){
+            ORIG_GO(&e, E_PARAM, "invalid mailbox name (%x)", cu, FD_DBG(*name));
+        }
+
         // make sure it exists on the filesystem
         /* we know it's a valid folder since the server sent us a STATUS
            response for this folder, so it's ok to create a mailbox here */
-- 
2.43.0


From 04e774016e5a3621392bb83fba9ec4f062971591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 19/73] fix: imaildir: detect existing uids before assigning
 new ones on startup

---
 libimaildir/imaildir.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 76ff75b..0d281fe 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -495,13 +495,6 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         )
     );
 
-    if(read_files){
-        // populate messages by reading files
-        PROP(&e, populate_msgs(m) );
-
-        PROP(&e, imaildir_print_msgs(m) );
-    }
-
     // detect all of the uid_dn's and uid_local's
     jsw_atrav_t trav;
     jsw_anode_t *node = jsw_atfirst(&trav, &m->msgs);
@@ -518,6 +511,14 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         detect_hi_uid_local(m, expunge->key.uid_local);
     }
 
+    // (only after detecting hi uids, since recovery may assign new uid_dns)
+    if(read_files){
+        // populate messages by reading files
+        PROP(&e, populate_msgs(m) );
+
+        PROP(&e, imaildir_print_msgs(m) );
+    }
+
     return e;
 }
 
-- 
2.43.0


From eb89b3bc3515c54c448d535fe3c47ef904e25477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 20/73] fix: imaildir: also fail dns which are still waiting to
 connect

---
 libimaildir/imaildir.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 0d281fe..3a26608 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -225,6 +225,11 @@ static void do_fail(imaildir_t *m){
         dn_t *dn = CONTAINER_OF(link, dn_t, link);
         dn_imaildir_failed(dn);
     }
+    // dns which are not done connecting yet are also accessors
+    while((link = link_list_pop_first(&m->predns)) != NULL){
+        dn_t *dn = CONTAINER_OF(link, dn_t, link);
+        dn_imaildir_failed(dn);
+    }
 }
 
 /* imaildir_maybe_fail detects errors and broadcasts to all accessors.  Each
-- 
2.43.0


From e743eb8bbfd797fd3db08d0da699199d5c58ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 21/73] fix: imaildir: do not close the log twice if wiping the
 cache fails

---
 libimaildir/imaildir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 3a26608..5334fdf 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -941,6 +941,7 @@ derr_t imaildir_up_check_uidvld_up(imaildir_t *m, unsigned int uidvld_up){
 
         // close the log
         m->log->close(m->log);
+        m->log = NULL;
 
         // delete the log from the filesystem
         PROP_GO(&e, imaildir_log_rm(&m->path), fail);
-- 
2.43.0


From 398ea10d95ee8aa3a46b1763a463902c2dd05c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 22/73] fix: imaildir_log_rm: tolerate an already-removed log

---
 libimaildir/log_file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index f13c047..40547d9 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -597,6 +597,9 @@ cu:
 derr_t imaildir_log_rm(const string_builder_t *dirpath){
     derr_t e = E_OK;
     string_builder_t path = sb_append(dirpath, SBS(".cache"));
-    PROP(&e, remove_path(&path) );
+    // the log may already be gone, if we crashed in the middle of a wipe
+    bool exists;
+    PROP(&e, exists_path(&path, &exists) );
+    if(exists) PROP(&e, remove_path(&path) );
     return e;
 }
-- 
2.43.0


From 6fb0c2dcf0b47ec1897ab52cbd38886470a9ffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 23/73] fix: imaildir: mark the cache invalid before wiping a
 nonexistent mailbox

---
 libimaildir/imaildir.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 5334fdf..e381e4c 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -558,6 +558,28 @@ static derr_t delete_all_msg_files(const string_builder_t *maildir_path){
     return e;
 }
 
+// the log must not be open
+static derr_t wipe_files(imaildir_t *m){
+    derr_t e = E_OK;
+
+    /* first mark the cache as invalid, in case we crash or lose power halfway
+       through; otherwise we might leave files behind which are not in any log,
+       and the imaildir could never be opened again */
+    string_builder_t invalid_path = sb_append(&m->path, SBS(".invalid"));
+    PROP(&e, touch_path(&invalid_path) );
+
+    // delete the log from the filesystem
+    PROP(&e, imaildir_log_rm(&m->path) );
+
+    // delete message files from the filesystem
+    PROP(&e, delete_all_msg_files(&m->path) );
+
+    // cache is no longer invalid
+    PROP(&e, remove_path(&invalid_path) );
+
+    return e;
+}
+
 static derr_t imaildir_init_ex(
     imaildir_t *m,
     imaildir_cb_i *cb,
@@ -693,11 +715,7 @@ void imaildir_free(imaildir_t *m){
 
     // check if we found out this maildir doesn't exist anymore
     if(m->rm_on_close){
-        // delete the log from the filesystem
-        DROP_CMD( imaildir_log_rm(&m->path) );
-
-        // delete message files from the filesystem
-        DROP_CMD( delete_all_msg_files(&m->path) );
+        DROP_CMD( wipe_files(m) );
     }
 }
 
-- 
2.43.0


From 0537d41f169ce5626800c17eea1d73e473beb98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 24/73] fix: sc: release the imaildir when a local append fails

---
 libcitm/sc.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libcitm/sc.c b/libcitm/sc.c
index 3ce83f2..3ca3fec 100644
--- a/libcitm/sc.c
+++ b/libcitm/sc.c
@@ -748,7 +748,7 @@ static derr_t check_append(
         }else{
             // add the temp file to the maildir
             void *up_noresync = &sc->up;
-            PROP(&e,
+            PROP_GO(&e,
                 imaildir_add_local_file(
                     m,
                     &path,
@@ -758,8 +758,8 @@ static derr_t check_append(
                     sc->append_flags,
                     up_noresync,
                     NULL
-                )
-            );
+                ),
+            fail);
         }
     }else{
         // APPEND failed, delete the temp file
@@ -777,6 +777,10 @@ static derr_t check_append(
     PROP(&e, send_passthru_st_resp(sc, cmdtagp, st->status, respp) );
 
     return e;
+
+fail:
+    dirmgr_hold_release_imaildir(sc->append_hold, &m);
+    return e;
 }
 
 static derr_t require_selected(
-- 
2.43.0


From 5b98a529929be174ea122e3bec2681bd5d57a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:12 +0000
Subject: [PATCH 25/73] fix: complete SEARCH in an empty mailbox with a tagged
 response

---
 libimaildir/dn.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 6dab2d9..db62656 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -759,18 +759,16 @@ derr_t dn_search(
 
     PROP(&e, healthcheck(dn) );
 
-    // handle the empty maildir case
-    if(dn->views.size == 0){
-        PROP(&e, send_search_resp(dn, NULL, out) );
-        return e;
-    }
+    ie_nums_t *nums = NULL;
 
-    // now figure out some constants to do the search
-    unsigned int seq_max;
-    PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
+    // there is nothing to search in an empty maildir
+    if(dn->views.size > 0){
+        // now figure out some constants to do the search
+        unsigned int seq_max;
+        PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
 
-    ie_nums_t *nums = NULL;
-    PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+        PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+    }
 
     link_t temp = {0};
 
-- 
2.43.0


From f4a5277ee5d1aaab018526124fad314c4a2d47a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:03 +0000
Subject: [PATCH 26/73] fix: never change an EXAMINEd mailbox through FETCH or
 CLOSE

---
 libimaildir/dn.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index db62656..ea21434 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1544,8 +1544,9 @@ static derr_t fetch_begin(
     }
 
     /* some FETCH commands can't cause any \Seen flags to get set, while
-       other FETCH commands don't happen to affect any unseen messages */
-    bool ispeek = fetch_is_peek_only(dn->fetch.cmd);
+       other FETCH commands don't happen to affect any unseen messages, and
+       no FETCH command may set flags in an EXAMINEd mailbox */
+    bool ispeek = dn->examine || fetch_is_peek_only(dn->fetch.cmd);
     msg_key_list_t *nonpeeks = NULL;
     if(!ispeek){
         PROP(&e, nonpeek_msgs(dn, dn->fetch.uids_dn, &nonpeeks) );
@@ -2066,7 +2067,8 @@ fail:
 static derr_t disconnect_begin(dn_t *dn, bool expunge, bool *ok){
     derr_t e = E_OK;
 
-    if(!expunge){
+    // CLOSE is not allowed to expunge anything from an EXAMINEd mailbox
+    if(!expunge || dn->examine){
         /* since the server_t is not allowed to process commands while it is
            waiting for the dn_t to respond to a command, there's no additional
            need to synchronize at this point */
-- 
2.43.0


From 27b470255ca2bf1db325b2bda8ae838a32865af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:03 +0000
Subject: [PATCH 27/73] fix: discard incomplete plaintext responses at STARTTLS

---
 libcitm/imap_client.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libcitm/imap_client.c b/libcitm/imap_client.c
index 44c1d43..8328dcd 100644
--- a/libcitm/imap_client.c
+++ b/libcitm/imap_client.c
@@ -253,6 +253,11 @@ static derr_t starttls(imap_client_t *c){
         ORIG(&e, E_INTERNAL, "imap_client is mid-read during STARTTLS");
     }
 
+    /* discard any incomplete response which was received unencrypted, so it
+       can't be completed by what we read from the encrypted stream */
+    imap_resp_reader_free(&c->reader);
+    PROP(&e, imap_resp_reader_init(&c->reader, &c->exts) );
+
     // un-await our current stream
     c->stream->await(c->stream, NULL);
 
-- 
2.43.0


From 4fbe48e549f568bb44909ef42fab69b2db4d7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 28/73] fix: decrypter_finish() rejects truncated GCM tags

openssl verifies only as many tag bytes as it is given, so a message whose
tag line was cut to a few bytes was still reported as authentic.
---
 libcrypto/crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index bc4cabf..7269c69 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -1243,9 +1243,9 @@ derr_t decrypter_finish(decrypter_t* dc, dstr_t* out){
         ORIG(&e, E_PARAM, "tried to finish decryption before the message began");
     }
 
-    // under no circumstances should the GCM tag be longer than this
-    if(dc->tag.len > INT_MAX){
-        ORIG(&e, E_INTERNAL, "gcm tag is way too long");
+    // openssl would accept a truncated GCM tag, but we never write one
+    if(dc->tag.len != CIPHER_TAG_LEN){
+        ORIG_GO(&e, E_PARAM, "missing or incomplete GCM tag", cleanup);
     }
     int taglen = (int)dc->tag.len;
     // set the GCM authentication tag
-- 
2.43.0


From 2f28b079ceaf7c5dc2cffdbe86188d239ab5dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 29/73] fix: length checks in decrypter_parse_metadata() can't
 wrap

UINT_MAX + 1 wrapped to zero, so a length of 4294967295 in a message header
passed the check and was then used as an index into the buffer.
---
 libcrypto/crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index 7269c69..8575949 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -977,7 +977,7 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < hash_len + 1){
+                if(leftover.len <= hash_len){
                     // we don't have the whole line
                     return e;
                 }
@@ -1008,7 +1008,7 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < key_len + 1){
+                if(leftover.len <= key_len){
                     // we don't have the whole line
                     return e;
                 }
@@ -1053,7 +1053,7 @@ static derr_t decrypter_parse_metadata(decrypter_t* dc){
                 // update the leftover string
                 leftover = dstr_sub(&leftover, (uintptr_t)(pos - leftover.data) + 1, 0);
                 // make sure we have enough bytes left (including separator)
-                if(leftover.len < iv_len + 1){
+                if(leftover.len <= iv_len){
                     // we don't have the whole line
                     return e;
                 }
-- 
2.43.0


From 38e72203a41a0cf8a733650ddfe0051b975e5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:45 +0000
Subject: [PATCH 30/73] fix: keypair_load_private() erases the PEM text of the
 private key

---
 libcrypto/crypto.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index 8575949..ba9af35 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -326,18 +326,22 @@ derr_t keypair_load_private(keypair_t **out, const char *keyfile){
 
     *out = NULL;
 
+    EVP_PKEY *pkey = NULL;
+
     DSTR_VAR(pem, 8192);
     derr_t e2 = dstr_read_file(keyfile, &pem);
     CATCH(&e2, E_FIXEDSIZE){
         DROP_VAR(&e2);
-        ORIG(&e, E_PARAM, "keyfile (%x) too long", FS(keyfile));
-    }else PROP_VAR(&e, &e2);
+        ORIG_GO(&e, E_PARAM, "keyfile (%x) too long", cu, FS(keyfile));
+    }else PROP_VAR_GO(&e, &e2, cu);
 
-    EVP_PKEY *pkey = NULL;
-    PROP(&e, read_pem_encoded_privkey(pem, &pkey) );
+    PROP_GO(&e, read_pem_encoded_privkey(pem, &pkey), cu);
 
-    PROP(&e, keypair_new(out, pkey) );
+    PROP_GO(&e, keypair_new(out, pkey), cu);
 
+cu:
+    // erase the key material
+    dstr_zeroize(&pem);
     return e;
 }
 
-- 
2.43.0


From 8bcbe6ffa0cfb71fb42d54be9828a7f305e0feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 31/73] fix: erase account keys and passwords on every path

The ACME account loaders returned without erasing the key text on failure, jwk_gen_or_load() likewise, and the passwords read by get_password() and the CLI were released without being erased.
---
 libacme/reqs.c         | 18 ++++++++++++------
 libcitm/acme_manager.c |  3 ++-
 libcli/console_input.c |  7 +++++--
 libcli/ui.c            |  6 +++---
 4 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/libacme/reqs.c b/libacme/reqs.c
index 1dae1bd..952105d 100644
--- a/libacme/reqs.c
+++ b/libacme/reqs.c
@@ -354,9 +354,11 @@ derr_t acme_account_from_dstr(acme_account_t *acct, dstr_t dstr){
     JSON_PREP_PREALLOCATED(json, 1024, 64, true);
     IF_PROP(&e, json_parse(dstr, &json) ){
         *acct = (acme_account_t){0};
-        return e;
+        goto cu;
     }
-    PROP(&e, acme_account_from_json(acct, json.root) );
+    PROP_GO(&e, acme_account_from_json(acct, json.root), cu);
+
+cu:
     dstr_zeroize(&json_textbuf);
     return e;
 }
@@ -366,9 +368,11 @@ derr_t acme_account_from_file(acme_account_t *acct, char *file){
     DSTR_VAR(account, 1024);
     IF_PROP(&e, dstr_read_file(file, &account) ){
         *acct = (acme_account_t){0};
-        return e;
+        goto cu;
     }
-    PROP(&e, acme_account_from_dstr(acct, account) );
+    PROP_GO(&e, acme_account_from_dstr(acct, account), cu);
+
+cu:
     dstr_zeroize(&account);
     return e;
 }
@@ -378,9 +382,11 @@ derr_t acme_account_from_path(acme_account_t *acct, string_builder_t path){
     DSTR_VAR(account, 1024);
     IF_PROP(&e, dstr_read_path(&path, &account) ){
         *acct = (acme_account_t){0};
-        return e;
+        goto cu;
     }
-    PROP(&e, acme_account_from_dstr(acct, account) );
+    PROP_GO(&e, acme_account_from_dstr(acct, account), cu);
+
+cu:
     dstr_zeroize(&account);
     return e;
 }
diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index b9b6cf2..b2b94e6 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -97,6 +97,7 @@ static derr_t jwk_gen_or_load(string_builder_t path, key_i **out){
     *out = NULL;
     FILE *f = NULL;
     key_i *key = NULL;
+    DSTR_VAR(buf, 1024);
 
     // does the jwk file even exist? (avoid printing frivolous errors)
     bool ok;
@@ -104,7 +105,6 @@ static derr_t jwk_gen_or_load(string_builder_t path, key_i **out){
     if(!ok) goto gen_after_noexist;
 
     // try to read an existing file
-    DSTR_VAR(buf, 1024);
     PROP_GO(&e, dstr_read_path(&path, &buf), gen_after_fail);
     PROP_GO(&e, json_to_key(buf, out), gen_after_fail);
 
@@ -114,6 +114,7 @@ static derr_t jwk_gen_or_load(string_builder_t path, key_i **out){
     return e;
 
 gen_after_fail:
+    dstr_zeroize(&buf);
     // if loading fails, generate a new key
     LOG_DEBUG("loading jwk failed:\n%x----\n", FD(e.msg));
     DROP_VAR(&e);
diff --git a/libcli/console_input.c b/libcli/console_input.c
index cb4a694..cf9204a 100644
--- a/libcli/console_input.c
+++ b/libcli/console_input.c
@@ -45,8 +45,10 @@ derr_t get_password(dstr_t* password){
         }
         if(linebreak) break;
     }
-    PROP(&e, dstr_copy(&buf, password) );
-    PROP(&e, dstr_null_terminate(password) );
+    PROP_GO(&e, dstr_copy(&buf, password), cu);
+    PROP_GO(&e, dstr_null_terminate(password), cu);
+cu:
+    dstr_zeroize(&buf);
     return e;
 }
 #else
@@ -95,6 +97,7 @@ derr_t get_password(dstr_t* password){
     PROP_GO(&e, dstr_null_terminate(password), cu);
 
 cu:
+    dstr_zeroize(&buf);
     if(ttymode){
         // reset terminal settings
         tios.c_lflag = old_lflag;
diff --git a/libcli/ui.c b/libcli/ui.c
index c65b566..8d9e8de 100644
--- a/libcli/ui.c
+++ b/libcli/ui.c
@@ -1142,9 +1142,9 @@ static derr_t api_command_main(
 cu:
     dstr_free(&user);
     dstr_free(&apipath);
-    dstr_free(&password);
-    dstr_free(&new_password);
-    dstr_free(&confirm_password);
+    dstr_free0(&password);
+    dstr_free0(&new_password);
+    dstr_free0(&confirm_password);
     dstr_free(&recv);
     json_free(&json);
     ui.api_token_free0(&token);
-- 
2.43.0


From 219812b189d65b4bcc7837e485a0e7bb41b1cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 32/73] fix: ed25519_to_jwk() writes the private key as "d",
 not the public key

---
 libacme/jws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libacme/jws.c b/libacme/jws.c
index bddd1f4..1e2fca8 100644
--- a/libacme/jws.c
+++ b/libacme/jws.c
@@ -80,7 +80,7 @@ static derr_type_t ed25519_to_jwk(
         DKEY("kty", DS("OKP")),
         DKEY("x", DB64URL(buf)),
         // private key may be excluded
-        DKEY("d", pvt ? DB64URL(buf) : NULL),
+        DKEY("d", pvt ? DB64URL(pvtbuf) : NULL),
     );
 
     derr_type_t etype = obj->jdump(obj, out, indent, pos);
-- 
2.43.0


From be67d9821c83d7372305e5ed14e754e0a59051c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 33/73] fix: es256_from_jwk() does not jump past the buffer it
 erases

A jwk with an invalid x or y reached the cleanup before dbin was initialized and zeroized a wild pointer.
---
 libacme/jws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libacme/jws.c b/libacme/jws.c
index 1e2fca8..f8de0dd 100644
--- a/libacme/jws.c
+++ b/libacme/jws.c
@@ -716,11 +716,11 @@ static derr_t es256_from_jwk(
     /* pub format is the byte 'POINT_CONVERSION_UNCOMPRESSED' followed by
        x, then y, each in big-endian format */
     DSTR_VAR(pub, 65);
+    DSTR_VAR(dbin, 32);
     pub.data[pub.len++] = POINT_CONVERSION_UNCOMPRESSED;
     PROP_GO(&e, b64url2bin(x, &pub), cu);
     PROP_GO(&e, b64url2bin(y, &pub), cu);
 
-    DSTR_VAR(dbin, 32);
     PROP_GO(&e, b64url2bin(d, &dbin), cu);
     // jwk is big-endian, but OSSL_PARAM_UNSIGNED_INTEGER is host-endian
     from_bigendian(&dbin);
-- 
2.43.0


From d61581df696af789f8d3d8a290dbce92d539ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 34/73] fix: imap_client's await_cb() initializes the list it
 filters into

link_list_append() dereferences the pointers of a head that is not zeroized.
---
 libcitm/imap_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/imap_client.c b/libcitm/imap_client.c
index 8328dcd..8878639 100644
--- a/libcitm/imap_client.c
+++ b/libcitm/imap_client.c
@@ -54,7 +54,7 @@ static void await_cb(
 
     if(c->original_base_await_cb){
         // our reads and writes are static
-        link_t ignore;
+        link_t ignore = {0};
         stream_reads_filter(reads, &ignore, read_cb);
         stream_writes_filter(writes, &ignore, write_cb);
         c->original_base_await_cb(stream, E_OK, reads, writes);
-- 
2.43.0


From 093d3e23205603f113f09a59e64d426b7a697463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 35/73] fix: imap_server's await_cb() initializes the list it
 filters into

link_list_append() dereferences the pointers of a head that is not zeroized.
---
 libcitm/imap_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcitm/imap_server.c b/libcitm/imap_server.c
index d42712e..b854a2c 100644
--- a/libcitm/imap_server.c
+++ b/libcitm/imap_server.c
@@ -59,7 +59,7 @@ static void await_cb(
 
     if(s->original_base_await_cb){
         // our reads and writes are static
-        link_t ignore;
+        link_t ignore = {0};
         stream_reads_filter(reads, &ignore, read_cb);
         stream_writes_filter(writes, &ignore, write_cb);
         s->original_base_await_cb(stream, E_OK, reads, writes);
-- 
2.43.0


From c884993eff1bd3fd6aa1a4ba96b6c90610577d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 36/73] fix: read_bodystructure() does not free an unset
 pointer when a part fails

ie_body_add() frees the new part when the error is already set, but a failed
recursion does not write it.
---
 libimap/imf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 8f0cb16..0189acb 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -1216,7 +1216,7 @@ static derr_t read_bodystructure(
             };
 
             // recurse
-            ie_body_t *new_part;
+            ie_body_t *new_part = NULL;
             // delay error handling until ie_body_add
             e = read_bodystructure(
                 part_hdrs,
-- 
2.43.0


From 1def6aef9475ff3cf935ed7950824a67e9c1c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 37/73] fix: read_bodystructure() does not leak the parts it
 has read when one fails

The cleanup frees the outer variable that this declaration shadowed.
---
 libimap/imf.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 0189acb..b3b7973 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -1186,7 +1186,6 @@ static derr_t read_bodystructure(
 
     if(content_type->type == MIME_TYPE_MULTIPART){
         // read the bodystructure for all parts of this message
-        ie_body_t *parts = NULL;
         size_t skip = 0;
 
         // multipart/digest changes the deault Content-Type
-- 
2.43.0


From 936c5957352479cc6a30d786b63497c0e6068f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 38/73] fix: api_command_main() only prints the failure reason
 that was actually read

---
 libcli/ui.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcli/ui.c b/libcli/ui.c
index 8d9e8de..e433ad7 100644
--- a/libcli/ui.c
+++ b/libcli/ui.c
@@ -1126,7 +1126,7 @@ static derr_t api_command_main(
             derr_t e2 = jspec_read_ex(JDREF(&why), contents, &why_ok, NULL);
             if(is_error(e2)){
                 DROP_VAR( &e2 );
-            }else if(ok){
+            }else if(why_ok){
                 FFMT_QUIET(stderr, "REST API call failed: \"%x\"\n", FD(why));
             }
             *retval = 14;
-- 
2.43.0


From 7e78694ec071fce5e3219c024d36982b975ce45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 39/73] fix: api_command_main() rejects a response without
 contents

It dumped an uninitialized json_ptr_t.
---
 libcli/ui.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcli/ui.c b/libcli/ui.c
index e433ad7..c99af1d 100644
--- a/libcli/ui.c
+++ b/libcli/ui.c
@@ -1134,6 +1134,10 @@ static derr_t api_command_main(
         }
     }
 
+    if(!contents_ok){
+        ORIG_GO(&e, E_RESPONSE, "invalid server response", cu);
+    }
+
     // now dump the return json
     PROP_GO(&e, json_fdump(contents, stdout), cu);
 
-- 
2.43.0


From 0f6003bfa7c2aaf39673b2ad9a39605504bb8772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:26 +0000
Subject: [PATCH 40/73] fix: the order finalization error has a placeholder for
 the server's reason

---
 libacme/reqs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libacme/reqs.c b/libacme/reqs.c
index 952105d..998c388 100644
--- a/libacme/reqs.c
+++ b/libacme/reqs.c
@@ -1752,7 +1752,7 @@ static derr_t finalize_order_status_check(
             // certificate failure of some sort
             ORIG(&e,
                 E_RESPONSE,
-                "order finalization failed (error=\"\")",
+                "order finalization failed (error=\"%x\")",
                 FD(order->error)
             );
             break;
-- 
2.43.0


From 51786f493507463e118e9d4c71aabfdcc7cab349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:26 +0000
Subject: [PATCH 41/73] fix: the lock conflict error prints the pid of the
 owner

---
 libduv/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libduv/util.c b/libduv/util.c
index f91bc7a..e51b485 100644
--- a/libduv/util.c
+++ b/libduv/util.c
@@ -356,7 +356,7 @@ static derr_t trylock_fd(int fd, string_builder_t sb){
     if(errno == EACCES || errno == EAGAIN){
         ORIG(&e,
             E_BUSY,
-            "file %x is locked by another process (pid=%d)",
+            "file %x is locked by another process (pid=%x)",
             FSB(sb),
             FI(f.l_pid)
         );
-- 
2.43.0


From 63a64facd1913e8711bcb6013045572cfd193fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:26 +0000
Subject: [PATCH 42/73] fix: migmysql's --override hint has no surplus argument

---
 server/migmysql.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/migmysql.c b/server/migmysql.c
index 9c08f36..f9bd30f 100644
--- a/server/migmysql.c
+++ b/server/migmysql.c
@@ -845,7 +845,7 @@ int main(int argc, char **argv){
         unsigned int id = get_id(&base);
         if(!endswith(&base, ".dn.sql") || !name.len || !id){
             LOG_ERROR("--override file (%x) must end in .dn.sql\n", FD(base));
-            LOG_ERROR("should match NUM-NAME.dn.sql\n", FD(base));
+            LOG_ERROR("should match NUM-NAME.dn.sql\n");
             return 1;
         }
     }else{
-- 
2.43.0


From c164becf494bf4c9df8b94a38db5c74dcee44b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:26 +0000
Subject: [PATCH 43/73] fix: olt's octal mode error names the mode and the file

---
 tools/olt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/olt.c b/tools/olt.c
index 0c7da19..2000ff1 100644
--- a/tools/olt.c
+++ b/tools/olt.c
@@ -307,7 +307,11 @@ static derr_t parse_perms(const dstr_t* perms, directory* root){
 
         // get mode
         if(entries.data[3].data[0] != '0'){
-            TRACE(&e, "mode %x on file %x not in octal format\n");
+            TRACE(&e,
+                "mode %x on file %x not in octal format\n",
+                FD(entries.data[3]),
+                FD(entries.data[0])
+            );
             ORIG_GO(&e, E_VALUE, "Invalid mode in permissions file", cu_lines);
         }
         mode_t mode;
-- 
2.43.0


From b1c31d66d6d53470b0fa58a4123b90f846aefe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:26 +0000
Subject: [PATCH 44/73] fix: qwwq's type errors use the formatter's
 placeholders

---
 tools/qwwq/builtins.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/qwwq/builtins.c b/tools/qwwq/builtins.c
index bf82e6e..ea24a8e 100644
--- a/tools/qwwq/builtins.c
+++ b/tools/qwwq/builtins.c
@@ -402,7 +402,7 @@ static void _instr_fix(qw_env_t env, char *name, line_f linefn){
     qw_val_t *skipval = qw_scope_eval_ref(env.engine, qw_ref(BUILTIN, 2));
     if(*skipval > QW_VAL_TRUE){
         qw_error(env.engine,
-            "%x(skip_empty=) must be a bool, not %x (%x)",
+            "%x(skip_empty=) must be a bool, not %x",
             FS(name),
             FS(qw_val_name(*skipval))
         );
@@ -516,10 +516,10 @@ static void _instr_pad(qw_env_t env, const char *name, bool left){
     qw_val_t *textval = qw_scope_eval_ref(env.engine, qw_ref(BUILTIN, 2));
     // type checks
     if(*widthval != QW_VAL_STRING){
-        qw_error(env.engine, "%s(width=) must be a string", FS(name));
+        qw_error(env.engine, "%x(width=) must be a string", FS(name));
     }
     if(*charval != QW_VAL_STRING){
-        qw_error(env.engine, "%s(char=) must be a string", FS(name));
+        qw_error(env.engine, "%x(char=) must be a string", FS(name));
     }
     if(*textval != QW_VAL_STRING){
         qw_error(env.engine, "invalid method bind");
@@ -532,12 +532,12 @@ static void _instr_pad(qw_env_t env, const char *name, bool left){
     derr_type_t etype = dstr_tosize_quiet(widthstr, &width, 10);
     if(etype){
         qw_error(env.engine,
-            "invalid width in %s(width=%x)", FS(name), FD_DBG(widthstr)
+            "invalid width in %x(width=%x)", FS(name), FD_DBG(widthstr)
         );
     }
     if(charstr.len != 1){
         qw_error(env.engine,
-            "invalid char in %s(char=%x)", FS(name), FD_DBG(charstr)
+            "invalid char in %x(char=%x)", FS(name), FD_DBG(charstr)
         );
     }
     // detect noop
-- 
2.43.0


From 8f7415cd948b60744009ab0c968aa9415feafe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:40 +0000
Subject: [PATCH 45/73] fix: check the right pointer in gathered_new

The result of malloc was never tested.
---
 libimaildir/dn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index ea21434..c32d898 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -2245,7 +2245,7 @@ static derr_t gathered_new(gathered_t **out, unsigned int uid_dn){
     *out = NULL;
 
     gathered_t *gathered = malloc(sizeof(*gathered));
-    if(!out) ORIG(&e, E_NOMEM, "nomem");
+    if(!gathered) ORIG(&e, E_NOMEM, "nomem");
     *gathered = (gathered_t){ .uid_dn = uid_dn };
 
     *out = gathered;
-- 
2.43.0


From 2cf7ca270c41b0b33081cf0dc9cf0e5a89986b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:40 +0000
Subject: [PATCH 46/73] fix: FETCH RFC822.TEXT: do not dereference a message
 that failed to parse

loader_parse_imf() returns NULL when loading or parsing fails.
---
 libimaildir/dn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index c32d898..67818c0 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1427,8 +1427,10 @@ static derr_t send_fetch_resp(
 
     if(fetch->attr->rfc822_text){
         const imf_t *imf = loader_parse_imf(&e, &loader);
-        ie_dstr_t *body = ie_dstr_from_off(&e, imf->body);
-        f = ie_fetch_resp_rfc822_text(&e, f, body);
+        if(!is_error(e)){
+            ie_dstr_t *body = ie_dstr_from_off(&e, imf->body);
+            f = ie_fetch_resp_rfc822_text(&e, f, body);
+        }
     }
 
     if(fetch->attr->rfc822_size){
-- 
2.43.0


From a75c232a27cde41d972c94fc588b1932ef6a9128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:40 +0000
Subject: [PATCH 47/73] fix: ie_fetch_attrs_copy: handle a failed allocation

ie_fetch_attrs_new() returns NULL when it fails or when e already holds an error.
---
 libimap/expression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libimap/expression.c b/libimap/expression.c
index 6d76b6f..03acdf1 100644
--- a/libimap/expression.c
+++ b/libimap/expression.c
@@ -1423,6 +1423,7 @@ ie_fetch_attrs_t *ie_fetch_attrs_copy(derr_t *e, const ie_fetch_attrs_t *old){
     if(!old) return NULL;
 
     ie_fetch_attrs_t *f = ie_fetch_attrs_new(e);
+    if(!f) return NULL;
     // copy everything but the *extras
     *f = *old;
     f->extras = NULL;
-- 
2.43.0


From b4a5bfa8a93aa4af0d32371ad07bf18323872f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 48/73] fix: duv_pipe_bind_with_lock: hand the locked fd to the
 caller

The success path fell into the cleanup code: the lock was dropped, the
descriptor was closed twice, and the caller was never given it.
---
 libduv/util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libduv/util.c b/libduv/util.c
index e51b485..10ee5dd 100644
--- a/libduv/util.c
+++ b/libduv/util.c
@@ -389,8 +389,15 @@ derr_t duv_pipe_bind_with_lock(
     // now bind
     PROP_GO(&e, duv_pipe_bind_path(pipe, sock), fail_lock);
 
+    // caller now owns the locked fd
+    *out = fd;
+
+    return e;
+
 fail_lock:
+    // also closes fd
     duv_unlock_fd(fd);
+    return e;
 fail_fd:
     close(fd);
     return e;
-- 
2.43.0


From 115359ff3ea1a61bf57aa0e9c7b750eeb24aa4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 49/73] fix: citm_listener_init: close the socket on failure

The listening socket leaked when it could not be given to libuv.
---
 libcitm/uv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcitm/uv.c b/libcitm/uv.c
index 4cfb903..5a3b0bb 100644
--- a/libcitm/uv.c
+++ b/libcitm/uv.c
@@ -353,6 +353,7 @@ static derr_t citm_listener_init(
     return e;
 
 fail:
+    if(fd != INVALID_SOCKET) compat_closesocket(fd);
     if(fdin && *fdin > -1){ compat_close(*fdin); *fdin = -1; }
     if(listener->ctx) SSL_CTX_free(listener->ctx);
     if(tcp_configured) duv_tcp_close(&listener->tcp, noop_close_cb);
-- 
2.43.0


From 2bb2bfd368c83542d9458cbac01f74dc608e4d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 50/73] fix: _read_pem_encoded_key: free the key when the input
 is too long

---
 libcrypto/crypto.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index ba9af35..6c8921f 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -238,7 +238,9 @@ static derr_t _read_pem_encoded_key(
     }
 
     // make sure pem isn't too long for OpenSSL
-    if(pem.len > INT_MAX) ORIG(&e, E_PARAM, "pem is way too long");
+    if(pem.len > INT_MAX){
+        ORIG_GO(&e, E_PARAM, "pem is way too long", fail_pkey);
+    }
     int pemlen = (int)pem.len;
 
     // wrap the pem-encoded key in an SSL memory BIO
-- 
2.43.0


From 802eb9fd0d5e127613c6269a030566ccd40ae5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 51/73] fix: gen_key: do not close the key file twice

When dfclose() failed, the already closed FILE was closed again.
---
 libcrypto/crypto.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libcrypto/crypto.c b/libcrypto/crypto.c
index 6c8921f..a6d1aeb 100644
--- a/libcrypto/crypto.c
+++ b/libcrypto/crypto.c
@@ -144,8 +144,7 @@ cleanup_1:
     bio = NULL;
 
     // done with f
-    PROP_GO(&e, dfclose(f), cu);
-    f = NULL;
+    PROP_GO(&e, dfclose2(&f), cu);
 
 cu:
     if(bio) BIO_free(bio);
-- 
2.43.0


From 0ebc09245b067d4c3ee5db14480754a7d5adbfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 52/73] fix: badbadbad_alert: close descriptors on every path

Each alert leaked a descriptor for /dev/urandom, and a socket when the
server could not be reached.
---
 server/badbadbad_alert.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/badbadbad_alert.c b/server/badbadbad_alert.c
index ebc4dca..1670b59 100644
--- a/server/badbadbad_alert.c
+++ b/server/badbadbad_alert.c
@@ -28,6 +28,7 @@ static derr_t get_tag(dstr_t* tag){
     // read 5 bytes
     DSTR_VAR(bin, 5);
     ssize_t amnt_read = read(fd, bin.data, bin.size);
+    close(fd);
     if(amnt_read < 5){
         // just return a non-empty trace
         TRACE(&e, "unable to read from /dev/urandom: %x\n", FE(errno));
@@ -170,7 +171,7 @@ static void send_to_badbadbad_server(
         // write buffer
         badbadbad_write_log(buff);
         // can't continue without a connection
-        ORIG_GO(&e, E_CONN, "connect error", fail);
+        ORIG_GO(&e, E_CONN, "connect error", fail_sock);
     }
 
     // prep the alert buffer
@@ -222,7 +223,6 @@ static void send_to_badbadbad_server(
 
 fail_sock:
     close(sock);
-fail:
     // this is just to make the log files clearer
     CATCH_ANY(&e){
         TRACE(&e, "failure in send_to_badbadbad_server(), continuing\n");
-- 
2.43.0


From ed18a3d86adf5004971048b9f90565651a99ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 53/73] fix: makecsr: check that the extension was stored

On failure the extension leaked and the request lacked its SAN.
---
 libacme/reqs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libacme/reqs.c b/libacme/reqs.c
index 998c388..a7da889 100644
--- a/libacme/reqs.c
+++ b/libacme/reqs.c
@@ -1853,7 +1853,11 @@ static derr_t makecsr(dstr_t domain, EVP_PKEY *pkey, dstr_t *out){
             E_SSL, "X509V3_EXT_conf_nid(SAN, %x): %x", done, FD(san), FSSL
         );
     }
-    sk_X509_EXTENSION_push(exts, ext);
+    ret = sk_X509_EXTENSION_push(exts, ext);
+    if(ret < 1){
+        X509_EXTENSION_free(ext);
+        ORIG_GO(&e, E_NOMEM, "sk_X509_EXTENSION_push()", done);
+    }
 
     ret = X509_REQ_add_extensions(csr, exts);
     if(ret == 0) ORIG_GO(&e, E_SSL, "X509_REQ_add_extensions: %x", done, FSSL);
-- 
2.43.0


From 7fd9753870c288742cfdfb8c609d36f1e3e1969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:42 +0000
Subject: [PATCH 54/73] fix: keydir: only discard a key file which is actually
 broken

A failure to read the key file (EMFILE, EACCES, out of memory) deleted
the user's private key and generated another one.
---
 libcitm/keydir.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/libcitm/keydir.c b/libcitm/keydir.c
index 0231cfa..ad37034 100644
--- a/libcitm/keydir.c
+++ b/libcitm/keydir.c
@@ -561,15 +561,18 @@ static derr_t _load_or_gen_mykey(
     PROP(&e, exists_path(&mykey_path, &have_key) );
 
     if(have_key){
-        IF_PROP(&e, keypair_load_private_path(out, &mykey_path) ){
-            // we must have hit an error reading the key
-            TRACE(&e, "failed to load mykey...\n");
-            DUMP(e);
-            DROP_VAR(&e);
+        derr_t e2 = keypair_load_private_path(out, &mykey_path);
+        CATCH(&e2, E_PARAM){
+            // the key file itself is broken
+            TRACE(&e2, "failed to load mykey...\n");
+            DUMP(e2);
+            DROP_VAR(&e2);
             LOG_ERROR("Failed to load mykey, generating a new one.\n");
             // delete the broken key
             PROP(&e, rm_rf_path(&mykey_path) );
         }else{
+            // never discard a key just because it was not readable just now
+            PROP_VAR(&e, &e2);
             // key was loaded successfully
             return e;
         }
@@ -598,15 +601,16 @@ static derr_t add_peer_key(
 
     string_builder_t path = sb_append(base, SBD(*file));
     keypair_t *kp;
-    IF_PROP(&e, keypair_load_public_path(&kp, &path) ){
-        // we must have hit an error reading the key
-        TRACE(&e, "deleting broken key '%x' after failure:\n", FSB(path));
-        DUMP(e);
-        DROP_VAR(&e);
+    derr_t e2 = keypair_load_public_path(&kp, &path);
+    CATCH(&e2, E_PARAM){
+        // the key file itself is broken
+        TRACE(&e2, "deleting broken key '%x' after failure:\n", FSB(path));
+        DUMP(e2);
+        DROP_VAR(&e2);
         // delete the broken key and exit
         PROP(&e, rm_rf_path(&path) );
         return e;
-    }
+    }else PROP_VAR(&e, &e2);
 
     keypair_t *copy;
     PROP_GO(&e, keypair_copy(kp, &copy), fail);
-- 
2.43.0


From c57e7f90f3552142a399e74932e6ae65e4f60c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:42 +0000
Subject: [PATCH 55/73] fix: acme_manager: only replace a key file which is
 actually broken

A failure to read keynew.pem replaced the key that an order may already
have been finalized with, so the certificate was installed with a key it
does not belong to; a failure to read jwk.json replaced the account key.
---
 libcitm/acme_manager.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index b2b94e6..ca23186 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -69,15 +69,16 @@ derr_t keygen_or_load(string_builder_t path, EVP_PKEY **out){
     PROP(&e, exists_path(&path, &ok) );
     if(ok){
         // read existing key
-        IF_PROP(&e, keyread(path, out) ){
+        derr_t e2 = keyread(path, out);
+        CATCH(&e2, E_PARAM){
             LOG_DEBUG(
                 "failed loading keynew @%x, will regen; error:\n%x",
                 FSB(path),
-                FD(e.msg)
+                FD(e2.msg)
             );
-            DROP_VAR(&e);
+            DROP_VAR(&e2);
             goto regen;
-        }
+        }else PROP_VAR(&e, &e2);
         // successfully loaded an existing key
         return e;
     }
@@ -101,11 +102,14 @@ static derr_t jwk_gen_or_load(string_builder_t path, key_i **out){
 
     // does the jwk file even exist? (avoid printing frivolous errors)
     bool ok;
-    PROP_GO(&e, exists_path2(path, &ok), gen_after_fail);
+    PROP_GO(&e, exists_path2(path, &ok), fail);
     if(!ok) goto gen_after_noexist;
 
     // try to read an existing file
-    PROP_GO(&e, dstr_read_path(&path, &buf), gen_after_fail);
+    derr_t e2 = dstr_read_path(&path, &buf);
+    CATCH(&e2, E_FIXEDSIZE){
+        PROP_VAR_GO(&e, &e2, gen_after_fail);
+    }else PROP_VAR_GO(&e, &e2, fail);
     PROP_GO(&e, json_to_key(buf, out), gen_after_fail);
 
     // successfully loaded existing key
-- 
2.43.0


From 10707894f42df769a4ccae01c02464bed66dd7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:42 +0000
Subject: [PATCH 56/73] fix: ui: migrate ditm keys atomically

A crash in mid-copy left half a key, which was not migrated again but
discarded as broken and replaced by a new key.
---
 libcli/ui.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libcli/ui.c b/libcli/ui.c
index c99af1d..b009a85 100644
--- a/libcli/ui.c
+++ b/libcli/ui.c
@@ -392,12 +392,14 @@ static derr_t migrate_ditm_keys_hook(
     string_builder_t citm_user = sb_append(&citm_path, SBD(*file));
     string_builder_t user_keys = sb_append(&citm_user, SBS("keys"));
     string_builder_t dst = sb_append(&user_keys, SBS("mykey.pem"));
+    string_builder_t tmp = sb_append(&user_keys, SBS("mykey.pem.tmp"));
     PROP(&e, exists_path(&dst, &ok) );
     if(ok) return e;
 
-    // do the migration
+    // do the migration; a half-copied key would never be migrated again
     PROP(&e, mkdirs_path(&user_keys, 0700) );
-    PROP(&e, file_copy_path(&src, &dst, 0600) );
+    PROP(&e, file_copy_path(&src, &tmp, 0600) );
+    PROP(&e, drename_atomic_path(&tmp, &dst) );
 
     return e;
 }
-- 
2.43.0


From 5679a1250fbd48392468ce2392e1eccf70f7366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:59 +0000
Subject: [PATCH 57/73] fix: acme_manager: erase a partially read jwk

---
 libcitm/acme_manager.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libcitm/acme_manager.c b/libcitm/acme_manager.c
index ca23186..b108a3c 100644
--- a/libcitm/acme_manager.c
+++ b/libcitm/acme_manager.c
@@ -138,6 +138,7 @@ gen_after_noexist:
     return e;
 
 fail:
+    dstr_zeroize(&buf);
     if(f) fclose(f);
     if(key) key->free(key);
     return e;
-- 
2.43.0


From 41027b3ad2a5c0deb1bd3c8c9620a8ac2a6a0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 58/73] fix: get_installation_challenge reports a NULL
 challenge as present

challenge_ok was computed from the output pointer itself, which is never
NULL, so an installation without a challenge was reported as having one.
The bind's indicator is true when the column is NULL.
---
 server/libsmsql.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/libsmsql.c b/server/libsmsql.c
index ec9eef1..09b09cf 100644
--- a/server/libsmsql.c
+++ b/server/libsmsql.c
@@ -1455,7 +1455,7 @@ derr_t get_installation_challenge(
     );
 
     // challenge might be NULL
-    char cchallenge_ok;
+    char challenge_null = 0;
 
     bool ok;
     PROP(&e,
@@ -1465,13 +1465,13 @@ derr_t get_installation_challenge(
             blob_bind_in(&inst_uuid),
             // results
             string_bind_out(subdomain),
-            string_bind_out_ex(challenge, &cchallenge_ok)
+            string_bind_out_ex(challenge, &challenge_null)
         )
     );
 
     if(ok){
         *subdomain_ok = true;
-        *challenge_ok = !!challenge_ok;
+        *challenge_ok = !challenge_null;
     }
 
     return e;
-- 
2.43.0


From c21b2f2992e9fedaf20c30566cd69c1cccc5bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 59/73] fix: a session timeout was never recorded

validate_session_auth voids a timed-out session so that the decision is
final, but it did so in a transaction which it then rolled back, because
the resulting E_USERMSG was raised from inside the transaction.  With a
clock step backwards, or another server's more recent last_seen arriving
late, the session came back to life.
---
 server/libsmsql.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server/libsmsql.c b/server/libsmsql.c
index 09b09cf..7b38c03 100644
--- a/server/libsmsql.c
+++ b/server/libsmsql.c
@@ -2199,9 +2199,11 @@ static derr_t _validate_session_auth_txn(
     int server_id,
     const dstr_t session_id,
     time_t now,
-    dstr_t *uuid
+    dstr_t *uuid,
+    bool *timed_out
 ){
     derr_t e = E_OK;
+    *timed_out = false;
 
     DSTR_STATIC(
         q1,
@@ -2258,7 +2260,8 @@ static derr_t _validate_session_auth_txn(
         ORIG_GO(&e, E_USERMSG, "not logged in", cu);
 
     /* Check timeouts.  In the timeout case, enforce that the decision is final
-       by actually setting void=True in the database */
+       by actually setting void=True in the database.  This is not an error
+       within the transaction, or the void bit would be rolled back. */
     if(
         now > login_res + SMSQL_SESSION_HARD_TIMEOUT
         || now > last_seen + SMSQL_SESSION_SOFT_TIMEOUT
@@ -2268,7 +2271,8 @@ static derr_t _validate_session_auth_txn(
                 sql, server_id, session_id, uuid_res, now, saw_our_server_id
             ),
         cu);
-        ORIG_GO(&e, E_USERMSG, "not logged in", cu);
+        *timed_out = true;
+        goto cu;
     }
 
     if(saw_our_server_id){
@@ -2334,12 +2338,17 @@ derr_t validate_session_auth(
 
     PROP(&e, sql_txn_start(sql) );
 
+    bool timed_out;
     PROP_GO(&e,
-        _validate_session_auth_txn(sql, server_id, session_id, now, uuid),
+        _validate_session_auth_txn(
+            sql, server_id, session_id, now, uuid, &timed_out
+        ),
     hard_fail);
 
     PROP(&e, sql_txn_commit(sql) );
 
+    if(timed_out) ORIG(&e, E_USERMSG, "not logged in");
+
     return e;
 
 hard_fail:
-- 
2.43.0


From 51229744cd30a0ed95a95e51e4f65047704912eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 60/73] fix: account_info returns uninitialized counts without
 aliases

sum() over no rows is NULL, which leaves the bound output untouched, so an
account without any aliases got whatever was on the caller's stack as its
number of aliases.  COUNT() is zero instead.
---
 server/libsmsql.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/libsmsql.c b/server/libsmsql.c
index 7b38c03..7409f6c 100644
--- a/server/libsmsql.c
+++ b/server/libsmsql.c
@@ -1752,8 +1752,8 @@ derr_t account_info(
     DSTR_STATIC(q1,
         "SELECT"
         "    (select COUNT(*) from devices where user_uuid=?) AS devices,"
-        "    sum(case when paid=true then 1 else 0 end) AS paids,"
-        "    sum(case when paid=false then 1 else 0 end) AS frees "
+        "    COUNT(case when paid=true then 1 end) AS paids,"
+        "    COUNT(case when paid=false then 1 end) AS frees "
         "FROM ("
         "    select paid from aliases where user_uuid=?"
         ") as x"
-- 
2.43.0


From 8ba6d9bf41300528f24d3016dbfbe6297ed540f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:58 +0000
Subject: [PATCH 61/73] fix: sql_onerow_query leaks its statement when there is
 no row

---
 server/mysql_util/mysql_util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/mysql_util/mysql_util.c b/server/mysql_util/mysql_util.c
index 148e8ba..2b39305 100644
--- a/server/mysql_util/mysql_util.c
+++ b/server/mysql_util/mysql_util.c
@@ -469,9 +469,9 @@ derr_t _sql_onerow_query(
         if(ok){
             *ok=false;
         }else{
-            ORIG(&e,
-                E_INTERNAL, "onerow query guaranteed a response but got none"
-            );
+            ORIG_GO(&e,
+                E_INTERNAL, "onerow query guaranteed a response but got none",
+            cu_stmt);
         }
     }
 
-- 
2.43.0


From 53d5ef7d71c692f3c3cebfe5d62a5053a6474a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:06 +0000
Subject: [PATCH 62/73] fix: dns: advance over the rdata in rrs_next

parse_rr() validates records including their rdata, but the iterator only
advanced over the record header, so the second and following records were read
from unvalidated (possibly out-of-bounds) positions.
---
 server/dns/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/dns/parse.c b/server/dns/parse.c
index 239a37b..1c0c8ae 100644
--- a/server/dns/parse.c
+++ b/server/dns/parse.c
@@ -460,7 +460,7 @@ rr_t *rrs_next(rrs_t *it){
     rr.rdoff = used;
 
     it->rr = rr;
-    it->pos = used;
+    it->pos = used + rr.rdlen;
     it->seen++;
 
     return &it->rr;
-- 
2.43.0


From 0bd45dcce650e3eaabb160b513dc58477cc318ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:06 +0000
Subject: [PATCH 63/73] fix: dns: do not read the name of a question that is
 not there

With qdcount=0 labels_read_reverse() read an unvalidated name, which could read
past the packet or follow a name pointer to itself forever.
---
 server/dns/dns.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/dns/dns.c b/server/dns/dns.c
index 00c86a7..55bc8e9 100644
--- a/server/dns/dns.c
+++ b/server/dns/dns.c
@@ -274,6 +274,10 @@ size_t handle_packet(
 
     LOG_DEBUG("%x", FPKT(pkt));
 
+    /* we only service one question at a time; in particular, without a
+       question no name has been validated */
+    if(pkt.hdr.qdcount != 1) return 0;
+
     /* save one label more than we'll ever read, so that sort_pkt can be aware
        of junk queries which are only junk because of the extra labels */
     lstr_t rname[6] = {0};
-- 
2.43.0


From 616be7cad9b45f6ba389f1d971bd2b93c541cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:06 +0000
Subject: [PATCH 64/73] fix: dns: recognize BP_ENDS_OPT_DATA_OVERRUN as a bad
 parse

---
 server/dns/parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/dns/parse.h b/server/dns/parse.h
index 733372c..e6ba4a7 100644
--- a/server/dns/parse.h
+++ b/server/dns/parse.h
@@ -18,7 +18,7 @@ derr_type_t _fmt_lstr_dbg(const fmt_i *iface, writer_i *out);
 bool lstr_ieq(const lstr_t a, const lstr_t b);
 
 typedef enum {
-    BP_MINVAL                = (size_t)-13,
+    BP_MINVAL                = (size_t)-14,
 
     BP_ENDS_OPT_DATA_OVERRUN = (size_t)-14,
     BP_ENDS_OPT_HDR_OVERRUN  = (size_t)-13,
-- 
2.43.0


From 9d1636df250a89823356f8cedc4cd01a744f4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:06 +0000
Subject: [PATCH 65/73] fix: dns: do not dereference a membuf after returning
 it

---
 server/dns/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/dns/main.c b/server/dns/main.c
index d9ced4c..fe7b76d 100644
--- a/server/dns/main.c
+++ b/server/dns/main.c
@@ -109,6 +109,8 @@ static void on_send(uv_udp_send_t *req, int status){
     globals_t *g = req->handle->data;
 
     membuf_t *membuf = CONTAINER_OF(req, membuf_t, req);
+    // g_membuf_return() takes the membuf away from us
+    struct sockaddr_storage ss = membuf->ss;
     g_membuf_return(g, &membuf);
 
     if(status == 0 || status == UV_ECANCELED) return;
@@ -119,13 +121,13 @@ static void on_send(uv_udp_send_t *req, int status){
        destination to uv_udp_send(), we can treat this error in the wireguard
        layer as if it were silently dropped by the network. */
     if(status == UV_EDESTADDRREQ){
-        LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOPS(&membuf->ss));
+        LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOPS(&ss));
         return;
     }
 
     // similarly, don't crash the service if one wg endpoint is misconfigured
     if(status == -ENOKEY){
-        LOG_ERROR("ENOKEY: dst=%x\n", FNTOPS(&membuf->ss));
+        LOG_ERROR("ENOKEY: dst=%x\n", FNTOPS(&ss));
         return;
     }
 
-- 
2.43.0


From 5032ab03503997a4e152d4d8958294bd72353701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:19 +0000
Subject: [PATCH 66/73] fix: kvpsend: keep a sender going after a failed send

sender->inwrite was never cleared after an EDESTADDRREQ or ENOKEY, so the
sender never sent another packet, even after its endpoint came back.
---
 server/kvpsend/main.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/server/kvpsend/main.c b/server/kvpsend/main.c
index 102f45e..e1c5e96 100644
--- a/server/kvpsend/main.c
+++ b/server/kvpsend/main.c
@@ -423,15 +423,16 @@ static void uv_sender_send_cb(uv_udp_send_t *req, int status){
            the whole service if one endpoint is misconfigured or offline */
         if(status == UV_EDESTADDRREQ){
             LOG_ERROR("EDESTADDRREQ: dst=%x\n", FNTOP(sender->addr));
-            return;
-        }
-        if(status == -ENOKEY){
+        }else if(status == -ENOKEY){
             LOG_ERROR("ENOKEY: dst=%x\n", FNTOP(sender->addr));
-            return;
+        }else{
+            ORIG_GO(&e,
+                uv_err_type(status),
+                "uv_sender_send_cb: %x",
+                fail,
+                FUV(status)
+            );
         }
-        ORIG_GO(&e,
-            uv_err_type(status), "uv_sender_send_cb: %x", fail, FUV(status)
-        );
     }
 
     PROP_GO(&e, sender_send_cb(&uv_k->k, sender, ktime(uv_k)), fail);
-- 
2.43.0


From 9c2603cb1d0a3330f2090b4b85f90a38ad0f86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:10 +0000
Subject: [PATCH 67/73] fix: imaildir: put each sent relay on the relays_sent
 list

link_list_append_list() appends the elements of a list head, not the element
itself, so the relay ended up on neither list.
---
 libimaildir/imaildir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index e381e4c..abe1fce 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1382,7 +1382,7 @@ derr_t imaildir_up_synced(imaildir_t *m, up_t *up, bool examining){
     imap_cmd_t *cmd = NULL;
     link_t *link;
     while((link = link_list_pop_first(&m->relays_unsent))){
-        link_list_append_list(&m->relays_sent, link);
+        link_list_append(&m->relays_sent, link);
 
         relay_t *relay = CONTAINER_OF(link, relay_t, link);
         cmd = imap_cmd_copy(&e, relay->cmd);
-- 
2.43.0


From 2e80c5929c0b865923e5dee3a5e6dbcb5ad694eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:10 +0000
Subject: [PATCH 68/73] fix: concat: do not lose the returned read while
 closing

link_list_prepend_list() moves the elements of a list head, not the element
itself, so the read was never completed.
---
 libduv/concat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libduv/concat.c b/libduv/concat.c
index 4003fa8..a72fc90 100644
--- a/libduv/concat.c
+++ b/libduv/concat.c
@@ -131,7 +131,7 @@ closing:
     // await the in-flight read
     if(c->reading) return;
     if(c->returned){
-        link_list_prepend_list(&c->reads, &c->returned->link);
+        link_list_prepend(&c->reads, &c->returned->link);
         c->returned = NULL;
     }
 
-- 
2.43.0


From 09dfc24f037cb7a63e7fb6e23fe6348b8f9524d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:10 +0000
Subject: [PATCH 69/73] fix: passthru: remember which request a queued write
 belongs to

write_cb() completes mem->req, which was only set by the immediate write path.
---
 libduv/passthru.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 278350e..8661b57 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -217,6 +217,7 @@ static void advance_state(duv_passthru_t *p){
         link = link_list_pop_first(&p->pool);
         passthru_write_mem_t *mem;
         mem = CONTAINER_OF(link, passthru_write_mem_t, link);
+        mem->req = req;
         dstr_t *dbufs = get_bufs_ptr(req);
         // get uv_buf_t array from provided dstr_t array
         uv_buf_t *bufs;
-- 
2.43.0


From fb8b339626ea24116975a48b03bef31e2f5a86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:10 +0000
Subject: [PATCH 70/73] fix: dn: do not leak the old view when gathering an
 update fails

---
 libimaildir/dn.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 67818c0..20919c9 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -2293,6 +2293,9 @@ static derr_t gather_update_meta(dn_t *dn, gather_t *gather, update_t *update){
         goto cu;
     }
 
+    // remove the old view
+    msg_view_t *old_view = CONTAINER_OF(node, msg_view_t, node);
+    msg_view_free(&old_view);
 
     // remember that this uid_dn is modified
     if(!jsw_afind(&gather->metas, &view->uid_dn, NULL)){
@@ -2301,10 +2304,6 @@ static derr_t gather_update_meta(dn_t *dn, gather_t *gather, update_t *update){
         jsw_ainsert(&gather->metas, &gathered->node);
     }
 
-    // remove the old view
-    msg_view_t *old_view = CONTAINER_OF(node, msg_view_t, node);
-    msg_view_free(&old_view);
-
     // add the new view, if msg was not expunged
     jsw_ainsert(&dn->views, &view->node);
     update->arg.meta = NULL;
-- 
2.43.0


From 5d7d16dc1a6bf06d468e0c61e7fb2315d8694b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:46 +0000
Subject: [PATCH 71/73] fix: api_client: report failures to start a token
 request

The delayed error was prepared but never scheduled, so the callback was never
called.
---
 api_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api_client.c b/api_client.c
index ed46725..bad1a38 100644
--- a/api_client.c
+++ b/api_client.c
@@ -752,6 +752,8 @@ fail:
     apic->e = e;
     // schedule ourselves for later (this is the only time we need that)
     schedulable_prep(&apic->schedulable, delayed_error);
+    scheduler_i *sched = &apic->http->scheduler->iface;
+    sched->schedule(sched, &apic->schedulable);
 }
 
 static derr_t mkreq_sync(
-- 
2.43.0


From 6e694d3b97e72dde719dbe3d355f93491737a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:17 +0000
Subject: [PATCH 72/73] fix: passthru: do not shut an idle stream down twice

advance_state() repeated the uv_shutdown() which passthru_shutdown() had already
issued, and failed the stream with ENOTCONN.
---
 libduv/passthru.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 8661b57..932363e 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -419,6 +419,7 @@ static void passthru_shutdown(stream_i *iface, stream_shutdown_cb shutdown_cb){
 
     // if possible, do the shutdown now to make the passthru transparent
     if(!p->writes.inflight){
+        p->shutdown.requested = true;
         int ret = uv_shutdown(&p->shutdown.req, p->uvstream, _shutdown_cb);
         if(ret < 0){
             TRACE_ORIG_UV(&p->e, ret);
-- 
2.43.0


From f4cafd0283891c383c08e341902affa62e1f7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:17 +0000
Subject: [PATCH 73/73] fix: passthru: begin closing when a write fails

Nothing else closes the stream when there is no read in progress.
---
 libduv/passthru.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libduv/passthru.c b/libduv/passthru.c
index 932363e..ddf3949 100644
--- a/libduv/passthru.c
+++ b/libduv/passthru.c
@@ -194,6 +194,8 @@ static void write_cb(uv_write_t *uvw, int status){
     }else{
         // failed write, put it in the failed list
         link_list_append(&p->writes.failed, &req->link);
+        // we may have just started failing, or may have been awaiting this write
+        advance_state(p);
     }
 }
 
-- 
2.43.0


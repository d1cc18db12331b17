From 694a60db25a824cb07aa5e2635103240050edc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:38 +0000
Subject: [PATCH 01/39] fix: accept inputs of up to 65535 bytes when blinding

The length of the input was an 8 bit value, so longer inputs were silently
cut to their length modulo 256: for example all 256 byte inputs were blinded
as the empty string. RFC 9497 allows inputs of up to 2^16-1 bytes, and
oprf_Finalize() as well as the python binding already use 16 bits.
---
 src/oprf.c | 6 +++---
 src/oprf.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oprf.c b/src/oprf.c
index 87fee33..a9d55e7 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -154,7 +154,7 @@ static void expand_loop(const uint8_t *b_0, const uint8_t *b_i, const uint8_t i,
  * 11. uniform_bytes = b_1 || ... || b_ell
  * 12. return substr(uniform_bytes, 0, len_in_bytes)
  */
-int expand_message_xmd(const uint8_t *msg, const uint8_t msg_len, const uint8_t *dst, const uint8_t dst_len, const uint8_t len_in_bytes, uint8_t *uniform_bytes) {
+int expand_message_xmd(const uint8_t *msg, const uint16_t msg_len, const uint8_t *dst, const uint8_t dst_len, const uint8_t len_in_bytes, uint8_t *uniform_bytes) {
   // 1.  ell = ceil(len_in_bytes / b_in_bytes)
   const unsigned ell = (len_in_bytes + crypto_hash_sha512_BYTES-1) / crypto_hash_sha512_BYTES;
 #ifdef TRACE
@@ -250,7 +250,7 @@ int expand_message_xmd(const uint8_t *msg, const uint8_t msg_len, const uint8_t
  * 2. P = ristretto255_map(uniform_bytes)
  * 3. return P
  */
-int voprf_hash_to_group(const uint8_t *msg, const uint8_t msg_len, uint8_t p[crypto_core_ristretto255_BYTES]) {
+int voprf_hash_to_group(const uint8_t *msg, const uint16_t msg_len, uint8_t p[crypto_core_ristretto255_BYTES]) {
   const uint8_t dst[] = "HashToGroup-"VOPRF"-\x00-ristretto255-SHA512";
   const uint8_t dst_len = (sizeof dst) - 1;
   uint8_t uniform_bytes[crypto_core_ristretto255_HASHBYTES]={0};
@@ -286,7 +286,7 @@ int voprf_hash_to_group(const uint8_t *msg, const uint8_t msg_len, uint8_t p[cry
  * the blinded version of x, an input to oprf_Evaluate
  * @return The function returns 0 if everything is correct.
  */
-int oprf_Blind(const uint8_t *x, const uint8_t x_len,
+int oprf_Blind(const uint8_t *x, const uint16_t x_len,
                uint8_t r[crypto_core_ristretto255_SCALARBYTES],
                uint8_t blinded[crypto_core_ristretto255_BYTES]) {
 #if (defined TRACE || defined CFRG_TEST_VEC)
diff --git a/src/oprf.h b/src/oprf.h
index c8569cb..6c04002 100644
--- a/src/oprf.h
+++ b/src/oprf.h
@@ -53,7 +53,7 @@ int oprf_Finalize(const uint8_t *x, const uint16_t x_len,
  * the blinded version of x, an input to oprf_Evaluate
  * @return The function returns 0 if everything is correct.
  */
-int oprf_Blind(const uint8_t *x, const uint8_t x_len,
+int oprf_Blind(const uint8_t *x, const uint16_t x_len,
                uint8_t r[crypto_core_ristretto255_SCALARBYTES],
                uint8_t blinded[crypto_core_ristretto255_BYTES]);
 
@@ -100,7 +100,7 @@ int oprf_Unblind(const uint8_t r[crypto_core_ristretto255_SCALARBYTES],
  * @param [in] msg_len: the length of the input
  * @param [out] p: the resulting ristretto255 point
  */
-int voprf_hash_to_group(const uint8_t *msg, const uint8_t msg_len, uint8_t p[crypto_core_ristretto255_BYTES]);
+int voprf_hash_to_group(const uint8_t *msg, const uint16_t msg_len, uint8_t p[crypto_core_ristretto255_BYTES]);
 
 /**
  * A utility function from the hash to curve CFRG IRTF draft/spec
@@ -109,7 +109,7 @@ int voprf_hash_to_group(const uint8_t *msg, const uint8_t msg_len, uint8_t p[cry
  * for domain separation tag), and produces a high entropy output in
  * uniform_bytes of length: len_in_bytes
  */
-int expand_message_xmd(const uint8_t *msg, const uint8_t msg_len, const uint8_t *dst, const uint8_t dst_len, const uint8_t len_in_bytes, uint8_t *uniform_bytes);
+int expand_message_xmd(const uint8_t *msg, const uint16_t msg_len, const uint8_t *dst, const uint8_t dst_len, const uint8_t len_in_bytes, uint8_t *uniform_bytes);
 
 #ifdef __EMSCRIPTEN__
 /**
-- 
2.43.0


From 5d2cb8d8cfdad6cc44fc15a6213d44e392dc8e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:38 +0000
Subject: [PATCH 02/39] fix: reject invalid group elements in
 toprf_thresholdcombine

A response that is not a valid group element was silently skipped and the
combination of the remaining responses returned as a success.
---
 src/toprf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index 88b74c9..de2545c 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -186,7 +186,9 @@ int toprf_thresholdcombine(const size_t response_len,
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   for(size_t i=0;i<response_len;i++) {
-    crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value);
+    if(crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value)) {
+      return 1;
+    }
   }
   return 0;
 }
-- 
2.43.0


From 4358bb8a5a5868c574e3f04d2ecff4e24cdeca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:21 +0000
Subject: [PATCH 03/39] fix: terminate loops over 255 shareholders

With n=255 the 8 bit loop counters never exceed n, so sharing, dealing and
verification kept running past the end of the arrays.
---
 src/dkg.c   | 8 ++++----
 src/toprf.c | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dkg.c b/src/dkg.c
index 4db1ef5..6ea947d 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -82,9 +82,9 @@ int dkg_start(const uint8_t n,
   }
 
   // calculate shares s_ij
-  for(uint8_t j=1;j<=n;j++) {
+  for(unsigned j=1;j<=n;j++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(t)*x^(t)
-    polynom(j, threshold, a, &shares[j-1]);
+    polynom((uint8_t) j, threshold, a, &shares[j-1]);
   }
 
   sodium_munlock(a,sizeof a);
@@ -147,9 +147,9 @@ int dkg_verify_commitments(const uint8_t n,
                            uint8_t fails[n],
                            uint8_t *fails_len) {
   *fails_len = 0;
-  for(uint8_t i=1;i<=n;i++) {
+  for(unsigned i=1;i<=n;i++) {
     if(i==self) continue;
-    int ret = dkg_verify_commitment(n, threshold, self, i, commitments[i-1], shares[i-1]);
+    int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
     if(-1 == ret) return ret;
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
diff --git a/src/toprf.c b/src/toprf.c
index de2545c..0e5ea1a 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -89,7 +89,8 @@ void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYT
   for(i=0;i<threshold-1;i++) {
     crypto_core_ristretto255_scalar_random(a[i]);
   }
-  for(i=1;i<=n;i++) {
+  for(unsigned idx=1;idx<=n;idx++) {
+    i=(uint8_t) idx;
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(k−1)*x^(k−1)
     shares[i-1].index=i;
     uint8_t x[crypto_core_ristretto255_SCALARBYTES]={0};
-- 
2.43.0


From 2549b922431b8d58f915950541351a2e402fa519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:22 +0000
Subject: [PATCH 04/39] fix: set the index of the part returned by
 toprf_Evaluate

The first byte of the serialized part was never written, so uninitialized
memory of the caller went out instead of the index of the shareholder.
---
 src/toprf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toprf.c b/src/toprf.c
index 0e5ea1a..ad1ce66 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -171,6 +171,7 @@ int toprf_Evaluate(const uint8_t _k[TOPRF_Share_BYTES],
   crypto_core_ristretto255_scalar_mul(kl, k->value, lpoly);
 
   TOPRF_Part *Z=(TOPRF_Part*) _Z;
+  Z->index=k->index;
   if(oprf_Evaluate(kl,blinded, Z->value)) return 1;
 
   return 0;
-- 
2.43.0


From cc5ee94138a9668d9840ef0f0cc8c5be51892312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:22 +0000
Subject: [PATCH 05/39] fix: report dealers with invalid commitments

dkg_verify_commitments() stopped at the first commitment which is not a valid
group element without adding its dealer to the list of failures, so neither
this dealer nor any faulty one following it was ever complained about.
---
 src/dkg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dkg.c b/src/dkg.c
index 6ea947d..e4c8cd4 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -150,8 +150,9 @@ int dkg_verify_commitments(const uint8_t n,
   for(unsigned i=1;i<=n;i++) {
     if(i==self) continue;
     int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
-    if(-1 == ret) return ret;
     if(0 == ret) continue;
+    // either the share does not match or the commitments are invalid,
+    // in both cases we complain about P_i
     fails[(*fails_len)++] = (uint8_t) i;
   }
   if(*fails_len!=0) return 1;
-- 
2.43.0


From becfa1891dfc719d121b1efa9516abbb36d46fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:22 +0000
Subject: [PATCH 06/39] fix: refuse non-canonical shares when verifying
 commitments

A share with its top bit set passes verification, since the bit is ignored
when multiplying the generator, but it changes the sum of the shares. A dealer
could thereby give selected peers shares that do not belong to the result.
---
 src/dkg.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dkg.c b/src/dkg.c
index e4c8cd4..7397f35 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -102,6 +102,18 @@ int dkg_verify_commitment(const uint8_t n,
   //dump(j,sizeof(j), "\nj        ");
 
   if(i==self) return 0;
+
+  // only canonical shares are acceptable: the unused top bit is ignored
+  // by the multiplication below, but not by the addition in dkg_finish
+  uint8_t wide[crypto_core_ristretto255_NONREDUCEDSCALARBYTES]={0};
+  uint8_t reduced[crypto_core_ristretto255_SCALARBYTES];
+  memcpy(wide, share.value, sizeof share.value);
+  crypto_core_ristretto255_scalar_reduce(reduced, wide);
+  if(sodium_memcmp(reduced, share.value, sizeof reduced)!=0) {
+    if(debug) fprintf(stderr, "\e[0;31mnon-canonical share from P_%d\e[0m\n", i);
+    return 1;
+  }
+
   uint8_t v0[crypto_core_ristretto255_BYTES];
 
   // v0 = g*(s_ij)
-- 
2.43.0


From 18ad10403ea0cb13bc923061c296df99c6cd1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:03 +0000
Subject: [PATCH 07/39] fix: sign and verify message bodies, not only their
 headers

---
 src/tp-dkg.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 23b8a80..4bde41d 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -118,7 +118,7 @@ static int send_msg(uint8_t* msg_buf, const size_t msg_buf_len, const uint8_t ms
   msg->ts = htonll((uint64_t)time(NULL));
   memcpy(msg->sessionid, sessionid, tpdkg_sessionid_SIZE);
 
-  crypto_sign_detached(msg->sig, NULL, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_sk);
+  crypto_sign_detached(msg->sig, NULL, &msg->msgno, msg_buf_len - crypto_sign_BYTES, sig_sk);
   return 0;
 }
 
@@ -141,14 +141,8 @@ static int recv_msg(const uint8_t *msg_buf, const size_t msg_buf_len, const uint
   }
 #endif
 
-  const size_t unsigned_buf_len = msg_buf_len - crypto_sign_BYTES;
-
-  uint8_t with_sessionid[unsigned_buf_len + tpdkg_sessionid_SIZE];
-  memcpy(with_sessionid, msg_buf + crypto_sign_BYTES, unsigned_buf_len);
-  memcpy(with_sessionid + unsigned_buf_len, sessionid, tpdkg_sessionid_SIZE);
-
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_pk)) return 6;
+  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, msg_buf_len - crypto_sign_BYTES, sig_pk)) return 6;
 #endif
 
   return 0;
-- 
2.43.0


From 589794ed989a454792759607d2e223667e6bf127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:33 +0000
Subject: [PATCH 08/39] fix: refuse to start a DKG with a threshold below 2

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 4bde41d..c32b454 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -621,7 +621,7 @@ int tpdkg_start_tp(TP_DKG_TPState *ctx, const uint64_t ts_epsilon,
              const char *proto_name, const size_t proto_name_len,
              const size_t msg0_len, TP_DKG_Message *msg0) {
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step 0. start protocol\e[0m\n");
-  if(2>n || t>=n || n>128) return 1;
+  if(2>n || 2>t || t>=n || n>128) return 1;
   if(proto_name_len<1) return 2;
   if(proto_name_len>1024) return 3;
   if(msg0_len != tpdkg_msg0_SIZE) return 4;
-- 
2.43.0


From 2233801bbdab25c384fcfa1755b62ce80b2c1329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:36 +0000
Subject: [PATCH 09/39] fix: fail the step when a channel handshake fails

The session was freed but still used by later steps and freed again by
tpdkg_peer_free().
---
 src/tp-dkg.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index c32b454..eb154b4 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -169,11 +169,13 @@ static int tpdkg_init_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 3;
   }
 
   if(cipher_msg_len!=noise_xk_handshake1_SIZE) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     free(cipher_msg);
     return 4;
   }
@@ -200,6 +202,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_rcode ret = Noise_XK_session_read(&encap_msg, *session, noise_xk_handshake1_SIZE, inmsg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 2;
   }
 
@@ -207,6 +210,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 3;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -218,11 +222,13 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 4;
   }
 
   if(cipher_msg_len!=noise_xk_handshake2_SIZE) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     free(cipher_msg);
     return 4;
   }
@@ -245,12 +251,14 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
     Noise_XK_peer_t *peer = Noise_XK_device_lookup_peer_by_id(ctx->dev, peer_id);
     if(peer==NULL) {
       Noise_XK_session_free(*session);
+      *session=NULL;
       return 2;
     }
     uint8_t *pinfo;
     Noise_XK_peer_get_info((Noise_XK_noise_string*) &pinfo, peer);
     if(pinfo==NULL) {
       Noise_XK_session_free(*session);
+      *session=NULL;
       return 3;
     }
     fprintf(log_file, "[%d] finishing noise session -> %s\n", ctx->index, pinfo);
@@ -262,6 +270,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   if(!Noise_XK_rcode_is_success(ret)) {
     if(log_file!=NULL) fprintf(log_file, "session read fail: %d\n", ret.val.case_Error);
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 4;
   }
 
@@ -269,6 +278,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 5;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -850,7 +860,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg4 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data);
+    if(0!=tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data)) return 6;
     if(0!=send_msg(wptr, tpdkg_msg4_SIZE, 4, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 5;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg4->msgno, msg4->from, msg4->to);
@@ -913,7 +923,7 @@ static int peer_step7_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg5 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data);
+    if(0!=tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data)) return 5;
     if(0!=send_msg(wptr, tpdkg_msg5_SIZE, 5, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 4;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg5->msgno, msg5->from, msg5->to);
@@ -941,7 +951,7 @@ static int peer_step911_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(0!=ret) return 64+ret;
     ptr+=tpdkg_msg5_SIZE;
     // process final step of noise handshake
-    tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data);
+    if(0!=tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data)) return 5;
   }
 
   TP_DKG_Message* msg6 = (TP_DKG_Message*) output;
-- 
2.43.0


From 8d83fb8173738bb9da4b9e56578048e421351c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:07 +0000
Subject: [PATCH 10/39] fix: initialise the session arrays of a peer

tpdkg_peer_free() freed whatever the caller's buffers held if a run
stopped before all sessions were created.
---
 src/tp-dkg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index eb154b4..89eac14 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -586,7 +586,11 @@ void tpdkg_peer_set_bufs(TP_DKG_PeerState *ctx,
   ctx->complaints = complaints;
   ctx->my_complaints = my_complaints;
   ctx->last_ts = last_ts;
-  for(uint8_t i=0;i<ctx->n;i++) ctx->last_ts[i]=0;
+  for(uint8_t i=0;i<ctx->n;i++) {
+    ctx->last_ts[i]=0;
+    (*ctx->noise_outs)[i]=NULL;
+    (*ctx->noise_ins)[i]=NULL;
+  }
 }
 
 int tpdkg_tp_not_done(const TP_DKG_TPState *tp) {
-- 
2.43.0


From 6c5d2348c82382c5b960ec6100756125271f6201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:43 +0000
Subject: [PATCH 11/39] fix: do not log to a NULL stream when routing fails

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 89eac14..9c7bbc3 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -893,7 +893,7 @@ static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const si
       if(0!=ret) {
         if(add_cheater(ctx, 6 + (ctx->step - 1) * 2, 64+ret, j+1, i+1) == NULL) return 7;
         TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
-        fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
+        if(log_file!=NULL) fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
         dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
         continue;
       }
-- 
2.43.0


From 92766be47189d89bc9404b73e5a58b7c269cafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:14 +0000
Subject: [PATCH 12/39] fix: end the protocol for peers not accused when there
 are complaints

---
 src/tp-dkg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 9c7bbc3..9e90a23 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1313,6 +1313,8 @@ static int peer_step17a_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] nothing to defend against, no message to send\n", ctx->index);
     }
+    // complaints end the protocol for all peers, also for those not accused
+    ctx->step=99;
     return 0;
   }
 
-- 
2.43.0


From 5c7e2a881ad8018529769437a04f1ba30f5c6ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:51 +0000
Subject: [PATCH 13/39] fix: blame the accused, not the complainer, for an
 unanswered complaint

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 9e90a23..06eb592 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1483,7 +1483,7 @@ static int tp_step18_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
 
   for(int i=0;i<ctx->complaints_len;i++) {
     if(complaints[i] != 0xffff) {
-      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] >> 8), (uint8_t) (complaints[i] & 0xff)) == NULL) return 4;
+      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] & 0xff), (uint8_t) (complaints[i] >> 8)) == NULL) return 4;
     }
   }
 
-- 
2.43.0


From 695b9afe3b29b9ebd3b18a2ed9df2445946f7eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:20 +0000
Subject: [PATCH 14/39] fix: report peers whose long-term signature does not
 verify

---
 src/tp-dkg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 06eb592..24c4ef6 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -806,7 +806,10 @@ static int tp_step4_handler(TP_DKG_TPState *ctx, const uint8_t *msg2s, const siz
       dump(ptr, tpdkg_msg2_SIZE, "msg");
     }
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) return 3;
+    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) {
+      if(add_cheater(ctx, 4, 64+6, i+1,0xff) == NULL) return 7;
+      continue;
+    }
 #endif
     int ret = recv_msg(ptr, tpdkg_msg2_SIZE, 2, i+1, 0xff, msg->data, ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) {
-- 
2.43.0


From d0f99056e2caca6f439a15fb799b7304b2111cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:51 +0000
Subject: [PATCH 15/39] fix: fail if a peer does not confirm the end of the
 protocol

---
 src/tp-dkg.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 24c4ef6..a831ecb 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1612,6 +1612,7 @@ static int tp_step22_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(log_file!=NULL) {
         fprintf(log_file,"\e[0;31m[!] failed to get ack from %d!\e[0m\n", i);
       }
+      if(add_cheater(ctx, 22, 1, i+1, 0) == NULL) return 6;
     }
   }
   if(ctx->cheater_len>0) return 5;
@@ -1767,6 +1768,13 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     }
     snprintf(out,outlen, "invalid error code for step 20: %d", c->error);
     return 0;
+  } else if(c->step==22) {
+    if(c->error == 1) {
+      snprintf(out,outlen, "peer %d did not confirm the end of the protocol", c->peer);
+      return c->peer;
+    }
+    snprintf(out,outlen, "invalid error code for step 22: %d", c->error);
+    return 0;
   }
   snprintf(out,outlen, "invalid step %d", c->step);
   return 0;
-- 
2.43.0


From 75936add70b0f9b7359a294677ca778d7e79e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:25 +0000
Subject: [PATCH 16/39] fix: name the cheater and the right reason for every
 recorded violation

Wrong message lengths and session ids, and all invalid transcript
messages were not attributed to anybody, some reasons of step 18 were
mixed up.
---
 src/tp-dkg.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index a831ecb..9ea2523 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1695,7 +1695,7 @@ char* tpdkg_recv_err(const int code) {
 }
 
 uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outlen) {
-  if(c->error>65 && c->error<=70) {
+  if(c->error>64 && c->error<=71) {
       snprintf(out, outlen, "step %d message from peer %d for peer %d could not be validated: %s",
                c->step, c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x3f));
       return c->peer;
@@ -1714,26 +1714,26 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     snprintf(out,outlen, "invalid error code for step 16: %d", c->error);
     return 0;
   } else if(c->step==18) {
-    if(c->error & 16) {
+    if(c->error>16 && c->error<=23) {
       snprintf(out, outlen, "message containing encrypted share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0xf));
       return c->peer;
-    } else if (c->error & 32) {
+    } else if (c->error>32 && c->error<=39) {
       snprintf(out, outlen, "message revealing key encrypting share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x1f));
       return c->peer;
     }
     switch(c->error) {
     case 3: {
-      snprintf(out,outlen, "accused peer %d revealed a key (for peer %d) that was not complained about", c->peer, c->other_peer);
+      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 4: {
-      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
+      snprintf(out,outlen, "decryption of the share from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 5: {
-      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->other_peer, c->invalid_index);
+      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->invalid_index, c->other_peer);
       return c->peer;
     }
     case 6: {
@@ -1765,6 +1765,9 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     if(c->error == 1) {
       snprintf(out,outlen, "transcript mismatch peer %d", c->peer);
       return c->peer;
+    } else if(c->error > 1 && c->error <= 8) {
+      snprintf(out,outlen, "message containing transcript from peer %d could not be validated: %s", c->peer, tpdkg_recv_err(c->error - 1));
+      return c->peer;
     }
     snprintf(out,outlen, "invalid error code for step 20: %d", c->error);
     return 0;
-- 
2.43.0


From ef9a211b5a86e7f118bb0ea6f88908e3ef7414d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:23 +0000
Subject: [PATCH 17/39] fix: convert the message length when bounding
 complaints

The big-endian length made the bound useless, so complaint counts
larger than the message were read past its end.
---
 src/tp-dkg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 9ea2523..5f2a6b7 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1207,10 +1207,10 @@ static int tp_step16_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(add_cheater(ctx, 16, 64+ret, i+1, 0xff) == NULL) return 6;
       continue;
     }
-    if(msg->len - sizeof(TP_DKG_Message) < msg->data[0]) return 4;
+    if(ntohl(msg->len) - sizeof(TP_DKG_Message) < msg->data[0]) return 4;
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg->data[0] && (k+1)<msg->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg->data[0] && (k+1)<ntohl(msg->len)-sizeof(TP_DKG_Message);k++) {
       if(msg->data[k+1] > ctx->n || msg->data[k+1] < 1) {
         if(add_cheater(ctx, 16, 7, i+1, msg->data[k+1]) == NULL) return 6;
         continue;
@@ -1281,10 +1281,10 @@ static int peer_step17_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
     }
     ret = recv_msg(ptr, tpdkg_msg9_SIZE(ctx), 9, i+1, 0xff, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) return 32+ret;
-    if(msg9->len - sizeof(TP_DKG_Message) < msg9->data[0]) return 5;
+    if(ntohl(msg9->len) - sizeof(TP_DKG_Message) < msg9->data[0]) return 5;
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg9->data[0] && (k+1)<msg9->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg9->data[0] && (k+1)<ntohl(msg9->len)-sizeof(TP_DKG_Message);k++) {
       uint16_t pair=(uint16_t) (((i+1)<<8) | msg9->data[k+1]);
       int j=0;
       for(j=0;j<ctx->complaints_len;j++) if(ctx->complaints[j]==pair) break;
-- 
2.43.0


From 9e14300308e1fffd0f5b6c96977966525be7e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:31 +0000
Subject: [PATCH 18/39] fix: report peers that complain about more than t peers

---
 src/tp-dkg.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 5f2a6b7..dd28b0a 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1207,6 +1207,11 @@ static int tp_step16_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(add_cheater(ctx, 16, 64+ret, i+1, 0xff) == NULL) return 6;
       continue;
     }
+    // a peer complaining about more than t peers is a cheater
+    if(msg->data[0] > ctx->t) {
+      if(add_cheater(ctx, 16, 9, i+1, 0xfe) == NULL) return 6;
+      continue;
+    }
     if(ntohl(msg->len) - sizeof(TP_DKG_Message) < msg->data[0]) return 4;
 
     // keep a copy all complaint pairs (complainer, complained)
@@ -1710,6 +1715,9 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     } else if(c->error == 8) {
       snprintf(out, outlen, "peer %d sent a duplicate complaint about peer %d.", c->peer, c->other_peer);
       return c->peer;
+    } else if(c->error == 9) {
+      snprintf(out, outlen, "peer %d complained about more than t peers.", c->peer);
+      return c->peer;
     }
     snprintf(out,outlen, "invalid error code for step 16: %d", c->error);
     return 0;
-- 
2.43.0


From cb72918f20043025a674546a94010cf0fa875d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:46 +0000
Subject: [PATCH 19/39] fix: free the peers and the storage key of a channel
 device

Noise_XK_device_free released the list of peers but not its elements, and
not the symmetric key of the device. Every participant of a key generation
leaked them.
---
 src/noise_xk/src/XK.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/noise_xk/src/XK.c b/src/noise_xk/src/XK.c
index d928b67..7a385e9 100644
--- a/src/noise_xk/src/XK.c
+++ b/src/noise_xk/src/XK.c
@@ -608,8 +608,12 @@ void Noise_XK_device_free(Noise_XK_device_t *dvp)
   if (!(str == NULL))
     KRML_HOST_FREE(str);
   KRML_HOST_FREE(dv.dv_info);
+  // the list does not own its elements
+  while (!(*dv.dv_peers == NULL))
+    Noise_XK_device_remove_peer(dvp, (*dv.dv_peers)->data->p_id);
   free__Impl_Noise_API_Device_raw_peer_p_or_null_raw_Impl_Noise_API_Device_raw_peer_t_raw_uint32_t_Impl_Noise_String_hstring__uint8_t____(dv.dv_peers);
   KRML_HOST_FREE(dv.dv_peers);
+  KRML_HOST_FREE(dv.dv_sk);
   KRML_HOST_FREE(dv.dv_spriv);
   KRML_HOST_FREE(dv.dv_spub);
   if (!(dv.dv_prologue.buffer == NULL))
-- 
2.43.0


From fd0672564f7a1bf6571c306deaf213a35a7db89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:21 +0000
Subject: [PATCH 20/39] fix: end the run of the trusted party when collecting
 complaints fails

A failed step 16 left the trusted party in a state that reports not being
done and accepts further steps.
---
 src/tp-dkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index dd28b0a..0aca280 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1636,6 +1636,7 @@ int tpdkg_tp_next(TP_DKG_TPState *ctx, const uint8_t *input, const size_t input_
   case 5: {ret = tp_step14_handler(ctx, input, input_len, output, output_len); break;}
   case 6: {
     ret = tp_step16_handler(ctx, input, input_len, output, output_len);
+    if(ret!=0) break;
     ctx->prev = ctx->step;
     if(ctx->complaints_len == 0) {
       // we skip over to step 21
-- 
2.43.0


From 4e7e2e3ebc84235d044bc35a1dbb9450336dddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:39 +0000
Subject: [PATCH 21/39] fix: refuse OPRF inputs that are not bytes or do not
 fit the length field in the Python bindings

blind() and finalize() passed inputs longer than 65535 bytes on with a
truncated length, and the characters of a str as wide characters.
---
 python/pyoprf/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index bac9ce0..d07b428 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -79,6 +79,10 @@ def keygen() -> bytes:
 #               uint8_t r[crypto_core_ristretto255_SCALARBYTES],
 #               uint8_t blinded[crypto_core_ristretto255_BYTES]);
 def blind(x: bytes) -> (bytes, bytes):
+    if not isinstance(x, bytes):
+        raise ValueError("x is not of type bytes")
+    if len(x) > (1<<16)-1:
+        raise ValueError("x is too long")
     r =       ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
     blinded = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_BYTES)
     __check(liboprf.oprf_Blind(x, ctypes.c_size_t(len(x)), r, blinded))
@@ -168,6 +172,10 @@ def unblind(r: bytes, Z: bytes) -> bytes:
 #                  const uint8_t N[crypto_core_ristretto255_BYTES],
 #                  uint8_t rwdU[OPRF_BYTES]);
 def finalize(x: bytes, N: bytes) -> bytes:
+    if not isinstance(x, bytes):
+        raise ValueError("x is not of type bytes")
+    if len(x) > (1<<16)-1:
+        raise ValueError("x is too long")
     if len(N) != pysodium.crypto_core_ristretto255_BYTES:
         raise ValueError("param N has incorrect length")
     if not isinstance(N, bytes):
-- 
2.43.0


From 248e40ce1dc1d793d03cdfd325b8c864d5bbffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:39 +0000
Subject: [PATCH 22/39] fix: make coeff() of the Python bindings usable and
 check its arguments

The list of peers cannot be converted by ctypes, so every call raised an
ArgumentError. The check for at least two peers lacked its raise.
---
 python/pyoprf/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index d07b428..b6c5d32 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -204,9 +204,13 @@ TOPRF_Part_BYTES=pysodium.crypto_core_ristretto255_BYTES+1
 # @param [out] result - the lagrange coefficient
 #void coeff(const int index, const int peers_len, const uint8_t peers[peers_len], uint8_t result[crypto_scalarmult_ristretto255_SCALARBYTES]);
 def coeff(index: int, peers: list) -> bytes:
-    if index < 1: raise ValueError("index must be positive integer")
-    if len(peers) < 2: ValueError("peers must be a list of at least 2 integers")
+    if index < 1 or index > 255: raise ValueError("index outside valid range")
+    if len(peers) < 2: raise ValueError("peers must be a list of at least 2 integers")
+    if len(peers) > 255: raise ValueError("too many peers")
+    if(not all(i>0 and i<256 for i in peers)):
+        raise ValueError("peer(s) outside valid range")
     peers_len=ctypes.c_size_t(len(peers))
+    peers=bytes(peers)
     c = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
     liboprf.coeff(index, peers_len, peers, c)
     return c.raw
-- 
2.43.0


From 9fa8d1215bb52ef633aa50d1e9b3a9f4b224f2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:39 +0000
Subject: [PATCH 23/39] fix: check the number of shares in create_shares() and
 dkg_start() of the Python bindings

The library takes n as a byte, larger values wrapped around and left most
of the returned shares empty. toprf_create_shares() also returns nothing
that could be checked.
---
 python/pyoprf/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index b6c5d32..8a617bf 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -242,8 +242,10 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
         raise ValueError("t cannot be bigger than n")
     if t < 2:
         raise ValueError("t must be bigger than 1")
+    if n > 255:
+        raise ValueError("n must be smaller than 256")
     shares = ctypes.create_string_buffer(n*TOPRF_Share_BYTES)
-    __check(liboprf.toprf_create_shares(secret, n, t, shares))
+    liboprf.toprf_create_shares(secret, n, t, shares)
     return tuple([bytes(s) for s in split_by_n(shares.raw, TOPRF_Share_BYTES)])
 
 
@@ -392,6 +394,8 @@ def dkg_start(n : int, t : int) -> (bytes, bytes, bytes_list_t):
         raise ValueError("t cannot be bigger than n")
     if t < 2:
         raise ValueError("t must be bigger than 1")
+    if n > 255:
+        raise ValueError("n must be smaller than 256")
     shares = ctypes.create_string_buffer(n*TOPRF_Share_BYTES)
     commitments = ctypes.create_string_buffer(t*pysodium.crypto_core_ristretto255_BYTES)
 
-- 
2.43.0


From b426a1ed78a0f90b45f1106a8e7863ce28ab76aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:40 +0000
Subject: [PATCH 24/39] fix: raise the error for less than two responses in the
 Python bindings

thresholdmult() and threshold_combine() created the exception without
raising it.
---
 python/pyoprf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 8a617bf..90b0138 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -268,7 +268,7 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
 #                        const uint8_t responses[response_len][TOPRF_Part_BYTES],
 #                        uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def thresholdmult(responses: bytes_list_t) -> bytes:
-    if len(responses) < 2: ValueError("responses must be a list of at least 2 integers")
+    if len(responses) < 2: raise ValueError("responses must be a list of at least 2 integers")
     if not all(isinstance(r,bytes) for r in responses):
         raise ValueError("at least one of the responses is not of type bytes")
     if not all(len(r)==TOPRF_Part_BYTES for r in responses):
@@ -343,7 +343,7 @@ def threshold_evaluate(k: bytes, blinded: bytes, self: int, indexes: list) -> by
 #                            const uint8_t _responses[response_len][TOPRF_Part_BYTES],
 #                            uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def threshold_combine(responses: bytes_list_t) -> bytes:
-    if len(responses) < 2: ValueError("responses must be a list of at least 2 integers")
+    if len(responses) < 2: raise ValueError("responses must be a list of at least 2 integers")
     if not all(isinstance(r,bytes) for r in responses):
         raise ValueError("at least one of the responses is not of type bytes")
     if not all(len(r)==TOPRF_Part_BYTES for r in responses):
-- 
2.43.0


From 4dbfb2b466d68a140343d242de56d099bca1eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:40 +0000
Subject: [PATCH 25/39] fix: refuse more indexes than fit the length field in
 threshold_evaluate()

---
 python/pyoprf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 90b0138..364b697 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -321,6 +321,8 @@ def threshold_evaluate(k: bytes, blinded: bytes, self: int, indexes: list) -> by
         raise ValueError("self outside valid range")
     if(not all(i>0 and i<256 for i in indexes)):
         raise ValueError("index(es) outside valid range")
+    if len(indexes) > 255:
+        raise ValueError("too many indexes")
     index_len=ctypes.c_uint16(len(indexes))
 
     indexes_buf=ctypes.create_string_buffer(bytes(indexes))
-- 
2.43.0


From bd18a3450e9ad27afdae300146764b8e353cf91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:40 +0000
Subject: [PATCH 26/39] fix: return the failed dealers from
 dkg_verify_commitments() of the Python bindings

The library signals failed dealers with a return value of 1, which was
turned into an exception, so that the caller never got the list. Also
check n and the type and size of the commitments and of each share.
---
 python/pyoprf/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 364b697..8ecf5c0 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -420,10 +420,16 @@ def dkg_verify_commitments(n: int, t: int, self: int,
         raise ValueError("t cannot be bigger than n")
     if t < 2:
         raise ValueError("t must be bigger than 1")
+    if n > 255:
+        raise ValueError("n must be smaller than 256")
     if self < 1 or self > n:
         raise ValueError("self must 1 <= self <= n")
+    if not isinstance(commitments, bytes):
+        raise ValueError("commitments is not of type bytes")
     if len(commitments) != n*t*pysodium.crypto_core_ristretto255_BYTES:
         raise ValueError(f"signed_commitments must be {n*t*pysodium.crypto_core_ristretto255_BYTES} bytes is instead: {len(commitments)}")
+    if not all(len(s)==TOPRF_Share_BYTES for s in shares):
+        raise ValueError("at least one of the shares is not of correct size")
     shares = b''.join(shares)
     if len(shares) != n*TOPRF_Share_BYTES:
         raise ValueError(f"shares must be {TOPRF_Share_BYTES*n} bytes is instead {len(shares)}")
@@ -431,9 +437,11 @@ def dkg_verify_commitments(n: int, t: int, self: int,
     shares = ctypes.create_string_buffer(shares)
     fails = ctypes.create_string_buffer(n)
     fails_len = ctypes.c_uint8()
-    __check(liboprf.dkg_verify_commitments(n, t, self,
-                                           commitments, shares,
-                                           fails, ctypes.byref(fails_len)))
+    ret = liboprf.dkg_verify_commitments(n, t, self,
+                                         commitments, shares,
+                                         fails, ctypes.byref(fails_len))
+    # a non-zero result with a list of fails is not an error of this call
+    if fails_len.value == 0: __check(ret)
     return fails[:fails_len.value]
 
 #void dkg_finish(const uint8_t n,
-- 
2.43.0


From 21d956680f60ec3dc8fb362dd2431b2535e785f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:40 +0000
Subject: [PATCH 27/39] fix: check the sizes of the arguments of dkg_finish()
 and dkg_reconstruct() in the Python bindings

dkg_reconstruct() let the library read past the end of responses that
are too short.
---
 python/pyoprf/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 8ecf5c0..44b7704 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -449,8 +449,12 @@ def dkg_verify_commitments(n: int, t: int, self: int,
 #                const uint8_t self,
 #                TOPRF_Share *xi);
 def dkg_finish(n: int, shares: List[bytes], self: int, ) -> bytes:
+    if n > 255:
+        raise ValueError("n must be smaller than 256")
     if self < 1 or self > n:
         raise ValueError("self must 1 <= self <= n")
+    if not all(len(s)==TOPRF_Share_BYTES for s in shares):
+        raise ValueError("at least one of the shares is not of correct size")
     shares = b''.join(shares)
     if len(shares) != n*TOPRF_Share_BYTES:
         raise ValueError(f"shares must be {TOPRF_Share_BYTES*n} bytes is instead {len(shares)}")
@@ -468,10 +472,14 @@ def dkg_finish(n: int, shares: List[bytes], self: int, ) -> bytes:
 #                     uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def dkg_reconstruct(responses) -> bytes_list_t:
     rlen = len(responses)
+    if rlen < 1 or rlen > 255:
+        raise ValueError("responses must be a list of 1 to 255 shares")
+    if not all(len(r)==TOPRF_Share_BYTES for r in responses):
+        raise ValueError("at least one of the responses is not of correct size")
     responses = ctypes.create_string_buffer(b''.join(responses))
     result = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_BYTES)
 
-    liboprf.dkg_reconstruct(rlen, responses, result)
+    liboprf.dkg_reconstruct(ctypes.c_size_t(rlen), responses, result)
     return result.raw
 
 tpdkg_sessionid_SIZE=32
-- 
2.43.0


From 89eaed50cdd467314ceb3d070d3524e24b98d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:40 +0000
Subject: [PATCH 28/39] fix: skip entries without a valid participant in
 tpdkg_get_cheaters()

The chained comparison was never true, so the number 0 of entries that
name nobody was reported as a cheater.
---
 python/pyoprf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 44b7704..a58c7e2 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -653,7 +653,7 @@ def tpdkg_get_cheaters(ctx):
     for i in range(ctx[0].cheater_len):
         err = ctypes.create_string_buffer(tpdkg_max_err_SIZE)
         p = liboprf.tpdkg_cheater_msg(ctypes.byref(ctx[1][i]), err, tpdkg_max_err_SIZE)
-        if 0 >= p > ctx[0].n:
+        if p < 1 or p > ctx[0].n:
             print(f"invalid cheater index: {p}, skipping this entry")
             continue
         cheaters.add(p)
-- 
2.43.0


From c58824a99f9df50d50eba04052ef8169c36b73c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:40 +0000
Subject: [PATCH 29/39] fix: check the arguments of tpdkg_start_tp() in the
 Python bindings

n, t and ts_epsilon were truncated to the width of a C int or less, a
list of keys that is too short let the library read past its end, and
a protocol name given as str was hashed as wide characters cut off at
a quarter of their length.
---
 python/pyoprf/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index a58c7e2..8c655fd 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -585,8 +585,20 @@ def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
     if ctypes.addressof(state) % 32 != 0:
       raise ValueError("cannot align at 32bytes the TP_DKG_PeerState struct")
 
+    if isinstance(proto_name, str): proto_name = proto_name.encode('utf8')
+    if not isinstance(proto_name, bytes):
+        raise ValueError("proto_name is not of type bytes or str")
+    if n < 1 or n > 255 or t < 1 or t > 255:
+        raise ValueError("n or t outside valid range")
+    if ts_epsilon < 0 or ts_epsilon >= 1<<64:
+        raise ValueError("ts_epsilon outside valid range")
+    if len(peer_lt_pks) != n:
+        raise ValueError("peer_lt_pks must contain n keys")
+    if not all(len(pk)==pysodium.crypto_sign_PUBLICKEYBYTES for pk in peer_lt_pks):
+        raise ValueError("at least one of the peer_lt_pks is not of correct size")
+
     msg = ctypes.create_string_buffer(tpdkg_msg0_SIZE)
-    __check(liboprf.tpdkg_start_tp(ctypes.byref(state), ts_epsilon, n, t, proto_name, ctypes.c_size_t(len(proto_name)), ctypes.c_size_t(len(msg.raw)), msg))
+    __check(liboprf.tpdkg_start_tp(ctypes.byref(state), ctypes.c_uint64(ts_epsilon), n, t, proto_name, ctypes.c_size_t(len(proto_name)), ctypes.c_size_t(len(msg.raw)), msg))
 
     peers_sig_pks = ctypes.create_string_buffer(n*pysodium.crypto_sign_PUBLICKEYBYTES)
     commitments = ctypes.create_string_buffer(n*t*pysodium.crypto_core_ristretto255_BYTES)
-- 
2.43.0


From 8679fd68baeb4e414d07c2331cb1c8291968b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:40 +0000
Subject: [PATCH 30/39] fix: check the arguments of tpdkg_peer_start() in the
 Python bindings

The library reads the long-term key and the first message with their
fixed sizes, and ts_epsilon was truncated to a C int.
---
 python/pyoprf/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 8c655fd..90a35a9 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -701,7 +701,18 @@ def tpdkg_peer_start(ts_epsilon, peer_lt_sk, msg0):
     if ctypes.addressof(state) % 32 != 0:
       raise ValueError("cannot align at 32bytes the TP_DKG_PeerState struct")
 
-    __check(liboprf.tpdkg_start_peer(ctypes.byref(state), ts_epsilon, peer_lt_sk, msg0))
+    if ts_epsilon < 0 or ts_epsilon >= 1<<64:
+        raise ValueError("ts_epsilon outside valid range")
+    if not isinstance(peer_lt_sk, bytes):
+        raise ValueError("peer_lt_sk is not of type bytes")
+    if len(peer_lt_sk) != pysodium.crypto_sign_SECRETKEYBYTES:
+        raise ValueError("peer_lt_sk has incorrect length")
+    if not isinstance(msg0, bytes):
+        raise ValueError("msg0 is not of type bytes")
+    if len(msg0) != tpdkg_msg0_SIZE:
+        raise ValueError("msg0 has incorrect length")
+
+    __check(liboprf.tpdkg_start_peer(ctypes.byref(state), ctypes.c_uint64(ts_epsilon), peer_lt_sk, msg0))
 
     peers_sig_pks = ctypes.create_string_buffer(b"peer_sig_pks", state.n * pysodium.crypto_sign_PUBLICKEYBYTES)
     peers_noise_pks = ctypes.create_string_buffer(b"peer_noise_pks", state.n * pysodium.crypto_scalarmult_BYTES)
-- 
2.43.0


From 7e5320850d0a4908ecbfcf3cbf3fc2e5032d82dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:40 +0000
Subject: [PATCH 31/39] fix: check the messages and the participant number in
 the TP-DKG steps of the Python bindings

A str of the right length was passed on as wide characters, and the
participant number was reduced to its lowest byte.
---
 python/pyoprf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 90a35a9..bfeea63 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -642,6 +642,7 @@ def tpdkg_tp_output_size(ctx):
 def tpdkg_tp_next(ctx, msg):
     input_len = tpdkg_tp_input_size(ctx)
     if len(msg) != input_len: raise ValueError(f"input msg is invalid size: {len(msg)}B must be: {input_len}B")
+    if len(msg) > 0 and not isinstance(msg, bytes): raise ValueError("input msg is not of type bytes")
     output_len = tpdkg_tp_output_size(ctx)
     output = ctypes.create_string_buffer(output_len)
     __check(liboprf.tpdkg_tp_next(ctypes.byref(ctx[0]), msg, input_len, output, output_len))
@@ -649,6 +650,7 @@ def tpdkg_tp_next(ctx, msg):
 
 #int tpdkg_tp_peer_msg(const TP_DKG_TPState *ctx, const uint8_t *base, const size_t base_size, const uint8_t peer, const uint8_t **msg, size_t *len);
 def tpdkg_tp_peer_msg(ctx, base, peer):
+    if peer < 0 or peer >= ctx[0].n: raise ValueError("peer outside valid range")
     msg = ctypes.POINTER(ctypes.c_char)()
     size = ctypes.c_size_t()
     __check(liboprf.tpdkg_tp_peer_msg(ctypes.byref(ctx[0]), base, len(base.raw), peer, ctypes.byref(msg), ctypes.byref(size)))
@@ -752,6 +754,7 @@ def tpdkg_peer_output_size(ctx):
 def tpdkg_peer_next(ctx, msg):
     input_len = tpdkg_peer_input_size(ctx)
     if len(msg) != input_len: raise ValueError(f"input msg is invalid size: {len(msg)}B must be: {input_len}B")
+    if len(msg) > 0 and not isinstance(msg, bytes): raise ValueError("input msg is not of type bytes")
     output_len = tpdkg_peer_output_size(ctx)
     output = ctypes.create_string_buffer(output_len)
     __check(liboprf.tpdkg_peer_next(ctypes.byref(ctx[0]), msg, input_len, output, output_len))
-- 
2.43.0


From 70831038d8449491ab5e11d97f5bd2eabfe985b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:51 +0000
Subject: [PATCH 32/39] fix: check keys, names and prologues in the Python
 bindings of the Noise XK channel

Keys of a wrong size let the library read past their end. Names and
prologues given as str, as in the test of this module, were passed on as
wide characters, so that only the first part of the prologue counted and
other implementations could not be talked to.
---
 python/pyoprf/noisexk.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index b080a9d..74cec0b 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -47,18 +47,37 @@ def __check(code):
     if code != 0:
         raise ValueError
 
+def __bytes(value, what):
+    if isinstance(value, str): value = value.encode('utf8')
+    if not isinstance(value, bytes):
+        raise ValueError(f"{what} is not of type bytes or str")
+    return value
+
+def __key(value, what):
+    if not isinstance(value, bytes):
+        raise ValueError(f"{what} is not of type bytes")
+    if len(value) != KEYSIZE:
+        raise ValueError(f"{what} has incorrect length")
+    return value
+
 lib.Noise_XK_device_add_peer.restype = c_void_p
-lib.Noise_XK_device_add_peer.argtypes = [c_void_p, c_void_p, ctypes.c_char_p]
+lib.Noise_XK_device_add_peer.argtypes = [c_void_p, ctypes.c_char_p, ctypes.c_char_p]
 def add_peer(device, name, key):
+    name = __bytes(name, "name")
+    __key(key, "key")
     return lib.Noise_XK_device_add_peer(device, name, key)
 
 def pubkey(privkey):
+    __key(privkey, "privkey")
     pubkey = ctypes.create_string_buffer(KEYSIZE)
     lib.Noise_XK_dh_secret_to_public(pubkey, privkey)
     return pubkey.raw
 
 lib.Noise_XK_device_create.restype = c_void_p
 def create_device(prologue, name, privkey):
+    prologue = __bytes(prologue, "prologue")
+    name = __bytes(name, "name")
+    __key(privkey, "privkey")
     srlz_key = b'\x00'*KEYSIZE
     return lib.Noise_XK_device_create(len(prologue), prologue, name, srlz_key, privkey)
 
-- 
2.43.0


From cd1f7f7164c3801e5ed849584f1502e66fd76843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:51 +0000
Subject: [PATCH 33/39] fix: raise errors for missing handles in the Python
 bindings of the Noise XK channel

The library returns NULL for a peer that is already known, an unknown
peer id or a session whose peer is not known yet. ctypes turns this into
None, which was compared with 0 or not at all, and crashed the next call.
---
 python/pyoprf/noisexk.py | 43 +++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index 74cec0b..8cc6f48 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -47,6 +47,11 @@ def __check(code):
     if code != 0:
         raise ValueError
 
+def __handle(value, what):
+    if not value: # ctypes converts NULL to None
+        raise ValueError(f"{what} is invalid")
+    return value
+
 def __bytes(value, what):
     if isinstance(value, str): value = value.encode('utf8')
     if not isinstance(value, bytes):
@@ -65,7 +70,8 @@ lib.Noise_XK_device_add_peer.argtypes = [c_void_p, ctypes.c_char_p, ctypes.c_cha
 def add_peer(device, name, key):
     name = __bytes(name, "name")
     __key(key, "key")
-    return lib.Noise_XK_device_add_peer(device, name, key)
+    __handle(device, "device")
+    return __handle(lib.Noise_XK_device_add_peer(device, name, key), "peer")
 
 def pubkey(privkey):
     __key(privkey, "privkey")
@@ -79,37 +85,32 @@ def create_device(prologue, name, privkey):
     name = __bytes(name, "name")
     __key(privkey, "privkey")
     srlz_key = b'\x00'*KEYSIZE
-    return lib.Noise_XK_device_create(len(prologue), prologue, name, srlz_key, privkey)
+    return __handle(lib.Noise_XK_device_create(len(prologue), prologue, name, srlz_key, privkey), "device")
 
-lib.Noise_XK_peer_get_id.restype = c_void_p
+lib.Noise_XK_peer_get_id.restype = c_uint32
 lib.Noise_XK_peer_get_id.argtypes = [c_void_p]
 def get_peerid(peer):
+    __handle(peer, "peer")
     return lib.Noise_XK_peer_get_id(peer)
 
 lib.Noise_XK_session_create_initiator.restype = c_void_p
-lib.Noise_XK_session_create_initiator.argtypes = [c_void_p, c_void_p]
-def create_session_initiator(device, peerid):
-    return lib.Noise_XK_session_create_initiator(device, peerid)
-
-
-lib.Noise_XK_session_create_initiator.restype = c_void_p
-lib.Noise_XK_session_create_initiator.argtypes = [c_void_p, c_void_p]
+lib.Noise_XK_session_create_initiator.argtypes = [c_void_p, c_uint32]
 def create_session_initiator(device, peerid):
-    res = lib.Noise_XK_session_create_initiator(device, peerid)
-    if res == 0: raise ValueError
-    return res
+    __handle(device, "device")
+    if peerid < 0 or peerid >= 1<<32: raise ValueError("peerid outside valid range")
+    return __handle(lib.Noise_XK_session_create_initiator(device, peerid), "session")
 
 lib.Noise_XK_session_create_responder.restype = c_void_p
 lib.Noise_XK_session_create_responder.argtypes = [c_void_p]
 def create_session_responder(device):
-    res = lib.Noise_XK_session_create_responder(device)
-    if res == 0: raise ValueError
-    return res
+    __handle(device, "device")
+    return __handle(lib.Noise_XK_session_create_responder(device), "session")
 
 lib.Noise_XK_pack_message_with_conf_level.restype = c_void_p
 lib.Noise_XK_session_write.argtypes = [c_void_p, c_void_p, POINTER(c_uint32), POINTER(POINTER(c_ubyte))]
 lib.Noise_XK_encap_message_p_free.argtypes = [c_void_p]
 def initiator_1st_msg(session):
+    __handle(session, "session")
     encap_msg = lib.Noise_XK_pack_message_with_conf_level(0, 0, 0);
     msg_len = c_uint32()
     msg = POINTER(c_ubyte)()
@@ -125,6 +126,7 @@ def initiator_1st_msg(session):
 lib.Noise_XK_session_read.argtypes = [POINTER(c_void_p), c_void_p, c_uint32, POINTER(c_ubyte)]
 # Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg),
 def responder_1st_msg(session, msg):
+    __handle(session, "session")
     encap_msg = c_void_p()
     msg = (c_ubyte * len(msg)).from_buffer(bytearray(msg))
     msg_len = c_uint32(len(msg))
@@ -140,6 +142,7 @@ def responder_1st_msg(session, msg):
     return initiator_1st_msg(session)
 
 def initiator_handshake_finish(session, msg):
+    __handle(session, "session")
     encap_msg = c_void_p()
     msg = (c_ubyte * len(msg)).from_buffer(bytearray(msg))
     msg_len = c_uint32(len(msg))
@@ -154,7 +157,8 @@ def initiator_handshake_finish(session, msg):
         libc.free(plain_msg)
 
 def send_msg(session, msg):
-    if isinstance(msg, str): msg = msg.encode('utf8')
+    __handle(session, "session")
+    msg = __bytes(msg, "msg")
     encap_msg = lib.Noise_XK_pack_message_with_conf_level(NOISE_XK_CONF_STRONG_FORWARD_SECRECY, len(msg), msg);
     ct_len = c_uint32()
     ct = POINTER(c_ubyte)()
@@ -167,6 +171,7 @@ def send_msg(session, msg):
     return res
 
 def read_msg(session, msg):
+    __handle(session, "session")
     encap_msg = c_void_p()
     u_bytes = (c_ubyte * (len(msg)))()
     u_bytes[:] = msg
@@ -189,8 +194,10 @@ lib.Noise_XK_device_lookup_peer_by_id.restype = c_void_p
 lib.Noise_XK_device_lookup_peer_by_id.argtypes = [c_void_p, c_uint32]
 lib.Noise_XK_peer_get_static.argtypes = [(c_char * 32), c_void_p]
 def get_pubkey(session, device):
+    __handle(session, "session")
+    __handle(device, "device")
     peerid = lib.Noise_XK_session_get_peer_id(session)
-    peer = lib.Noise_XK_device_lookup_peer_by_id(device, peerid);
+    peer = __handle(lib.Noise_XK_device_lookup_peer_by_id(device, peerid), "peer")
     pubkey = ctypes.create_string_buffer(KEYSIZE)
     lib.Noise_XK_peer_get_static(pubkey, peer);
     return pubkey.raw
-- 
2.43.0


From 8af2a248ff5dc70efc45e5cc69d4b549197bee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:24 +0000
Subject: [PATCH 34/39] fix: connect and gather over plain TCP in the
 multiplexer

---
 python/pyoprf/multiplexer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index e163af3..d8ca32c 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -39,6 +39,8 @@ class Peer:
         s.settimeout(self.timeout)
         if self.type == "SSL":
             self.fd = ctx.wrap_socket(s, server_hostname=self.address[0])
+        else:
+            self.fd = s
         self.fd.connect(self.address)
         self.state="connected"
 
@@ -57,6 +59,10 @@ class Peer:
             #raise ValueError(f"short read for {self.name}, only {len(b''.join(res))} instead of expected {size} bytes")
         return b''.join(res)
 
+    def pending(self):
+        # only SSL buffers data which select() cannot see
+        return self.fd.pending() if self.type == "SSL" else 0
+
     def send(self, msg):
         self.fd.sendall(msg)
 
@@ -111,7 +117,7 @@ class Multiplexer:
            n=len(self.peers)
        responses={}
        for idx, peer in enumerate(self.peers):
-           pending = peer.fd.pending()
+           pending = peer.pending()
            if pending == expectedmsglen:
                pkt = peer.read(expectedmsglen)
                if debug: print(f"{idx} got pending {len(pkt)}")
-- 
2.43.0


From fd08b0b348313e767a7cd2654164113f27834f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:49 +0000
Subject: [PATCH 35/39] fix: read TLS data already buffered when it is not
 exactly one message

---
 python/pyoprf/multiplexer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index d8ca32c..bcd00a1 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -118,7 +118,7 @@ class Multiplexer:
        responses={}
        for idx, peer in enumerate(self.peers):
            pending = peer.pending()
-           if pending == expectedmsglen:
+           if pending > 0:
                pkt = peer.read(expectedmsglen)
                if debug: print(f"{idx} got pending {len(pkt)}")
                if pkt == b'\x00\x04fail':
@@ -127,8 +127,6 @@ class Multiplexer:
                responses[idx]=pkt if not proc else proc(pkt)
            #if peer.fd.fileno() < 0:
            #  print(f"{peer} has negative fileno: {peer.fd.fileno()}")
-           #elif pending != 0:
-           #    print(f"wtf peer {peer.name} has {peer.fd.pending()} bytes pending, which is not equ {expectedmsglen}")
        while len(responses)<n:
           fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.fd.fileno() >= 0}
           if not fds: raise ValueError("not enough peers left to get enough results")
-- 
2.43.0


From 7e5692142d29b501d0db5b211f5ae2a1f1fca21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:49 +0000
Subject: [PATCH 36/39] fix: no partial responses from peers that disconnect
 during gather

---
 python/pyoprf/multiplexer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index bcd00a1..257cbe1 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -51,7 +51,8 @@ class Peer:
         res = []
         read = 0
         while read<size and (len(res)==0 or len(res[-1])!=0):
-          res.append(self.fd.recv(size-read))
+          try: res.append(self.fd.recv(size-read))
+          except ConnectionError: res.append(b'')
           read+=len(res[-1])
 
         if len(res[-1])==0 and read<size:
@@ -117,11 +118,14 @@ class Multiplexer:
            n=len(self.peers)
        responses={}
        for idx, peer in enumerate(self.peers):
+           if peer.state == "disconnected":
+               responses[idx]=None
+               continue
            pending = peer.pending()
            if pending > 0:
                pkt = peer.read(expectedmsglen)
                if debug: print(f"{idx} got pending {len(pkt)}")
-               if pkt == b'\x00\x04fail':
+               if pkt == b'\x00\x04fail' or len(pkt) != expectedmsglen:
                    responses[idx]=None
                    continue
                responses[idx]=pkt if not proc else proc(pkt)
@@ -141,7 +145,7 @@ class Multiplexer:
                 continue
              #print(f"gathering {idx}")
              pkt = fds[fd][1].read(expectedmsglen)
-             if pkt == b'\x00\x04fail':
+             if pkt == b'\x00\x04fail' or len(pkt) != expectedmsglen:
                  responses[idx]=None
                  continue
              if debug: print(f"{idx} got response of {len(pkt)}")
-- 
2.43.0


From 0eda0938da3d9a535e9f95a7d1edfa2885396154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:09:42 +0000
Subject: [PATCH 37/39] fix: do not wrap around when comparing timestamps with
 a large tolerance

---
 src/tp-dkg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 0aca280..1eaf9fe 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -98,11 +98,11 @@ static uint64_t ntohll(uint64_t n) {
 static int check_ts(const uint64_t ts_epsilon, uint64_t *last_ts, const uint64_t ts) {
   if(*last_ts == 0) {
     uint64_t now = (uint64_t)time(NULL);
-    if(ts < now - ts_epsilon) return 3;
-    if(ts > now + ts_epsilon) return 4;
+    if(ts < now && now - ts > ts_epsilon) return 3;
+    if(ts > now && ts - now > ts_epsilon) return 4;
   } else {
     if(*last_ts > ts) return 1;
-    if(ts > *last_ts + ts_epsilon) return 2;
+    if(ts - *last_ts > ts_epsilon) return 2;
   }
   *last_ts = ts;
   return 0;
-- 
2.43.0


From f8c83cab4d535ab41f3626c227419ed49de6ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:36 +0000
Subject: [PATCH 38/39] fix: log the number of the peer whose transcript or
 confirmation is wrong

The log named the position counted from 0 instead of the peer's number.
---
 src/tp-dkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 1eaf9fe..b400578 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1544,7 +1544,7 @@ static int tp_step20_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
 
     if(sodium_memcmp(transcript_hash, msg->data, sizeof(transcript_hash))!=0) {
       if(log_file!=NULL) {
-        fprintf(log_file,"\e[0;31m[!] failed to verify transcript from %d!\e[0m\n", i);
+        fprintf(log_file,"\e[0;31m[!] failed to verify transcript from %d!\e[0m\n", i+1);
       }
       if(add_cheater(ctx, 20, 1, i+1, 0) == NULL) return 4;
       memcpy(wptr,"NO",2);
@@ -1615,7 +1615,7 @@ static int tp_step22_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
 
     if(memcmp("OK", msg->data, 2)!=0) {
       if(log_file!=NULL) {
-        fprintf(log_file,"\e[0;31m[!] failed to get ack from %d!\e[0m\n", i);
+        fprintf(log_file,"\e[0;31m[!] failed to get ack from %d!\e[0m\n", i+1);
       }
       if(add_cheater(ctx, 22, 1, i+1, 0) == NULL) return 6;
     }
-- 
2.43.0


From 8d8477e06317194c70de766204ff05e182e802ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:31:55 +0000
Subject: [PATCH 39/39] fix: unlock the hashed input when hashing to the group
 fails

---
 src/oprf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oprf.c b/src/oprf.c
index a9d55e7..9a1a5c6 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -297,7 +297,10 @@ int oprf_Blind(const uint8_t *x, const uint16_t x_len,
     return -1;
   }
   // sets α := (H^0(pw))^r
-  if(0!=voprf_hash_to_group(x, x_len, H0)) return -1;
+  if(0!=voprf_hash_to_group(x, x_len, H0)) {
+    sodium_munlock(H0,sizeof H0);
+    return -1;
+  }
 #if (defined TRACE || defined CFRG_TEST_VEC)
   dump(H0,sizeof H0, "H0");
 #endif
-- 
2.43.0


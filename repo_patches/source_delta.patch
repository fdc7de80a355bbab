From f2661ece3d2020e1ed12af438b8a1647d0ecd91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:45 +0000
Subject: [PATCH 01/50] fix: report invalid group elements in
 toprf_thresholdcombine

A partial evaluation that is not a valid ristretto255 encoding was skipped
silently and success was returned with a wrong result.
---
 src/toprf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index 88b74c9..c9720f2 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -186,7 +186,7 @@ int toprf_thresholdcombine(const size_t response_len,
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   for(size_t i=0;i<response_len;i++) {
-    crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value);
+    if(crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value)) return 1;
   }
   return 0;
 }
-- 
2.43.0


From 1fa07ef4c8581e8b70e5ded03fded5d3cb714f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:46 +0000
Subject: [PATCH 02/50] fix: terminate when sharing among 255 parties

The 8 bit loop counters wrapped around for n=255, so toprf_create_shares,
dkg_start and dkg_verify_commitments never returned and wrote out of bounds.
---
 src/dkg.c   | 8 ++++----
 src/toprf.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dkg.c b/src/dkg.c
index 4db1ef5..6ea947d 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -82,9 +82,9 @@ int dkg_start(const uint8_t n,
   }
 
   // calculate shares s_ij
-  for(uint8_t j=1;j<=n;j++) {
+  for(unsigned j=1;j<=n;j++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(t)*x^(t)
-    polynom(j, threshold, a, &shares[j-1]);
+    polynom((uint8_t) j, threshold, a, &shares[j-1]);
   }
 
   sodium_munlock(a,sizeof a);
@@ -147,9 +147,9 @@ int dkg_verify_commitments(const uint8_t n,
                            uint8_t fails[n],
                            uint8_t *fails_len) {
   *fails_len = 0;
-  for(uint8_t i=1;i<=n;i++) {
+  for(unsigned i=1;i<=n;i++) {
     if(i==self) continue;
-    int ret = dkg_verify_commitment(n, threshold, self, i, commitments[i-1], shares[i-1]);
+    int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
     if(-1 == ret) return ret;
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
diff --git a/src/toprf.c b/src/toprf.c
index c9720f2..df71d23 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -85,15 +85,15 @@ void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYT
   TOPRF_Share *shares= (TOPRF_Share*)_shares;
 
   uint8_t a[threshold-1][crypto_core_ristretto255_SCALARBYTES];
-  uint8_t i;
-  for(i=0;i<threshold-1;i++) {
+  unsigned i;
+  for(i=0;i+1<threshold;i++) {
     crypto_core_ristretto255_scalar_random(a[i]);
   }
   for(i=1;i<=n;i++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(k−1)*x^(k−1)
-    shares[i-1].index=i;
+    shares[i-1].index=(uint8_t) i;
     uint8_t x[crypto_core_ristretto255_SCALARBYTES]={0};
-    x[0]=i;
+    x[0]=(uint8_t) i;
     memcpy(shares[i-1].value, secret, crypto_core_ristretto255_SCALARBYTES);
     for(int j=0;j<threshold-1;j++) {
       // a_j^j
-- 
2.43.0


From 4b04dd34924ee61a5f87dce50362545490f420df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:46 +0000
Subject: [PATCH 03/50] fix: set the index of the part returned by
 toprf_Evaluate

The index of the output was left uninitialised although
toprf_thresholdcombine reads it.
---
 src/toprf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toprf.c b/src/toprf.c
index df71d23..f31d428 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -170,6 +170,7 @@ int toprf_Evaluate(const uint8_t _k[TOPRF_Share_BYTES],
   crypto_core_ristretto255_scalar_mul(kl, k->value, lpoly);
 
   TOPRF_Part *Z=(TOPRF_Part*) _Z;
+  Z->index=self;
   if(oprf_Evaluate(kl,blinded, Z->value)) return 1;
 
   return 0;
-- 
2.43.0


From 4e724cb3c4804615fe28e0ee9a30773846fef2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:46 +0000
Subject: [PATCH 04/50] fix: report dealers with invalid commitments in
 dkg_verify_commitments

An invalid commitment made the function return early, so neither this dealer
nor any dealer after it was reported as failed.
---
 src/dkg.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dkg.c b/src/dkg.c
index 6ea947d..7872c7c 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -150,7 +150,6 @@ int dkg_verify_commitments(const uint8_t n,
   for(unsigned i=1;i<=n;i++) {
     if(i==self) continue;
     int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
-    if(-1 == ret) return ret;
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
   }
-- 
2.43.0


From 4da1f58753143f3826b65ddd68492646be77f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:46 +0000
Subject: [PATCH 05/50] fix: reject non-canonical share values in
 dkg_verify_commitment

crypto_scalarmult_ristretto255_base ignores the top bit of the scalar while
the scalar addition in dkg_finish does not, so a share with this bit flipped
was accepted although it leads to an inconsistent final share.
---
 src/dkg.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dkg.c b/src/dkg.c
index 7872c7c..2ecb9a3 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -102,6 +102,14 @@ int dkg_verify_commitment(const uint8_t n,
   //dump(j,sizeof(j), "\nj        ");
 
   if(i==self) return 0;
+
+  // reject shares that are not canonical scalars, otherwise the value
+  // verified here differs from the value added up in dkg_finish
+  const uint8_t zero[crypto_core_ristretto255_SCALARBYTES]={0};
+  uint8_t canonical[crypto_core_ristretto255_SCALARBYTES];
+  crypto_core_ristretto255_scalar_add(canonical, share.value, zero);
+  if(sodium_memcmp(canonical, share.value, sizeof canonical)!=0) return 1;
+
   uint8_t v0[crypto_core_ristretto255_BYTES];
 
   // v0 = g*(s_ij)
-- 
2.43.0


From 52581a921f7ba38b65600305ada664119516beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:25 +0000
Subject: [PATCH 06/50] fix: reject element encodings with the most significant
 bit set

libsodium before 1.0.19 masks this bit when decoding ristretto255 elements,
so such non-canonical encodings were accepted as blinded elements,
evaluations, partial evaluations and commitments.
---
 src/dkg.c   | 4 +++-
 src/oprf.c  | 3 ++-
 src/toprf.c | 7 +++++--
 src/utils.h | 6 ++++++
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/dkg.c b/src/dkg.c
index 2ecb9a3..ae5df40 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -121,6 +121,7 @@ int dkg_verify_commitment(const uint8_t n,
   uint8_t v1[crypto_core_ristretto255_BYTES];
   //dump(commitments[i-1],crypto_core_ristretto255_BYTES, "c(%d,%d)   ", i, 0);
   // v1 = C_i0*j
+  if(r255_topbit(commitments[0])) return -1;
   memcpy(v1, &commitments[0], sizeof v1);
   // sum
   for(uint8_t k=1;k<threshold;k++) {
@@ -133,7 +134,8 @@ int dkg_verify_commitment(const uint8_t n,
     uint8_t tmP[crypto_core_ristretto255_BYTES];
     //dump(tmp, sizeof tmp, "%d tmp", k);
     //dump(commitments[i-1][k], crypto_core_ristretto255_BYTES, "c[%d][%d]", i-1, k);
-    if(crypto_scalarmult_ristretto255(tmP, tmp, commitments[k])) return -1;
+    if(r255_topbit(commitments[k]) ||
+       crypto_scalarmult_ristretto255(tmP, tmp, commitments[k])) return -1;
     crypto_core_ristretto255_add(v1,v1,tmP);
   }
 
diff --git a/src/oprf.c b/src/oprf.c
index 87fee33..613218f 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -345,6 +345,7 @@ int oprf_Blind(const uint8_t *x, const uint8_t x_len,
 int oprf_Evaluate(const uint8_t k[crypto_core_ristretto255_SCALARBYTES],
                   const uint8_t blinded[crypto_core_ristretto255_BYTES],
                   uint8_t Z[crypto_core_ristretto255_BYTES]) {
+  if(r255_topbit(blinded)) return -1;
   return crypto_scalarmult_ristretto255(Z, k, blinded);
 }
 
@@ -369,7 +370,7 @@ int oprf_Unblind(const uint8_t r[crypto_core_ristretto255_SCALARBYTES],
 #endif
 
   // (a) Checks that β ∈ G ∗ . If not, outputs (abort, sid , ssid ) and halts;
-  if(crypto_core_ristretto255_is_valid_point(Z) != 1) return -1;
+  if(r255_topbit(Z) || crypto_core_ristretto255_is_valid_point(Z) != 1) return -1;
 
   // (b) Computes rw := H(pw, β^1/r );
   // invert r = 1/r
diff --git a/src/toprf.c b/src/toprf.c
index f31d428..285bf62 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -1,6 +1,7 @@
 #include <string.h>
 #include "oprf.h"
 #include "toprf.h"
+#include "utils.h"
 #include <arpa/inet.h>
 
 /*
@@ -149,7 +150,8 @@ int toprf_thresholdmult(const size_t response_len,
     coeff(responses[indexed_indexes[i]].index, response_len, indexes, lpoly);
 
     // betaki = g^{k_i}^{lpoly}
-    if(crypto_scalarmult_ristretto255(gki, lpoly, responses[indexed_indexes[i]].value)) {
+    if(r255_topbit(responses[indexed_indexes[i]].value) ||
+       crypto_scalarmult_ristretto255(gki, lpoly, responses[indexed_indexes[i]].value)) {
       return 1;
     }
     crypto_core_ristretto255_add(result,result,gki);
@@ -187,7 +189,8 @@ int toprf_thresholdcombine(const size_t response_len,
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   for(size_t i=0;i<response_len;i++) {
-    if(crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value)) return 1;
+    if(r255_topbit(responses[indexed_indexes[i]].value) ||
+       crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value)) return 1;
   }
   return 0;
 }
diff --git a/src/utils.h b/src/utils.h
index be37c6f..5ef74aa 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -10,6 +10,12 @@ extern int debug;
 void debian_rng_scalar(uint8_t *scalar);
 #endif //UNIT_TEST
 
+// libsodium before 1.0.19 ignores the most significant bit when decoding
+// group elements, but with this bit set the encoding is not canonical.
+static inline int r255_topbit(const uint8_t p[crypto_core_ristretto255_BYTES]) {
+  return p[crypto_core_ristretto255_BYTES-1] >> 7;
+}
+
 void dump(const uint8_t *p, const size_t len, const char* msg, ...);
 void fail(char* msg, ...);
 
-- 
2.43.0


From 5bba6ee7baafd51ab2fba3d62e767461660dd909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:01 +0000
Subject: [PATCH 07/50] fix: sign and verify the payload of tp-dkg messages,
 not only the header

---
 src/tp-dkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 23b8a80..9ddd1fb 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -118,7 +118,7 @@ static int send_msg(uint8_t* msg_buf, const size_t msg_buf_len, const uint8_t ms
   msg->ts = htonll((uint64_t)time(NULL));
   memcpy(msg->sessionid, sessionid, tpdkg_sessionid_SIZE);
 
-  crypto_sign_detached(msg->sig, NULL, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_sk);
+  crypto_sign_detached(msg->sig, NULL, msg_buf + crypto_sign_BYTES, msg_buf_len - crypto_sign_BYTES, sig_sk);
   return 0;
 }
 
@@ -148,7 +148,7 @@ static int recv_msg(const uint8_t *msg_buf, const size_t msg_buf_len, const uint
   memcpy(with_sessionid + unsigned_buf_len, sessionid, tpdkg_sessionid_SIZE);
 
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_pk)) return 6;
+  if(0!=crypto_sign_verify_detached(msg->sig, msg_buf + crypto_sign_BYTES, unsigned_buf_len, sig_pk)) return 6;
 #endif
 
   return 0;
-- 
2.43.0


From 6c826448de9df6d0a0d9554e4366bfddb3603a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:22 +0000
Subject: [PATCH 08/50] fix: do not write to a NULL log file when a handshake
 message is invalid

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 9ddd1fb..5b60ff6 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -885,7 +885,7 @@ static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const si
       if(0!=ret) {
         if(add_cheater(ctx, 6 + (ctx->step - 1) * 2, 64+ret, j+1, i+1) == NULL) return 7;
         TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
-        fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
+        if(log_file!=NULL) fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
         dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
         continue;
       }
-- 
2.43.0


From 050d8fdad8ecfb21c4610191e23f3be8211d22fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:37 +0000
Subject: [PATCH 09/50] fix: initialize the noise session pointers in
 tpdkg_peer_set_bufs

---
 src/tp-dkg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 5b60ff6..c8a4528 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -582,7 +582,12 @@ void tpdkg_peer_set_bufs(TP_DKG_PeerState *ctx,
   ctx->complaints = complaints;
   ctx->my_complaints = my_complaints;
   ctx->last_ts = last_ts;
-  for(uint8_t i=0;i<ctx->n;i++) ctx->last_ts[i]=0;
+  for(uint8_t i=0;i<ctx->n;i++) {
+    ctx->last_ts[i]=0;
+    // tpdkg_peer_free() must be able to tell which sessions exist
+    (*ctx->noise_outs)[i]=NULL;
+    (*ctx->noise_ins)[i]=NULL;
+  }
 }
 
 int tpdkg_tp_not_done(const TP_DKG_TPState *tp) {
-- 
2.43.0


From 20386440eb5a7f4fad1f650f947b031ac7523145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:44 +0000
Subject: [PATCH 10/50] fix: fail the step when a noise handshake fails and
 forget freed sessions

---
 src/tp-dkg.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index c8a4528..c2bb3ed 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -175,11 +175,13 @@ static int tpdkg_init_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 3;
   }
 
   if(cipher_msg_len!=noise_xk_handshake1_SIZE) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     free(cipher_msg);
     return 4;
   }
@@ -206,6 +208,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_rcode ret = Noise_XK_session_read(&encap_msg, *session, noise_xk_handshake1_SIZE, inmsg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 2;
   }
 
@@ -213,6 +216,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 3;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -224,11 +228,13 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 4;
   }
 
   if(cipher_msg_len!=noise_xk_handshake2_SIZE) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     free(cipher_msg);
     return 4;
   }
@@ -251,12 +257,14 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
     Noise_XK_peer_t *peer = Noise_XK_device_lookup_peer_by_id(ctx->dev, peer_id);
     if(peer==NULL) {
       Noise_XK_session_free(*session);
+      *session = NULL;
       return 2;
     }
     uint8_t *pinfo;
     Noise_XK_peer_get_info((Noise_XK_noise_string*) &pinfo, peer);
     if(pinfo==NULL) {
       Noise_XK_session_free(*session);
+      *session = NULL;
       return 3;
     }
     fprintf(log_file, "[%d] finishing noise session -> %s\n", ctx->index, pinfo);
@@ -268,6 +276,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   if(!Noise_XK_rcode_is_success(ret)) {
     if(log_file!=NULL) fprintf(log_file, "session read fail: %d\n", ret.val.case_Error);
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 4;
   }
 
@@ -275,6 +284,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session = NULL;
     return 5;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -861,7 +871,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg4 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data);
+    if(0!=tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data)) return 4;
     if(0!=send_msg(wptr, tpdkg_msg4_SIZE, 4, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 5;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg4->msgno, msg4->from, msg4->to);
@@ -924,7 +934,7 @@ static int peer_step7_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg5 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data);
+    if(0!=tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data)) return 5;
     if(0!=send_msg(wptr, tpdkg_msg5_SIZE, 5, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 4;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg5->msgno, msg5->from, msg5->to);
@@ -952,7 +962,7 @@ static int peer_step911_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(0!=ret) return 64+ret;
     ptr+=tpdkg_msg5_SIZE;
     // process final step of noise handshake
-    tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data);
+    if(0!=tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data)) return 5;
   }
 
   TP_DKG_Message* msg6 = (TP_DKG_Message*) output;
-- 
2.43.0


From 451d56da8799cc9b6172a19f99ee48ff3d431d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:52 +0000
Subject: [PATCH 11/50] fix: end the session when step 16 of the trusted party
 fails

---
 src/tp-dkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index c2bb3ed..f1a8e2f 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1638,6 +1638,7 @@ int tpdkg_tp_next(TP_DKG_TPState *ctx, const uint8_t *input, const size_t input_
       ctx->step++;
     }
     ctx->step++;
+    if(ret!=0) ctx->step=99; // so that not_done reports done
     return ret;
   }
   case 7: {ret = tp_step18_handler(ctx, input, input_len, output, output_len); break;}
-- 
2.43.0


From 4d277891eba8330cac3113a560f37fcecdbd3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:59 +0000
Subject: [PATCH 12/50] fix: bound the number of complaints by the number of
 peers

---
 src/tp-dkg.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index f1a8e2f..f7ca5af 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1211,10 +1211,13 @@ static int tp_step16_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(add_cheater(ctx, 16, 64+ret, i+1, 0xff) == NULL) return 6;
       continue;
     }
-    if(msg->len - sizeof(TP_DKG_Message) < msg->data[0]) return 4;
+    if(msg->data[0] > ctx->n) {
+      if(add_cheater(ctx, 16, 9, i+1, 0xff) == NULL) return 6;
+      continue;
+    }
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg->data[0] && (k+1)<msg->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg->data[0];k++) {
       if(msg->data[k+1] > ctx->n || msg->data[k+1] < 1) {
         if(add_cheater(ctx, 16, 7, i+1, msg->data[k+1]) == NULL) return 6;
         continue;
@@ -1285,10 +1288,10 @@ static int peer_step17_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
     }
     ret = recv_msg(ptr, tpdkg_msg9_SIZE(ctx), 9, i+1, 0xff, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) return 32+ret;
-    if(msg9->len - sizeof(TP_DKG_Message) < msg9->data[0]) return 5;
+    if(msg9->data[0] > ctx->n) return 5;
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg9->data[0] && (k+1)<msg9->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg9->data[0];k++) {
       uint16_t pair=(uint16_t) (((i+1)<<8) | msg9->data[k+1]);
       int j=0;
       for(j=0;j<ctx->complaints_len;j++) if(ctx->complaints[j]==pair) break;
@@ -1712,6 +1715,9 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     } else if(c->error == 8) {
       snprintf(out, outlen, "peer %d sent a duplicate complaint about peer %d.", c->peer, c->other_peer);
       return c->peer;
+    } else if(c->error == 9) {
+      snprintf(out, outlen, "peer %d sent more complaints than there are peers.", c->peer);
+      return c->peer;
     }
     snprintf(out,outlen, "invalid error code for step 16: %d", c->error);
     return 0;
-- 
2.43.0


From c2e28c514683ccda7137a23ced7bb650e0838eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:07 +0000
Subject: [PATCH 13/50] fix: blame the accused, not the complainer, for an
 unanswered complaint

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index f7ca5af..97f3f19 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1491,7 +1491,7 @@ static int tp_step18_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
 
   for(int i=0;i<ctx->complaints_len;i++) {
     if(complaints[i] != 0xffff) {
-      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] >> 8), (uint8_t) (complaints[i] & 0xff)) == NULL) return 4;
+      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] & 0xff), (uint8_t) (complaints[i] >> 8)) == NULL) return 4;
     }
   }
 
-- 
2.43.0


From 8a474a90d66f3b317df390428dde86fa85b57880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:14 +0000
Subject: [PATCH 14/50] fix: report peers whose long-term signature is invalid

---
 src/tp-dkg.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 97f3f19..9d19eb8 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -813,7 +813,10 @@ static int tp_step4_handler(TP_DKG_TPState *ctx, const uint8_t *msg2s, const siz
       dump(ptr, tpdkg_msg2_SIZE, "msg");
     }
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) return 3;
+    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) {
+      if(add_cheater(ctx, 4, 3, i+1, 0xff) == NULL) return 7;
+      continue;
+    }
 #endif
     int ret = recv_msg(ptr, tpdkg_msg2_SIZE, 2, i+1, 0xff, msg->data, ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) {
@@ -1705,6 +1708,10 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
                c->step, c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x3f));
       return c->peer;
   }
+  if(c->step==4 && c->error==3) {
+      snprintf(out, outlen, "long-term signature of peer %d on its session keys is invalid", c->peer);
+      return c->peer;
+  }
   if(c->step==16) {
     if(c->error == 6) {
       snprintf(out, outlen, "more than t^2 complaints, most peers are cheating.");
-- 
2.43.0


From eab8083523d1fc9041dca6275e4b54b95022c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:22 +0000
Subject: [PATCH 15/50] fix: fail when a peer does not acknowledge the result
 of the tp-dkg

---
 src/tp-dkg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 9d19eb8..12f6881 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1620,6 +1620,7 @@ static int tp_step22_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(log_file!=NULL) {
         fprintf(log_file,"\e[0;31m[!] failed to get ack from %d!\e[0m\n", i);
       }
+      if(add_cheater(ctx, 22, 1, i+1, 0) == NULL) return 6;
     }
   }
   if(ctx->cheater_len>0) return 5;
@@ -1783,6 +1784,9 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     }
     snprintf(out,outlen, "invalid error code for step 20: %d", c->error);
     return 0;
+  } else if(c->step==22 && c->error==1) {
+    snprintf(out,outlen, "peer %d did not acknowledge the result", c->peer);
+    return c->peer;
   }
   snprintf(out,outlen, "invalid step %d", c->step);
   return 0;
-- 
2.43.0


From aed93b2ca91081da6f06bb3ac707d776eb7d96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:30 +0000
Subject: [PATCH 16/50] fix: describe all kinds of cheating in
 tpdkg_cheater_msg

---
 src/tp-dkg.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 12f6881..fd13c7f 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1704,7 +1704,7 @@ char* tpdkg_recv_err(const int code) {
 }
 
 uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outlen) {
-  if(c->error>65 && c->error<=70) {
+  if(c->error>64 && c->error<=71) {
       snprintf(out, outlen, "step %d message from peer %d for peer %d could not be validated: %s",
                c->step, c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x3f));
       return c->peer;
@@ -1730,26 +1730,26 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     snprintf(out,outlen, "invalid error code for step 16: %d", c->error);
     return 0;
   } else if(c->step==18) {
-    if(c->error & 16) {
+    if(c->error>16 && c->error<=23) {
       snprintf(out, outlen, "message containing encrypted share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0xf));
       return c->peer;
-    } else if (c->error & 32) {
+    } else if (c->error>32 && c->error<=39) {
       snprintf(out, outlen, "message revealing key encrypting share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x1f));
       return c->peer;
     }
     switch(c->error) {
     case 3: {
-      snprintf(out,outlen, "accused peer %d revealed a key (for peer %d) that was not complained about", c->peer, c->other_peer);
+      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 4: {
-      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
+      snprintf(out,outlen, "decryption of the share from accused peer %d for complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 5: {
-      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->other_peer, c->invalid_index);
+      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->invalid_index, c->other_peer);
       return c->peer;
     }
     case 6: {
@@ -1782,6 +1782,10 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
       snprintf(out,outlen, "transcript mismatch peer %d", c->peer);
       return c->peer;
     }
+    if(c->error>1 && c->error<=8) {
+      snprintf(out, outlen, "transcript message from peer %d could not be validated: %s", c->peer, tpdkg_recv_err(c->error - 1));
+      return c->peer;
+    }
     snprintf(out,outlen, "invalid error code for step 20: %d", c->error);
     return 0;
   } else if(c->step==22 && c->error==1) {
-- 
2.43.0


From 8b57cfd6b610452fdcbbacaf5c11ae782f491940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:37 +0000
Subject: [PATCH 17/50] fix: refuse thresholds below 2 in tpdkg_start_tp

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index fd13c7f..c85201f 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -642,7 +642,7 @@ int tpdkg_start_tp(TP_DKG_TPState *ctx, const uint64_t ts_epsilon,
              const char *proto_name, const size_t proto_name_len,
              const size_t msg0_len, TP_DKG_Message *msg0) {
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step 0. start protocol\e[0m\n");
-  if(2>n || t>=n || n>128) return 1;
+  if(t<2 || t>=n || n>128) return 1;
   if(proto_name_len<1) return 2;
   if(proto_name_len>1024) return 3;
   if(msg0_len != tpdkg_msg0_SIZE) return 4;
-- 
2.43.0


From d166dff8a37b1519b34ec79921a30436f0e5c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:44 +0000
Subject: [PATCH 18/50] fix: refuse peer indexes above the number of peers

---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index c85201f..0690950 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -770,7 +770,7 @@ static int peer_step23_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
   }
   int ret = recv_msg(input, tpdkg_msg1_SIZE, 1, 0, msg1->to, ctx->tp_sig_pk, ctx->sessionid, ctx->ts_epsilon, &ctx->tp_last_ts);
   if(0!=ret) return 4 + ret;
-  if(msg1->to > 128 || msg1->to < 1) return 3;
+  if(msg1->to > ctx->n || msg1->to < 1) return 3;
   ctx->index=msg1->to;
 
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[%d] step 3. send msg2 containing ephemeral pubkey\e[0m\n", ctx->index);
-- 
2.43.0


From 9fc6bb9292b934ef6fadf8c1aa7fc68a2d31d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:51 +0000
Subject: [PATCH 19/50] fix: fail peers after complaints instead of ending the
 accused ones as done

---
 src/tp-dkg.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 0690950..3ba5eb5 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1347,9 +1347,6 @@ static int peer_step17a_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     dump(output, tpdkg_peer_output_size(ctx), "msg");
   }
 
-  // we skip to the end...
-  ctx->step=99;
-
   return 0;
 }
 
@@ -1507,6 +1504,8 @@ static int peer_step19_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[%d] step 19. send final transcript\e[0m\n", ctx->index);
   if(input_len != 0) return 1;
   if(output_len != tpdkg_msg19_SIZE) return 2;
+  // after complaints the protocol cannot succeed anymore
+  if(ctx->complaints_len > 0) return 4;
 
   TP_DKG_Message* msg20 = (TP_DKG_Message*) output;
   crypto_generichash_final(&ctx->transcript, msg20->data, crypto_generichash_BYTES);
-- 
2.43.0


From fb98461a428555e83574cbb74981d99d1f836e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 20/50] fix: refuse inputs the C types cannot hold in blind and
 finalize

oprf_Blind takes an 8 bit length and oprf_Finalize a 16 bit one. Longer
inputs were silently shortened. A str was handed to C as wide characters.
---
 python/pyoprf/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index bac9ce0..54b2219 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -79,6 +79,10 @@ def keygen() -> bytes:
 #               uint8_t r[crypto_core_ristretto255_SCALARBYTES],
 #               uint8_t blinded[crypto_core_ristretto255_BYTES]);
 def blind(x: bytes) -> (bytes, bytes):
+    if not isinstance(x, bytes):
+        raise ValueError("param x is not of type bytes")
+    if len(x) > (1<<8)-1:
+        raise ValueError("param x is too long")
     r =       ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
     blinded = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_BYTES)
     __check(liboprf.oprf_Blind(x, ctypes.c_size_t(len(x)), r, blinded))
@@ -168,6 +172,10 @@ def unblind(r: bytes, Z: bytes) -> bytes:
 #                  const uint8_t N[crypto_core_ristretto255_BYTES],
 #                  uint8_t rwdU[OPRF_BYTES]);
 def finalize(x: bytes, N: bytes) -> bytes:
+    if not isinstance(x, bytes):
+        raise ValueError("param x is not of type bytes")
+    if len(x) > (1<<16)-1:
+        raise ValueError("param x is too long")
     if len(N) != pysodium.crypto_core_ristretto255_BYTES:
         raise ValueError("param N has incorrect length")
     if not isinstance(N, bytes):
-- 
2.43.0


From 9e47c3ea9e5c06a0080a61e0527476dc668d2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 21/50] fix: make coeff usable from Python

The list of peers cannot be passed through ctypes, every call failed.
Indexes that do not fit a byte are refused instead of being shortened.
---
 python/pyoprf/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 54b2219..8ac7b2d 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -204,11 +204,13 @@ TOPRF_Part_BYTES=pysodium.crypto_core_ristretto255_BYTES+1
 # @param [out] result - the lagrange coefficient
 #void coeff(const int index, const int peers_len, const uint8_t peers[peers_len], uint8_t result[crypto_scalarmult_ristretto255_SCALARBYTES]);
 def coeff(index: int, peers: list) -> bytes:
-    if index < 1: raise ValueError("index must be positive integer")
-    if len(peers) < 2: ValueError("peers must be a list of at least 2 integers")
+    if index < 1 or index > 255: raise ValueError("index outside valid range")
+    if len(peers) < 2: raise ValueError("peers must be a list of at least 2 integers")
+    if not all(p>0 and p<256 for p in peers):
+        raise ValueError("peer(s) outside valid range")
     peers_len=ctypes.c_size_t(len(peers))
     c = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
-    liboprf.coeff(index, peers_len, peers, c)
+    liboprf.coeff(index, peers_len, bytes(peers), c)
     return c.raw
 
 
-- 
2.43.0


From e2f552ab72acb3e4f6a5525c7153165ebe89e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 22/50] fix: create_shares must not check the result of a void
 function

toprf_create_shares returns nothing, the value checked was whatever was
left in the register.
---
 python/pyoprf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 8ac7b2d..67249c2 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -241,7 +241,7 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
     if t < 2:
         raise ValueError("t must be bigger than 1")
     shares = ctypes.create_string_buffer(n*TOPRF_Share_BYTES)
-    __check(liboprf.toprf_create_shares(secret, n, t, shares))
+    liboprf.toprf_create_shares(secret, n, t, shares)
     return tuple([bytes(s) for s in split_by_n(shares.raw, TOPRF_Share_BYTES)])
 
 
-- 
2.43.0


From 07f864475f07fb20004963e122c6935888e8c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 23/50] fix: refuse more than 255 parties in create_shares and
 the dkg functions

The C functions take the number of parties as a byte. Larger numbers were
shortened and the rest of the shares returned as zeroes.
---
 python/pyoprf/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 67249c2..9d555f4 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -236,6 +236,8 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
         raise ValueError("secret has incorrect length")
     if not isinstance(secret, bytes):
         raise ValueError("secret is not of type bytes")
+    if n > 255:
+        raise ValueError("n cannot be bigger than 255")
     if n < t:
         raise ValueError("t cannot be bigger than n")
     if t < 2:
@@ -386,6 +388,8 @@ def _3hashtdh(k: bytes, z: bytes, alpha: bytes, ssid_S: bytes) -> bytes:
 #              uint8_t commitments[dkg_commitment_BYTES(threshold)],
 #              TOPRF_Share shares[n]);
 def dkg_start(n : int, t : int) -> (bytes, bytes, bytes_list_t):
+    if n > 255:
+        raise ValueError("n cannot be bigger than 255")
     if n < t:
         raise ValueError("t cannot be bigger than n")
     if t < 2:
@@ -408,6 +412,8 @@ def dkg_start(n : int, t : int) -> (bytes, bytes, bytes_list_t):
 def dkg_verify_commitments(n: int, t: int, self: int,
                            commitments : bytes_list_t,
                            shares: bytes_list_t) -> bytes:
+    if n > 255:
+        raise ValueError("n cannot be bigger than 255")
     if n < t:
         raise ValueError("t cannot be bigger than n")
     if t < 2:
@@ -433,6 +439,8 @@ def dkg_verify_commitments(n: int, t: int, self: int,
 #                const uint8_t self,
 #                TOPRF_Share *xi);
 def dkg_finish(n: int, shares: List[bytes], self: int, ) -> bytes:
+    if n > 255:
+        raise ValueError("n cannot be bigger than 255")
     if self < 1 or self > n:
         raise ValueError("self must 1 <= self <= n")
     shares = b''.join(shares)
-- 
2.43.0


From 28d61703326cb5f89b6c5a50845766e46102e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 24/50] fix: raise the errors about too few responses

thresholdmult and threshold_combine created the exception but did not
raise it.
---
 python/pyoprf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 9d555f4..947fabd 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -266,7 +266,7 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
 #                        const uint8_t responses[response_len][TOPRF_Part_BYTES],
 #                        uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def thresholdmult(responses: bytes_list_t) -> bytes:
-    if len(responses) < 2: ValueError("responses must be a list of at least 2 integers")
+    if len(responses) < 2: raise ValueError("responses must be a list of at least 2 integers")
     if not all(isinstance(r,bytes) for r in responses):
         raise ValueError("at least one of the responses is not of type bytes")
     if not all(len(r)==TOPRF_Part_BYTES for r in responses):
@@ -341,7 +341,7 @@ def threshold_evaluate(k: bytes, blinded: bytes, self: int, indexes: list) -> by
 #                            const uint8_t _responses[response_len][TOPRF_Part_BYTES],
 #                            uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def threshold_combine(responses: bytes_list_t) -> bytes:
-    if len(responses) < 2: ValueError("responses must be a list of at least 2 integers")
+    if len(responses) < 2: raise ValueError("responses must be a list of at least 2 integers")
     if not all(isinstance(r,bytes) for r in responses):
         raise ValueError("at least one of the responses is not of type bytes")
     if not all(len(r)==TOPRF_Part_BYTES for r in responses):
-- 
2.43.0


From 0ea6682cb7c8277784b4b9ad8345dde664287f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 25/50] fix: refuse more indexes than fit in threshold_evaluate

The number of indexes was shortened to 16 bits.
---
 python/pyoprf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 947fabd..2c42d81 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -319,6 +319,8 @@ def threshold_evaluate(k: bytes, blinded: bytes, self: int, indexes: list) -> by
         raise ValueError("self outside valid range")
     if(not all(i>0 and i<256 for i in indexes)):
         raise ValueError("index(es) outside valid range")
+    if len(indexes) > 255:
+        raise ValueError("too many indexes")
     index_len=ctypes.c_uint16(len(indexes))
 
     indexes_buf=ctypes.create_string_buffer(bytes(indexes))
-- 
2.43.0


From 1541139647303a510ee5c2a9dd8f882d4e8647ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 26/50] fix: check the sizes and types of the parameters of the
 dkg functions

dkg_reconstruct read beyond its input when shares were short. Shares of
wrong sizes were accepted when only their sum fitted. Commitments given
as str were handed to C as wide characters.
---
 python/pyoprf/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 2c42d81..8ee797b 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -422,8 +422,12 @@ def dkg_verify_commitments(n: int, t: int, self: int,
         raise ValueError("t must be bigger than 1")
     if self < 1 or self > n:
         raise ValueError("self must 1 <= self <= n")
+    if not isinstance(commitments, bytes):
+        raise ValueError("commitments is not of type bytes")
     if len(commitments) != n*t*pysodium.crypto_core_ristretto255_BYTES:
         raise ValueError(f"signed_commitments must be {n*t*pysodium.crypto_core_ristretto255_BYTES} bytes is instead: {len(commitments)}")
+    if not all(len(s)==TOPRF_Share_BYTES for s in shares):
+        raise ValueError("at least one of the shares is not of correct size")
     shares = b''.join(shares)
     if len(shares) != n*TOPRF_Share_BYTES:
         raise ValueError(f"shares must be {TOPRF_Share_BYTES*n} bytes is instead {len(shares)}")
@@ -445,6 +449,8 @@ def dkg_finish(n: int, shares: List[bytes], self: int, ) -> bytes:
         raise ValueError("n cannot be bigger than 255")
     if self < 1 or self > n:
         raise ValueError("self must 1 <= self <= n")
+    if not all(len(s)==TOPRF_Share_BYTES for s in shares):
+        raise ValueError("at least one of the shares is not of correct size")
     shares = b''.join(shares)
     if len(shares) != n*TOPRF_Share_BYTES:
         raise ValueError(f"shares must be {TOPRF_Share_BYTES*n} bytes is instead {len(shares)}")
@@ -461,6 +467,8 @@ def dkg_finish(n: int, shares: List[bytes], self: int, ) -> bytes:
 #                     const TOPRF_Share responses[response_len][2],
 #                     uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def dkg_reconstruct(responses) -> bytes_list_t:
+    if not all(len(r)==TOPRF_Share_BYTES for r in responses):
+        raise ValueError("at least one of the responses is not of correct size")
     rlen = len(responses)
     responses = ctypes.create_string_buffer(b''.join(responses))
     result = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_BYTES)
-- 
2.43.0


From c49f476acf7f465868b166e1e0e05b9dccad63b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 27/50] fix: hash the whole protocol name given as str to
 tpdkg_start_tp

ctypes passes a str as wide characters of 4 bytes, of which only the first
len(proto_name) bytes were used. Names differing after their first quarter
lead to the same domain separation.
---
 python/pyoprf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 8ee797b..fef8624 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -579,6 +579,7 @@ def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
     if ctypes.addressof(state) % 32 != 0:
       raise ValueError("cannot align at 32bytes the TP_DKG_PeerState struct")
 
+    if isinstance(proto_name, str): proto_name = proto_name.encode('utf8')
     msg = ctypes.create_string_buffer(tpdkg_msg0_SIZE)
     __check(liboprf.tpdkg_start_tp(ctypes.byref(state), ts_epsilon, n, t, proto_name, ctypes.c_size_t(len(proto_name)), ctypes.c_size_t(len(msg.raw)), msg))
 
-- 
2.43.0


From 33c8044279e75da14d8103b64a5c38658054d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 28/50] fix: check the parameters starting a tpdkg session in
 Python

n, t and the time tolerance were shortened to the C types. Missing or
short keys and a short first message let the C code read beyond them.
---
 python/pyoprf/__init__.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index fef8624..f33bf6c 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -567,6 +567,14 @@ class TP_DKG_TPState(ctypes.Structure):
 #                  uint8_t (*peer_lt_pks)[][crypto_sign_PUBLICKEYBYTES],
 #                  uint64_t (*last_ts)[]);
 def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
+    if n < 0 or n > 255 or t < 0 or t > 255:
+        raise ValueError("n or t outside valid range")
+    if ts_epsilon < 0 or ts_epsilon >= 1<<64:
+        raise ValueError("ts_epsilon outside valid range")
+    if len(peer_lt_pks) != n:
+        raise ValueError("peer_lt_pks must have one key for each peer")
+    if not all(len(pk)==pysodium.crypto_sign_PUBLICKEYBYTES for pk in peer_lt_pks):
+        raise ValueError("at least one of the keys in peer_lt_pks is not of correct size")
     #state = TP_DKG_TPState()
     ## force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
@@ -581,7 +589,7 @@ def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
 
     if isinstance(proto_name, str): proto_name = proto_name.encode('utf8')
     msg = ctypes.create_string_buffer(tpdkg_msg0_SIZE)
-    __check(liboprf.tpdkg_start_tp(ctypes.byref(state), ts_epsilon, n, t, proto_name, ctypes.c_size_t(len(proto_name)), ctypes.c_size_t(len(msg.raw)), msg))
+    __check(liboprf.tpdkg_start_tp(ctypes.byref(state), ctypes.c_uint64(ts_epsilon), n, t, proto_name, ctypes.c_size_t(len(proto_name)), ctypes.c_size_t(len(msg.raw)), msg))
 
     peers_sig_pks = ctypes.create_string_buffer(n*pysodium.crypto_sign_PUBLICKEYBYTES)
     commitments = ctypes.create_string_buffer(n*t*pysodium.crypto_core_ristretto255_BYTES)
@@ -672,6 +680,16 @@ def tpdkg_get_cheaters(ctx):
 #                         uint16_t (*complaints)[],
 #                         uint8_t (*my_complaints)[]);
 def tpdkg_peer_start(ts_epsilon, peer_lt_sk, msg0):
+    if ts_epsilon < 0 or ts_epsilon >= 1<<64:
+        raise ValueError("ts_epsilon outside valid range")
+    if not isinstance(peer_lt_sk, bytes):
+        raise ValueError("peer_lt_sk is not of type bytes")
+    if len(peer_lt_sk) != pysodium.crypto_sign_SECRETKEYBYTES:
+        raise ValueError("peer_lt_sk has incorrect length")
+    if not isinstance(msg0, bytes):
+        raise ValueError("msg0 is not of type bytes")
+    if len(msg0) != tpdkg_msg0_SIZE:
+        raise ValueError("msg0 has incorrect length")
     #state = TP_DKG_PeerState()
     # force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
@@ -684,7 +702,7 @@ def tpdkg_peer_start(ts_epsilon, peer_lt_sk, msg0):
     if ctypes.addressof(state) % 32 != 0:
       raise ValueError("cannot align at 32bytes the TP_DKG_PeerState struct")
 
-    __check(liboprf.tpdkg_start_peer(ctypes.byref(state), ts_epsilon, peer_lt_sk, msg0))
+    __check(liboprf.tpdkg_start_peer(ctypes.byref(state), ctypes.c_uint64(ts_epsilon), peer_lt_sk, msg0))
 
     peers_sig_pks = ctypes.create_string_buffer(b"peer_sig_pks", state.n * pysodium.crypto_sign_PUBLICKEYBYTES)
     peers_noise_pks = ctypes.create_string_buffer(b"peer_noise_pks", state.n * pysodium.crypto_scalarmult_BYTES)
-- 
2.43.0


From a15b0cee60150adb4ab6c422ae3bbed30d34c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 29/50] fix: refuse messages given as str in the tpdkg
 functions

ctypes passes a str as wide characters. An empty one is still taken as no
message.
---
 python/pyoprf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index f33bf6c..8a52abd 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -633,6 +633,7 @@ def tpdkg_tp_output_size(ctx):
 def tpdkg_tp_next(ctx, msg):
     input_len = tpdkg_tp_input_size(ctx)
     if len(msg) != input_len: raise ValueError(f"input msg is invalid size: {len(msg)}B must be: {input_len}B")
+    if len(msg) and isinstance(msg, str): raise ValueError("input msg is not of type bytes")
     output_len = tpdkg_tp_output_size(ctx)
     output = ctypes.create_string_buffer(output_len)
     __check(liboprf.tpdkg_tp_next(ctypes.byref(ctx[0]), msg, input_len, output, output_len))
@@ -742,6 +743,7 @@ def tpdkg_peer_output_size(ctx):
 def tpdkg_peer_next(ctx, msg):
     input_len = tpdkg_peer_input_size(ctx)
     if len(msg) != input_len: raise ValueError(f"input msg is invalid size: {len(msg)}B must be: {input_len}B")
+    if len(msg) and isinstance(msg, str): raise ValueError("input msg is not of type bytes")
     output_len = tpdkg_peer_output_size(ctx)
     output = ctypes.create_string_buffer(output_len)
     __check(liboprf.tpdkg_peer_next(ctypes.byref(ctx[0]), msg, input_len, output, output_len))
-- 
2.43.0


From 4c5829d15d74940cd1dca676c45f7297425c8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 30/50] fix: refuse peers outside of the session in
 tpdkg_tp_peer_msg

The peer was shortened to a byte, the message of another one returned.
---
 python/pyoprf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 8a52abd..c70093c 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -641,6 +641,7 @@ def tpdkg_tp_next(ctx, msg):
 
 #int tpdkg_tp_peer_msg(const TP_DKG_TPState *ctx, const uint8_t *base, const size_t base_size, const uint8_t peer, const uint8_t **msg, size_t *len);
 def tpdkg_tp_peer_msg(ctx, base, peer):
+    if peer < 0 or peer >= ctx[0].n: raise ValueError("peer outside valid range")
     msg = ctypes.POINTER(ctypes.c_char)()
     size = ctypes.c_size_t()
     __check(liboprf.tpdkg_tp_peer_msg(ctypes.byref(ctx[0]), base, len(base.raw), peer, ctypes.byref(msg), ctypes.byref(size)))
-- 
2.43.0


From 9ba2852c11887ab0db5b3e9b36360988e1806616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:53 +0000
Subject: [PATCH 31/50] fix: skip invalid indexes in tpdkg_get_cheaters

The condition could never be true.
---
 python/pyoprf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index c70093c..7af018b 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -658,7 +658,7 @@ def tpdkg_get_cheaters(ctx):
     for i in range(ctx[0].cheater_len):
         err = ctypes.create_string_buffer(tpdkg_max_err_SIZE)
         p = liboprf.tpdkg_cheater_msg(ctypes.byref(ctx[1][i]), err, tpdkg_max_err_SIZE)
-        if 0 >= p > ctx[0].n:
+        if p < 1 or p > ctx[0].n:
             print(f"invalid cheater index: {p}, skipping this entry")
             continue
         cheaters.add(p)
-- 
2.43.0


From d77ada51c052642da87c82744c549650c96f4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:32 +0000
Subject: [PATCH 32/50] fix: declare the result types of the noiseXK functions

Noise_XK_session_write and _read return a struct of two bytes and unpacking
a bool. Both were read as int, of which the upper bytes are undefined.
---
 python/pyoprf/noisexk.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index b080a9d..30abd2d 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -87,14 +87,19 @@ def create_session_responder(device):
     if res == 0: raise ValueError
     return res
 
+class rcode(ctypes.Structure):
+    _fields_ = [('tag',  c_ubyte),
+                ('code', c_ubyte)]
+
 lib.Noise_XK_pack_message_with_conf_level.restype = c_void_p
+lib.Noise_XK_session_write.restype = rcode
 lib.Noise_XK_session_write.argtypes = [c_void_p, c_void_p, POINTER(c_uint32), POINTER(POINTER(c_ubyte))]
 lib.Noise_XK_encap_message_p_free.argtypes = [c_void_p]
 def initiator_1st_msg(session):
     encap_msg = lib.Noise_XK_pack_message_with_conf_level(0, 0, 0);
     msg_len = c_uint32()
     msg = POINTER(c_ubyte)()
-    if 0!=lib.Noise_XK_session_write(encap_msg, session, byref(msg_len), byref(msg)):
+    if 0!=lib.Noise_XK_session_write(encap_msg, session, byref(msg_len), byref(msg)).tag:
         raise ValueError
     lib.Noise_XK_encap_message_p_free(encap_msg)
     res = bytes(msg[i] for i in range(msg_len.value))
@@ -103,13 +108,15 @@ def initiator_1st_msg(session):
     return res
 
 # Noise_XK_session_read(&encap_msg, bob_session, cipher_msg_len, cipher_msg);
+lib.Noise_XK_session_read.restype = rcode
 lib.Noise_XK_session_read.argtypes = [POINTER(c_void_p), c_void_p, c_uint32, POINTER(c_ubyte)]
+lib.Noise_XK_unpack_message_with_auth_level.restype = ctypes.c_bool
 # Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg),
 def responder_1st_msg(session, msg):
     encap_msg = c_void_p()
     msg = (c_ubyte * len(msg)).from_buffer(bytearray(msg))
     msg_len = c_uint32(len(msg))
-    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, msg_len, msg):
+    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, msg_len, msg).tag:
         raise ValueError
     plain_msg_len = c_uint32()
     plain_msg = POINTER(c_ubyte)()
@@ -124,7 +131,7 @@ def initiator_handshake_finish(session, msg):
     encap_msg = c_void_p()
     msg = (c_ubyte * len(msg)).from_buffer(bytearray(msg))
     msg_len = c_uint32(len(msg))
-    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, msg_len, msg):
+    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, msg_len, msg).tag:
         raise ValueError
     plain_msg_len = c_uint32()
     plain_msg = POINTER(c_ubyte)()
@@ -139,7 +146,7 @@ def send_msg(session, msg):
     encap_msg = lib.Noise_XK_pack_message_with_conf_level(NOISE_XK_CONF_STRONG_FORWARD_SECRECY, len(msg), msg);
     ct_len = c_uint32()
     ct = POINTER(c_ubyte)()
-    if 0!=lib.Noise_XK_session_write(encap_msg, session, byref(ct_len), byref(ct)):
+    if 0!=lib.Noise_XK_session_write(encap_msg, session, byref(ct_len), byref(ct)).tag:
         raise ValueError
     lib.Noise_XK_encap_message_p_free(encap_msg)
     res = bytes(ct[:ct_len.value])
@@ -151,7 +158,7 @@ def read_msg(session, msg):
     encap_msg = c_void_p()
     u_bytes = (c_ubyte * (len(msg)))()
     u_bytes[:] = msg
-    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, len(msg), u_bytes):
+    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, len(msg), u_bytes).tag:
         raise ValueError
     plain_msg_len = c_uint32()
     plain_msg = POINTER(c_ubyte)()
-- 
2.43.0


From f1f0f5b1840dfdb7465bb08f2a658fa9efd5d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:32 +0000
Subject: [PATCH 33/50] fix: notice when a noiseXK device, peer or session is
 not created

ctypes returns None for a NULL pointer, which was compared to 0 or not
looked at. Peers that cannot be added were then used as NULL pointers.
---
 python/pyoprf/noisexk.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index 30abd2d..c8b0284 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -50,7 +50,9 @@ def __check(code):
 lib.Noise_XK_device_add_peer.restype = c_void_p
 lib.Noise_XK_device_add_peer.argtypes = [c_void_p, c_void_p, ctypes.c_char_p]
 def add_peer(device, name, key):
-    return lib.Noise_XK_device_add_peer(device, name, key)
+    res = lib.Noise_XK_device_add_peer(device, name, key)
+    if not res: raise ValueError
+    return res
 
 def pubkey(privkey):
     pubkey = ctypes.create_string_buffer(KEYSIZE)
@@ -60,7 +62,9 @@ def pubkey(privkey):
 lib.Noise_XK_device_create.restype = c_void_p
 def create_device(prologue, name, privkey):
     srlz_key = b'\x00'*KEYSIZE
-    return lib.Noise_XK_device_create(len(prologue), prologue, name, srlz_key, privkey)
+    res = lib.Noise_XK_device_create(len(prologue), prologue, name, srlz_key, privkey)
+    if not res: raise ValueError
+    return res
 
 lib.Noise_XK_peer_get_id.restype = c_void_p
 lib.Noise_XK_peer_get_id.argtypes = [c_void_p]
@@ -77,14 +81,14 @@ lib.Noise_XK_session_create_initiator.restype = c_void_p
 lib.Noise_XK_session_create_initiator.argtypes = [c_void_p, c_void_p]
 def create_session_initiator(device, peerid):
     res = lib.Noise_XK_session_create_initiator(device, peerid)
-    if res == 0: raise ValueError
+    if not res: raise ValueError
     return res
 
 lib.Noise_XK_session_create_responder.restype = c_void_p
 lib.Noise_XK_session_create_responder.argtypes = [c_void_p]
 def create_session_responder(device):
     res = lib.Noise_XK_session_create_responder(device)
-    if res == 0: raise ValueError
+    if not res: raise ValueError
     return res
 
 class rcode(ctypes.Structure):
@@ -179,6 +183,7 @@ lib.Noise_XK_peer_get_static.argtypes = [(c_char * 32), c_void_p]
 def get_pubkey(session, device):
     peerid = lib.Noise_XK_session_get_peer_id(session)
     peer = lib.Noise_XK_device_lookup_peer_by_id(device, peerid);
+    if not peer: raise ValueError
     pubkey = ctypes.create_string_buffer(KEYSIZE)
     lib.Noise_XK_peer_get_static(pubkey, peer);
     return pubkey.raw
-- 
2.43.0


From 8f09a33b9a40262173d055f2703148f65b010035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:32 +0000
Subject: [PATCH 34/50] fix: pass the prologue and names given as str to
 noiseXK completely

ctypes passes a str as wide characters of 4 bytes, only the first
len(prologue) bytes of which were used. Prologues differing after their
first quarter were taken as equal.
---
 python/pyoprf/noisexk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index c8b0284..3192796 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -50,6 +50,7 @@ def __check(code):
 lib.Noise_XK_device_add_peer.restype = c_void_p
 lib.Noise_XK_device_add_peer.argtypes = [c_void_p, c_void_p, ctypes.c_char_p]
 def add_peer(device, name, key):
+    if isinstance(name, str): name = name.encode('utf8')
     res = lib.Noise_XK_device_add_peer(device, name, key)
     if not res: raise ValueError
     return res
@@ -61,6 +62,8 @@ def pubkey(privkey):
 
 lib.Noise_XK_device_create.restype = c_void_p
 def create_device(prologue, name, privkey):
+    if isinstance(prologue, str): prologue = prologue.encode('utf8')
+    if isinstance(name, str): name = name.encode('utf8')
     srlz_key = b'\x00'*KEYSIZE
     res = lib.Noise_XK_device_create(len(prologue), prologue, name, srlz_key, privkey)
     if not res: raise ValueError
-- 
2.43.0


From 3648a62466048f9adb9383d6a8f8993735e8d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:32 +0000
Subject: [PATCH 35/50] fix: check the keys passed to noiseXK

Short keys let the C code read beyond them, a str was passed as wide
characters.
---
 python/pyoprf/noisexk.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index 3192796..795f6e9 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -47,15 +47,23 @@ def __check(code):
     if code != 0:
         raise ValueError
 
+def __check_key(key):
+    if not isinstance(key, bytes):
+        raise ValueError("key is not of type bytes")
+    if len(key) != KEYSIZE:
+        raise ValueError("key has incorrect length")
+
 lib.Noise_XK_device_add_peer.restype = c_void_p
 lib.Noise_XK_device_add_peer.argtypes = [c_void_p, c_void_p, ctypes.c_char_p]
 def add_peer(device, name, key):
     if isinstance(name, str): name = name.encode('utf8')
+    __check_key(key)
     res = lib.Noise_XK_device_add_peer(device, name, key)
     if not res: raise ValueError
     return res
 
 def pubkey(privkey):
+    __check_key(privkey)
     pubkey = ctypes.create_string_buffer(KEYSIZE)
     lib.Noise_XK_dh_secret_to_public(pubkey, privkey)
     return pubkey.raw
@@ -64,6 +72,7 @@ lib.Noise_XK_device_create.restype = c_void_p
 def create_device(prologue, name, privkey):
     if isinstance(prologue, str): prologue = prologue.encode('utf8')
     if isinstance(name, str): name = name.encode('utf8')
+    __check_key(privkey)
     srlz_key = b'\x00'*KEYSIZE
     res = lib.Noise_XK_device_create(len(prologue), prologue, name, srlz_key, privkey)
     if not res: raise ValueError
-- 
2.43.0


From 645ce9cfaf603e03308e7cf89ce656ea5504633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:19 +0000
Subject: [PATCH 36/50] fix: connect peers of type TCP

The socket was only kept for type SSL. Only SSL sockets know about pending
bytes.
---
 python/pyoprf/multiplexer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index e163af3..0646191 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -39,6 +39,8 @@ class Peer:
         s.settimeout(self.timeout)
         if self.type == "SSL":
             self.fd = ctx.wrap_socket(s, server_hostname=self.address[0])
+        else:
+            self.fd = s
         self.fd.connect(self.address)
         self.state="connected"
 
@@ -111,7 +113,7 @@ class Multiplexer:
            n=len(self.peers)
        responses={}
        for idx, peer in enumerate(self.peers):
-           pending = peer.fd.pending()
+           pending = peer.fd.pending() if peer.type == "SSL" else 0
            if pending == expectedmsglen:
                pkt = peer.read(expectedmsglen)
                if debug: print(f"{idx} got pending {len(pkt)}")
-- 
2.43.0


From 6afd79d126e4345c3c286f57fce4c947835d8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:19 +0000
Subject: [PATCH 37/50] fix: gather messages of which more than one is already
 decrypted

select() does not report bytes that the SSL layer holds already, gather
waited forever for a peer that had sent two messages at once.
---
 python/pyoprf/multiplexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index 0646191..945946f 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -114,7 +114,7 @@ class Multiplexer:
        responses={}
        for idx, peer in enumerate(self.peers):
            pending = peer.fd.pending() if peer.type == "SSL" else 0
-           if pending == expectedmsglen:
+           if pending >= expectedmsglen:
                pkt = peer.read(expectedmsglen)
                if debug: print(f"{idx} got pending {len(pkt)}")
                if pkt == b'\x00\x04fail':
-- 
2.43.0


From f6cc9fd376c7e758cdf645adc7bcbfe89e68d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:19 +0000
Subject: [PATCH 38/50] fix: do not return incomplete messages from gather

A peer that disconnects within a message has failed, as one that reports
its failure. The fragment was returned as its response.
---
 python/pyoprf/multiplexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index 945946f..df86f9e 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -117,7 +117,7 @@ class Multiplexer:
            if pending >= expectedmsglen:
                pkt = peer.read(expectedmsglen)
                if debug: print(f"{idx} got pending {len(pkt)}")
-               if pkt == b'\x00\x04fail':
+               if pkt == b'\x00\x04fail' or len(pkt) < expectedmsglen:
                    responses[idx]=None
                    continue
                responses[idx]=pkt if not proc else proc(pkt)
@@ -139,7 +139,7 @@ class Multiplexer:
                 continue
              #print(f"gathering {idx}")
              pkt = fds[fd][1].read(expectedmsglen)
-             if pkt == b'\x00\x04fail':
+             if pkt == b'\x00\x04fail' or len(pkt) < expectedmsglen:
                  responses[idx]=None
                  continue
              if debug: print(f"{idx} got response of {len(pkt)}")
-- 
2.43.0


From c14796ccd2bbec454391b9c5a7b56fc1597b72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:19 +0000
Subject: [PATCH 39/50] fix: do not wait for disconnected peers in gather

Their sockets are always readable and reading from them raises, so the
responses of the other peers could not be gathered anymore.
---
 python/pyoprf/multiplexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index df86f9e..b616b70 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -126,7 +126,7 @@ class Multiplexer:
            #elif pending != 0:
            #    print(f"wtf peer {peer.name} has {peer.fd.pending()} bytes pending, which is not equ {expectedmsglen}")
        while len(responses)<n:
-          fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.fd.fileno() >= 0}
+          fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.state == "connected" and x.fd.fileno() >= 0}
           if not fds: raise ValueError("not enough peers left to get enough results")
           #print("select")
           r, _,_ =select.select(fds.keys(),[],[],2)
-- 
2.43.0


From 962bb19012cc6adfdc7a45bcd90bf43db98a7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:19 +0000
Subject: [PATCH 40/50] fix: ignore messages refused by proc also if they were
 pending

They were counted as failure of the peer if the SSL layer had them
decrypted already, but skipped otherwise.
---
 python/pyoprf/multiplexer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index b616b70..5f89084 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -120,7 +120,9 @@ class Multiplexer:
                if pkt == b'\x00\x04fail' or len(pkt) < expectedmsglen:
                    responses[idx]=None
                    continue
-               responses[idx]=pkt if not proc else proc(pkt)
+               tmp = pkt if not proc else proc(pkt)
+               if tmp is None: continue
+               responses[idx]=tmp
            #if peer.fd.fileno() < 0:
            #  print(f"{peer} has negative fileno: {peer.fd.fileno()}")
            #elif pending != 0:
-- 
2.43.0


From a4f3dc67b796e325d633b08223f1a3fb4030e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:58 +0000
Subject: [PATCH 41/50] fix: gather must not block on or fail with a single
 peer

Reading waited for the rest of a message while others had already answered.
It gave up with an exception when a peer stalled within a message, when its
connection was reset and when the socket became readable because of TLS
messages without data, like session tickets. Messages left in the TLS buffer
after proc refused one were not noticed.
---
 python/pyoprf/multiplexer.py | 59 +++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index 5f89084..37ffd4e 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -15,6 +15,7 @@ class Peer:
         self.timeout = timeout
         self.state = "new"
         self.fd = None
+        self.partial = b''  # beginning of a message that is not complete yet
 
     def connect(self):
         if self.state == "connected":
@@ -42,14 +43,16 @@ class Peer:
         else:
             self.fd = s
         self.fd.connect(self.address)
+        self.partial = b''
         self.state="connected"
 
     def read(self,size):
         if self.state != "connected":
             raise ValueError(f"{self.name} cannot read, is not connected")
 
-        res = []
-        read = 0
+        res = [self.partial[:size]] if self.partial else []
+        self.partial = self.partial[size:]
+        read = len(b''.join(res))
         while read<size and (len(res)==0 or len(res[-1])!=0):
           res.append(self.fd.recv(size-read))
           read+=len(res[-1])
@@ -59,6 +62,25 @@ class Peer:
             #raise ValueError(f"short read for {self.name}, only {len(b''.join(res))} instead of expected {size} bytes")
         return b''.join(res)
 
+    # like read() but does not wait: returns None if there are not yet size bytes available
+    def read_nowait(self, size):
+        self.fd.settimeout(0)
+        try:
+            while len(self.partial) < size:
+                pkt = self.fd.recv(size-len(self.partial))
+                if len(pkt) == 0:
+                    self.state = 'disconnected'
+                    break
+                self.partial += pkt
+        except (BlockingIOError, ssl.SSLWantReadError, ssl.SSLWantWriteError):
+            return None
+        except OSError:
+            self.state = 'disconnected'
+        finally:
+            self.fd.settimeout(self.timeout)
+        res, self.partial = self.partial[:size], self.partial[size:]
+        return res
+
     def send(self, msg):
         self.fd.sendall(msg)
 
@@ -112,35 +134,15 @@ class Multiplexer:
        if n is None:
            n=len(self.peers)
        responses={}
-       for idx, peer in enumerate(self.peers):
-           pending = peer.fd.pending() if peer.type == "SSL" else 0
-           if pending >= expectedmsglen:
-               pkt = peer.read(expectedmsglen)
-               if debug: print(f"{idx} got pending {len(pkt)}")
-               if pkt == b'\x00\x04fail' or len(pkt) < expectedmsglen:
-                   responses[idx]=None
-                   continue
-               tmp = pkt if not proc else proc(pkt)
-               if tmp is None: continue
-               responses[idx]=tmp
-           #if peer.fd.fileno() < 0:
-           #  print(f"{peer} has negative fileno: {peer.fd.fileno()}")
-           #elif pending != 0:
-           #    print(f"wtf peer {peer.name} has {peer.fd.pending()} bytes pending, which is not equ {expectedmsglen}")
        while len(responses)<n:
           fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.state == "connected" and x.fd.fileno() >= 0}
           if not fds: raise ValueError("not enough peers left to get enough results")
-          #print("select")
-          r, _,_ =select.select(fds.keys(),[],[],2)
-          #print("select done")
-          if not r: continue
-          #print("got r")
-          for fd in r:
-             idx = fds[fd][0]
-             if idx in responses:
-                continue
-             #print(f"gathering {idx}")
-             pkt = fds[fd][1].read(expectedmsglen)
+          # TLS might have already buffered messages, which select does not see, thus we read before we select
+          idle = True
+          for idx, peer in fds.values():
+             pkt = peer.read_nowait(expectedmsglen)
+             if pkt is None: continue
+             idle = False
              if pkt == b'\x00\x04fail' or len(pkt) < expectedmsglen:
                  responses[idx]=None
                  continue
@@ -148,6 +150,7 @@ class Multiplexer:
              tmp = pkt if not proc else proc(pkt)
              if tmp is None: continue
              responses[idx]=tmp
+          if idle: select.select(fds.keys(),[],[],2)
        if set((tuple(e) if isinstance(e,list) else e) for e in responses.values())=={None}:
            raise ValueError("oracles failed")
        if None in responses.values():
-- 
2.43.0


From 7038460c2dc9e89396a8b8ff4453ef5a77edd4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:58 +0000
Subject: [PATCH 42/50] fix: accept all kinds of results of proc in gather

Results which are not hashable raised a TypeError.
---
 python/pyoprf/multiplexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index 37ffd4e..ff6945d 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -151,7 +151,7 @@ class Multiplexer:
              if tmp is None: continue
              responses[idx]=tmp
           if idle: select.select(fds.keys(),[],[],2)
-       if set((tuple(e) if isinstance(e,list) else e) for e in responses.values())=={None}:
+       if responses and all(e is None for e in responses.values()):
            raise ValueError("oracles failed")
        if None in responses.values():
            if debug: print(f"some reponses failed")
-- 
2.43.0


From 89108d8b5ae4ed0b5965a5a32b07725d39f295df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:28:54 +0000
Subject: [PATCH 43/50] fix: check the number of responses before allocating
 for them

toprf_thresholdmult() put an array of response_len bytes on the stack
before it refused more than 255 responses, a huge count thus crashed.
---
 src/toprf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index 285bf62..72f1c32 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -138,8 +138,8 @@ int toprf_thresholdmult(const size_t response_len,
   memset(result,0,crypto_scalarmult_ristretto255_BYTES);
 
   // sort the responses by their indexes
-  uint8_t indexed_indexes[response_len];
   if(response_len>255) return 1;
+  uint8_t indexed_indexes[response_len];
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   uint8_t indexes[response_len];
-- 
2.43.0


From a0e3d8e7fe500d10348f3aaa2e95a57f2606896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:20:58 +0000
Subject: [PATCH 44/50] fix: do not keep a socket whose connection failed

---
 python/pyoprf/multiplexer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index ff6945d..b74767e 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -39,10 +39,13 @@ class Peer:
         s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         s.settimeout(self.timeout)
         if self.type == "SSL":
-            self.fd = ctx.wrap_socket(s, server_hostname=self.address[0])
-        else:
-            self.fd = s
-        self.fd.connect(self.address)
+            s = ctx.wrap_socket(s, server_hostname=self.address[0])
+        try:
+            s.connect(self.address)
+        except:
+            s.close()
+            raise
+        self.fd = s # only now, a socket whose TLS handshake failed would send in clear
         self.partial = b''
         self.state="connected"
 
-- 
2.43.0


From 609261945e5845d840ee407d0c48a0cf8cd339e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:20:58 +0000
Subject: [PATCH 45/50] fix: unlock the hashed input when blinding fails

---
 src/oprf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oprf.c b/src/oprf.c
index 613218f..cf4a074 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -297,7 +297,10 @@ int oprf_Blind(const uint8_t *x, const uint8_t x_len,
     return -1;
   }
   // sets α := (H^0(pw))^r
-  if(0!=voprf_hash_to_group(x, x_len, H0)) return -1;
+  if(0!=voprf_hash_to_group(x, x_len, H0)) {
+    sodium_munlock(H0,sizeof H0);
+    return -1;
+  }
 #if (defined TRACE || defined CFRG_TEST_VEC)
   dump(H0,sizeof H0, "H0");
 #endif
-- 
2.43.0


From aad634e55cf20199e7d7ca3e355345e3689dbae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:20:58 +0000
Subject: [PATCH 46/50] fix: free the peers and the symmetric key of a noise
 device

---
 src/noise_xk/src/XK.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/noise_xk/src/XK.c b/src/noise_xk/src/XK.c
index d928b67..8b23a57 100644
--- a/src/noise_xk/src/XK.c
+++ b/src/noise_xk/src/XK.c
@@ -582,6 +582,13 @@ free___Impl_Noise_API_Device_raw_peer_p_or_null_raw_Impl_Noise_API_Device_raw_pe
   if (!(l == NULL))
   {
     free___Impl_Noise_API_Device_raw_peer_p_or_null_raw_Impl_Noise_API_Device_raw_peer_t_raw_uint32_t_Impl_Noise_String_hstring__uint8_t____((*l).next);
+    Noise_XK_peer_t p = (*l).data[0U];
+    uint8_t *str = p.p_info[0U];
+    if (!(str == NULL))
+      KRML_HOST_FREE(str);
+    KRML_HOST_FREE(p.p_info);
+    KRML_HOST_FREE(p.p_s);
+    KRML_HOST_FREE((*l).data);
     KRML_HOST_FREE(l);
   }
 }
@@ -610,6 +617,7 @@ void Noise_XK_device_free(Noise_XK_device_t *dvp)
   KRML_HOST_FREE(dv.dv_info);
   free__Impl_Noise_API_Device_raw_peer_p_or_null_raw_Impl_Noise_API_Device_raw_peer_t_raw_uint32_t_Impl_Noise_String_hstring__uint8_t____(dv.dv_peers);
   KRML_HOST_FREE(dv.dv_peers);
+  KRML_HOST_FREE(dv.dv_sk);
   KRML_HOST_FREE(dv.dv_spriv);
   KRML_HOST_FREE(dv.dv_spub);
   if (!(dv.dv_prologue.buffer == NULL))
-- 
2.43.0


From f2a7b025495e86370477dd7d7234ddbf1891ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:45:53 +0000
Subject: [PATCH 47/50] fix: wipe the coefficients after sharing a secret

---
 src/toprf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toprf.c b/src/toprf.c
index 72f1c32..275eff6 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -106,6 +106,8 @@ void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYT
       crypto_core_ristretto255_scalar_add(shares[i-1].value, shares[i-1].value, tmp);
     }
   }
+  // with the coefficients a single share reveals the secret
+  for(i=0;i+1<threshold;i++) sodium_memzero(a[i], sizeof a[i]);
 }
 
 static void sort_parts(const int n, const TOPRF_Part parts[n], uint8_t indexes[n]) {
-- 
2.43.0


From 5cc94d4a854ffbdb965b337ba28cb494c4451666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:45:53 +0000
Subject: [PATCH 48/50] fix: wipe the weighted key share after evaluation

---
 src/toprf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index 275eff6..a5c2656 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -175,7 +175,9 @@ int toprf_Evaluate(const uint8_t _k[TOPRF_Share_BYTES],
 
   TOPRF_Part *Z=(TOPRF_Part*) _Z;
   Z->index=self;
-  if(oprf_Evaluate(kl,blinded, Z->value)) return 1;
+  const int ret = oprf_Evaluate(kl,blinded, Z->value);
+  sodium_memzero(kl, sizeof kl);
+  if(ret) return 1;
 
   return 0;
 }
-- 
2.43.0


From 168ff2d012a027e5ec20920f07a7e3f99d02e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:45:53 +0000
Subject: [PATCH 49/50] fix: wipe the product of the shares after sharing it

---
 src/mpmult.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpmult.c b/src/mpmult.c
index e5ff412..b2f789e 100644
--- a/src/mpmult.c
+++ b/src/mpmult.c
@@ -167,6 +167,7 @@ int toprf_mpc_mul_start(const uint8_t _a[TOPRF_Share_BYTES],
   crypto_core_ristretto255_scalar_mul(ab, a->value, b->value);
   //dump(ab, sizeof ab, "ab");
   toprf_create_shares(ab, peers, threshold, shares);
+  sodium_memzero(ab, sizeof ab);
   //for(unsigned j=0;j<peers;j++)
     //dump(shares[j], TOPRF_Share_BYTES, "mulshare");
   return 0;
-- 
2.43.0


From 65457deaabae564ba598b2bc9d3039723ba3a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:52:34 +0000
Subject: [PATCH 50/50] fix: wipe the copies of the input after expanding it

---
 src/oprf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oprf.c b/src/oprf.c
index cf4a074..6793dce 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -118,6 +118,7 @@ static void expand_loop(const uint8_t *b_0, const uint8_t *b_i, const uint8_t i,
   crypto_hash_sha512_update(&state, dst_prime, dst_prime_len);
   crypto_hash_sha512_final(&state, b_ii);
   sodium_memzero(&state,sizeof state);
+  sodium_memzero(xored,sizeof xored);
 }
 
 /*
@@ -239,6 +240,10 @@ int expand_message_xmd(const uint8_t *msg, const uint8_t msg_len, const uint8_t
     out+=clen;
     left-=clen;
   }
+  sodium_memzero(msg_prime,sizeof msg_prime);
+  sodium_memzero(b_0,sizeof b_0);
+  sodium_memzero(b_i,sizeof b_i);
+  sodium_memzero(b_ii,sizeof b_ii);
   return 0;
 }
 
-- 
2.43.0


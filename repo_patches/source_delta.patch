From f769476403b288787d299ce24e9c5f5487cebd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 01/51] fix: recover_pub_poly must interpolate at the indices
 of the given shares

The loop used the position of a share in the map instead of its index, so
any share set other than 0..t-1 panicked.
---
 src/share/poly.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index be34e4e..b5f6a96 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -617,11 +617,11 @@ pub fn recover_pub_poly<GROUP: Group>(
 
     let mut acc_poly = PubPoly::new(&g, None, &[]);
 
-    for (j, _) in x.iter().enumerate() {
-        let basis = lagrange_basis(&g, j, x.clone());
+    for j in x.keys() {
+        let basis = lagrange_basis(&g, *j, x.clone());
 
         // compute the L_j * y_j polynomial in point space
-        let tmp = basis.commit(Some(&y[&j]));
+        let tmp = basis.commit(Some(&y[j]));
         if acc_poly.commits.is_empty() {
             acc_poly = tmp;
             continue;
-- 
2.43.0


From b907f44ea237dc862ef400055c6d6db188d6ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 02/51] fix: a recovered public polynomial has the standard
 base

recover_pub_poly left one of the public shares as the base point of its
result, so check() on the result refused correct shares.
---
 src/share/poly.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index b5f6a96..48b9118 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -631,6 +631,9 @@ pub fn recover_pub_poly<GROUP: Group>(
         acc_poly = acc_poly.add(&tmp)?;
     }
 
+    // the shares stand in for the base above, they are not the base of the result
+    acc_poly.b = None;
+
     Ok(acc_poly)
 }
 
-- 
2.43.0


From 20ce74d2f439103f3eac4acdd9c264db5c3d5160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 03/51] fix: public polynomials of different degree are not
 equal

PubPoly::equal only compared the common prefix, and panicked when the other
polynomial was the shorter one.
---
 src/share/poly.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index 48b9118..61813ca 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -512,6 +512,9 @@ impl<GROUP: Group> PubPoly<GROUP> {
         if self.g.to_string() != q.g.to_string() {
             return Ok(false);
         }
+        if self.threshold() != q.threshold() {
+            return Ok(false);
+        }
         let mut b = true;
         for i in 0..self.threshold() {
             let pb = self.commits[i].marshal_binary()?;
-- 
2.43.0


From af2e6bdddd31ef183fd9ca98b744c74e32858fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 04/51] fix: the threshold set on a verifier is not overwritten
 by the deal's

---
 src/share/vss/pedersen/vss.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 5b6b0c9..7a016f1 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -881,7 +881,10 @@ where
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
-            self.t = d.t;
+            // a threshold specified beforehand prevails
+            if self.t == 0 {
+                self.t = d.t;
+            }
         }
 
         if !valid_t(d.t, &self.verifiers) {
-- 
2.43.0


From 0d7edc50db0bf8454f5719ba09674f8728db7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 05/51] fix: a Pedersen VSS deal must name the session of its
 own commitments

---
 src/share/vss/pedersen/vss.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 7a016f1..a8ac155 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -552,6 +552,8 @@ pub fn new_verifier<SUITE: Suite>(
         return Err(VSSError::PublicKeyNotFound);
     }
     let c = context(suite, dealer_key, verifiers);
+    let mut aggregator = new_empty_aggregator(suite, verifiers);
+    aggregator.dealer = dealer_key.clone();
     Ok(Verifier {
         suite,
         longterm: longterm.clone(),
@@ -560,7 +562,7 @@ pub fn new_verifier<SUITE: Suite>(
         pubb,
         index,
         hkdf_context: c,
-        aggregator: Some(new_empty_aggregator(suite, verifiers)),
+        aggregator: Some(aggregator),
     })
 }
 
@@ -891,11 +893,19 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
-        if d.t != self.t {
+        if d.t != self.t || d.commitments.len() != d.t {
             return Err(VSSError::DealIncompatibleThreshold);
         }
 
-        if self.sid != d.session_id {
+        // the session id binds the deal to its dealer, verifiers and commitments
+        let sid = session_id(
+            &self.suite,
+            &self.dealer,
+            &self.verifiers,
+            &d.commitments,
+            d.t,
+        )?;
+        if self.sid != d.session_id || sid != d.session_id {
             return Err(VSSError::DealInvalidSessionId);
         }
 
-- 
2.43.0


From 7bef57a524650921cb992cbb72fa3bdd9ef6c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 06/51] fix: a Rabin VSS deal must name the session of its own
 commitments

---
 src/share/vss/rabin/vss.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 634ffe1..4cbda18 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -874,7 +874,19 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
-        if self.sid != d.session_id {
+        if d.commitments.len() != d.t {
+            return Err(VSSError::DealIncompatibleThreshold);
+        }
+
+        // the session id binds the deal to its dealer, verifiers and commitments
+        let sid = session_id(
+            &self.suite,
+            &self.dealer,
+            &self.verifiers,
+            &d.commitments,
+            d.t,
+        )?;
+        if self.sid != d.session_id || sid != d.session_id {
             return Err(VSSError::DealInvalidSessionId);
         }
 
-- 
2.43.0


From 28bea19f3f29a238bb80615c292a8d833bc66eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 07/51] fix: a justified complaint becomes an approval in
 Pedersen VSS

---
 src/share/vss/pedersen/vss.rs | 37 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index a8ac155..6055da5 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -968,20 +968,35 @@ where
             return Err(VSSError::JustificationNoComplaints);
         }
 
-        // clone the resp here
-        let mut r = self.responses[&j.index].clone();
-
-        if r.status != STATUS_COMPLAINT {
+        if self.responses[&j.index].status != STATUS_COMPLAINT {
             return Err(VSSError::JustificationForApproval);
         }
 
-        match self.verify_deal(&j.deal, false) {
-            Ok(_) => r.status = STATUS_APPROVAL,
-            Err(err) => {
-                // if one justification is bad, then flag the dealer as malicious
-                self.bad_dealer = true;
-                return Err(err);
-            }
+        // without a deal there is nothing to compare the justification with
+        let own = match &self.deal {
+            Some(deal) => deal.sec_share.i,
+            None => return Err(VSSError::MissingAggregator),
+        };
+
+        let mut verification = self.verify_deal(&j.deal, false);
+        if j.deal.sec_share.i != j.index as usize {
+            // the deal of another verifier justifies nothing
+            verification = Err(VSSError::DealWrongIndex);
+        }
+        if let Err(err) = verification {
+            // if one justification is bad, then flag the dealer as malicious
+            self.bad_dealer = true;
+            return Err(err);
+        }
+
+        // a justified complaint becomes an approval
+        if let Some(r) = self.responses.get_mut(&j.index) {
+            r.status = STATUS_APPROVAL;
+        }
+        if own == j.index as usize {
+            // the justification carries the valid deal we complained for
+            self.commits = j.deal.commitments.clone();
+            self.deal = Some(j.deal.clone());
         }
         Ok(())
     }
-- 
2.43.0


From aaee9c9189d2c919b2273500307074ba349629fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 08/51] fix: a Rabin VSS justification is about the deal of the
 complaining verifier

---
 src/share/vss/rabin/vss.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 4cbda18..117dd9f 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -962,11 +962,21 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
-        let verification = self.verify_deal(&j.deal, false);
+        let own = self.deal.as_ref().map(|deal| deal.sec_share.i);
+        let mut verification = self.verify_deal(&j.deal, false);
+        if j.deal.sec_share.i != j.index as usize {
+            // the deal of another verifier justifies nothing
+            verification = Err(VSSError::DealWrongIndex);
+        }
         if verification.is_err() {
             self.bad_dealer = true;
         } else {
-            r.approved = true
+            r.approved = true;
+            if own == Some(j.index as usize) {
+                // the justification carries the valid deal we complained for
+                self.commits = j.deal.commitments.clone();
+                self.deal = Some(j.deal.clone());
+            }
         }
 
         // add the updated resp
-- 
2.43.0


From dfd6276960e62d4e915954a21c0625f15297ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 09/51] fix: a nonce of the wrong length is an error, not a
 panic

---
 src/share/vss/pedersen/vss.rs | 7 +++++--
 src/share/vss/rabin/vss.rs    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 6055da5..c2a7740 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -12,7 +12,7 @@ use digest::Digest;
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    dh::{AEAD, NONCE_SIZE},
+    dh::{DhError, AEAD, NONCE_SIZE},
     encoding::{self, unmarshal_binary, BinaryMarshaler, Marshaling, MarshallingError},
     group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical},
     share::{
@@ -654,7 +654,10 @@ where
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            e.nonce
+                .as_slice()
+                .try_into()
+                .map_err(|_| DhError::DecryptionFailed("wrong nonce length".to_owned()))?,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 117dd9f..24c86e2 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -31,7 +31,7 @@ use std::io::Write;
 
 use core::fmt::{Debug, Display, Formatter};
 
-use crate::dh::{AEAD, NONCE_SIZE};
+use crate::dh::{DhError, AEAD, NONCE_SIZE};
 use crate::encoding::{self, unmarshal_binary, BinaryMarshaler, Marshaling, MarshallingError};
 use crate::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
 use crate::share::poly::{self, new_pri_poly, PriShare, PubPoly};
@@ -696,7 +696,10 @@ where
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            e.nonce
+                .as_slice()
+                .try_into()
+                .map_err(|_| DhError::DecryptionFailed("wrong nonce length".to_owned()))?,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
-- 
2.43.0


From 0a3d9013d8dcd84c6cc07c40e160b46c35da9935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 10/51] fix: a short ECIES ciphertext is an error, not a panic

---
 src/encrypt/ecies/ecies_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encrypt/ecies/ecies_impl.rs b/src/encrypt/ecies/ecies_impl.rs
index 1f89851..6d038d5 100644
--- a/src/encrypt/ecies/ecies_impl.rs
+++ b/src/encrypt/ecies/ecies_impl.rs
@@ -63,6 +63,9 @@ pub fn decrypt<GROUP: Group>(
     // Reconstruct the ephemeral elliptic curve point
     let mut r_p = group.point();
     let l = group.point_len();
+    if ctx.len() < l {
+        return Err(EciesError::CiphertextTooShort);
+    }
     r_p.unmarshal_binary(&ctx[..l])?;
 
     // Compute shared DH key and derive the symmetric key and nonce via HKDF
@@ -94,6 +97,8 @@ pub enum EciesError {
     MarshalingError(#[from] MarshallingError),
     #[error("dh error")]
     DhError(#[from] DhError),
+    #[error("ciphertext too short")]
+    CiphertextTooShort,
     #[error("hkdf-derived key too short")]
     KeyTooShort,
 }
-- 
2.43.0


From 2c7d6c30e435b25e3b299fb16008be17eae6cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 11/51] fix: duplicate public keys are refused when a Pedersen
 DKG is set up

---
 src/share/dkg/pedersen/dkg.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 6ebd732..bc4a026 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -388,7 +388,7 @@ where
         can_receive = true;
         old_threshold = c.public_coeffs.clone().unwrap().len();
     }
-    let dkg = DistKeyGenerator::<SUITE, READ> {
+    let mut dkg = DistKeyGenerator::<SUITE, READ> {
         dealer,
         old_aggregators: HashMap::new(),
         suite: c.suite,
@@ -410,11 +410,7 @@ where
         timeout: false,
     };
     if new_present {
-        let mut dkg_try = dkg.clone();
-        let res_init = dkg_try.init_verifiers(c);
-        if res_init.is_ok() {
-            return Ok(dkg_try);
-        }
+        dkg.init_verifiers(c)?;
     }
     Ok(dkg)
 }
-- 
2.43.0


From 814a217ae655482f6f87823fd01a1e005bdaf0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 12/51] fix: the default threshold of a Pedersen DKG is the one
 it enforces

---
 src/share/dkg/pedersen/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index bc4a026..d4a46ce 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -315,6 +315,7 @@ where
     } else {
         vss::minimum_t(c.new_nodes.len())
     };
+    c.threshold = new_threshold;
 
     let mut dealer = vss::Dealer::default();
     let mut can_issue = false;
-- 
2.43.0


From f5af73f2a26d332b3b525160908a87ae77f6cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 13/51] fix: a reshared deal that contradicts the old key is
 recorded as complained about

---
 src/share/dkg/pedersen/dkg.rs | 3 ++-
 src/share/vss/pedersen/vss.rs | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index d4a46ce..25bad53 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -568,7 +568,8 @@ where
             // Check that the received committed share is equal to the one we
             // generate from the known public polynomial
             let expected_pub_share = self.dpub.eval(dd.index as usize);
-            if !expected_pub_share.v.eq(&deal_commits.unwrap()[0]) {
+            let public_share = deal_commits.and_then(|c| c.first().cloned());
+            if public_share != Some(expected_pub_share.v) {
                 return reject();
             }
         }
diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index c2a7740..6cc6a3f 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -741,6 +741,10 @@ where
             signature: vec![],
         };
 
+        if !approval {
+            // a complaint prevails over an approval
+            self.responses.remove(&idx);
+        }
         self.add_response(&r);
     }
 }
-- 
2.43.0


From ded4ae0ab009440228cac6b3e67bae383ea0d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 14/51] fix: a justification cannot redeem a reshared deal that
 contradicts the old key

---
 src/share/dkg/pedersen/dkg.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 25bad53..9767079 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -689,7 +689,16 @@ where
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
         };
-        Ok(v.process_justification(&j.justification)?)
+        v.process_justification(&j.justification)?;
+        if self.is_resharing && self.can_receive {
+            // a deal that contradicts the distributed secret cannot be justified
+            let public_share = j.justification.deal.commitments.first();
+            if public_share != Some(&self.dpub.eval(j.index as usize).v) {
+                v.bad_dealer = true;
+                return Err(DKGError::ShareDoesNotMatchPublicPoly);
+            }
+        }
+        Ok(())
     }
 
     /// [`set_timeout()`] triggers the timeout on all verifiers, and thus makes sure
-- 
2.43.0


From 1e67136021aa3013f358474c9cd7845247d3f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 15/51] fix: a timeout of the Rabin DKG also concerns the
 node's own deal

---
 src/share/dkg/rabin/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 832558f..1ea0354 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -591,6 +591,7 @@ where
     /// [`set_timeout()`] triggers the timeout on all verifiers, and thus makes sure
     /// all verifiers have either responded, or have a StatusComplaint response.
     pub fn set_timeout(&mut self) {
+        self.dealer.set_timeout();
         for (_, v) in self.verifiers.iter_mut() {
             v.set_timeout()
         }
-- 
2.43.0


From 1b1c707a90cd1ec2b1e2526596c1390a5c632919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 16/51] fix: a Rabin VSS deal must use the threshold the
 verifier goes by

---
 src/share/vss/rabin/vss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 24c86e2..03fb0ef 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -877,7 +877,7 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
-        if d.commitments.len() != d.t {
+        if d.t != self.t || d.commitments.len() != d.t {
             return Err(VSSError::DealIncompatibleThreshold);
         }
 
-- 
2.43.0


From ea54d94b4fdbf2a8a9577b9f05b2ea97e744ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 17/51] fix: responses that precede a Pedersen VSS deal only
 count if they are about it

---
 src/share/vss/pedersen/vss.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 6cc6a3f..3f45fd0 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -890,6 +890,10 @@ where
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
+            // responses that came before the deal only count if they are about it
+            let own = d.sec_share.i;
+            self.responses
+                .retain(|idx, r| *idx as usize == own || r.session_id == d.session_id);
             // a threshold specified beforehand prevails
             if self.t == 0 {
                 self.t = d.t;
-- 
2.43.0


From b2dab29ab9216fab44c8a184cd2e183ea4c06de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 18/51] fix: renewing a share with a renewal of another degree
 is an error

---
 src/share/dkg/pedersen/dkg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 9767079..3597176 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -1077,6 +1077,11 @@ impl<SUITE: Suite> DistKeyShare<SUITE> {
         suite: SUITE,
         g: DistKeyShare<SUITE>,
     ) -> Result<DistKeyShare<SUITE>, DKGError> {
+        // Both polynomials must have the same degree
+        if self.commits.len() != g.commits.len() {
+            return Err(share::poly::PolyError::WrongCoefficientsNumber.into());
+        }
+
         // Check G(0) = 0*G.
         if !g
             .public()
-- 
2.43.0


From 9de84f915e152eaa24a3346e36431e782b897413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 19/51] fix: a Rabin DKG only takes deals of its own threshold

---
 src/share/dkg/error.rs     | 2 ++
 src/share/dkg/rabin/dkg.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/share/dkg/error.rs b/src/share/dkg/error.rs
index 8667caf..c984cff 100644
--- a/src/share/dkg/error.rs
+++ b/src/share/dkg/error.rs
@@ -27,6 +27,8 @@ pub enum DKGError {
     DistDealIndexOutOfBounds,
     #[error("already received dist deal from same index")]
     DistDealAlreadyProcessed,
+    #[error("dist deal has a threshold other than the one of the protocol")]
+    DistDealInvalidThreshold,
     #[error("unexpected deal for unlisted dealer in new list")]
     DistDealFromUnlistedDealer,
     #[error("complaint received but no deal for it")]
diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 1ea0354..0653ad2 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -527,6 +527,10 @@ where
         let mut ver = vss::new_verifier(&self.suite, &self.long, &pubb, &self.participants)?;
 
         let resp = ver.process_encrypted_deal(&dd.deal)?;
+        if ver.t != self.t {
+            // the polynomials of all dealers have to be of the same degree
+            return Err(DKGError::DistDealInvalidThreshold);
+        }
 
         // Set StatusApproval for the verifier that represents the participant
         // that distibuted the Deal
-- 
2.43.0


From f80dfcb7c7b4d47b9e332d9e7fe234adf09376b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:19 +0000
Subject: [PATCH 20/51] fix: secret commits of a Rabin DKG must match its
 threshold

---
 src/share/dkg/error.rs     | 2 ++
 src/share/dkg/rabin/dkg.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/share/dkg/error.rs b/src/share/dkg/error.rs
index c984cff..d33e28b 100644
--- a/src/share/dkg/error.rs
+++ b/src/share/dkg/error.rs
@@ -45,6 +45,8 @@ pub enum DKGError {
     SecretCommitsFromNonQUAL,
     #[error("secret commits received with wrong session id")]
     SecretCommitsWrongId,
+    #[error("secret commits of a wrong number")]
+    SecretCommitsWrongLength,
     #[error("verifier should exists")]
     MissingVerifier,
     #[error("deal should exists")]
diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 0653ad2..b411298 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -713,6 +713,10 @@ where
             return Err(DKGError::SecretCommitsWrongId);
         }
 
+        if sc.commitments.len() != self.t {
+            return Err(DKGError::SecretCommitsWrongLength);
+        }
+
         let msg = sc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &sc.signature.clone())?;
 
-- 
2.43.0


From c4e03bcbc1d9d093f0573f73df3b71b4c5876bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 21/51] fix: do not count the own DSS partial signature twice

---
 src/sign/dss/dss_sig.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sign/dss/dss_sig.rs b/src/sign/dss/dss_sig.rs
index 9dd6ae9..9818dde 100644
--- a/src/sign/dss/dss_sig.rs
+++ b/src/sign/dss/dss_sig.rs
@@ -229,8 +229,10 @@ impl<SUITE: Suite, DKS: DistKeyShare<SUITE>> DSS<SUITE, DKS> {
         let msg = ps.hash(self.suite.clone())?;
         ps.signature = schnorr::sign(&self.suite, &self.secret, &msg)?;
         if !self.signed {
-            self.partials_idx.insert(self.index, true);
-            self.partials.push(Some(ps.partial.clone()));
+            // the own partial signature may already have come in from outside
+            if self.partials_idx.insert(self.index, true).is_none() {
+                self.partials.push(Some(ps.partial.clone()));
+            }
             self.signed = true
         }
         Ok(ps)
-- 
2.43.0


From 60668786eaf94c9a6a5be5f7aef85781336f1fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:46 +0000
Subject: [PATCH 22/51] fix: an EdDSA key made from a key pair must have a
 secret prefix

---
 src/sign/eddsa/eddsa_sig.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 314d057..7907b58 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -106,11 +106,15 @@ impl BinaryMarshaler for EdDSA<Curve> {
 impl From<Pair<EdPoint>> for EdDSA<Curve> {
     fn from(pair: Pair<EdPoint>) -> Self {
         let g = Curve::default();
+        // A pair has no seed to derive the prefix from. It must be secret nevertheless: if the
+        // nonce of a signature were the hash of the message alone, anyone could compute it, and
+        // the secret key from it
+        let prefix = Sha512::digest(pair.private.v)[32..].to_vec();
         Self {
             secret: g.scalar().set(&pair.private),
             public: g.point().set(&pair.public),
             seed: vec![],
-            prefix: vec![],
+            prefix,
         }
     }
 }
-- 
2.43.0


From 2300c95967fd9a4a31f78da15c46bf2a26d162b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:52 +0000
Subject: [PATCH 23/51] fix: encoding an EdDSA key without a seed is an error,
 not a panic

---
 src/sign/eddsa/eddsa_sig.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 7907b58..c255cdf 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -94,6 +94,11 @@ impl BinaryMarshaler for EdDSA<Curve> {
     /// [`marshal_binary()`] will return the representation used by the reference
     /// implementation of `SUPERCOP ref10`, which is `"seed || Public"`.
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
+        if self.seed.len() != 32 {
+            return Err(MarshallingError::InvalidInput(
+                "an EdDSA private key without a seed has no encoding".to_owned(),
+            ));
+        }
         let p_buff = self.public.marshal_binary()?;
 
         let mut eddsa = [0u8; 64];
-- 
2.43.0


From 2ebd4ff7bdcbab59e8ba4c1f1be719c48de1881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:29 +0000
Subject: [PATCH 24/51] fix: Point::is_canonical refused canonical encodings
 near the field prime

---
 src/group/edwards25519/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 679424c..17e2e18 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -331,7 +331,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
 
         // subtraction might underflow
         c = (((c as u16) - 1) >> 8) as u8;
-        let d = ((0xEDu16.wrapping_sub(1u16.wrapping_sub(b[0] as u16))) >> 8) as u8;
+        let d = (0xECu16.wrapping_sub(b[0] as u16) >> 8) as u8;
 
         1 - (c & d & 1) == 1
     }
-- 
2.43.0


From 955f6458fff7b2bd3748bfcdceeaf59c2263edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:29 +0000
Subject: [PATCH 25/51] fix: canonicity and small order checks panicked in
 builds with overflow checks

---
 src/group/edwards25519/point.rs  | 4 ++--
 src/group/edwards25519/scalar.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 17e2e18..aa192b7 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -303,7 +303,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
         // Constant time verification if one or more of the c's are zero
         let mut k = 0;
         (0..5).for_each(|i| {
-            k |= (c[i] as u16) - 1;
+            k |= (c[i] as u16).wrapping_sub(1);
         });
 
         (k >> 8) & 1 > 0
@@ -330,7 +330,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
         }
 
         // subtraction might underflow
-        c = (((c as u16) - 1) >> 8) as u8;
+        c = ((c as u16).wrapping_sub(1) >> 8) as u8;
         let d = (0xECu16.wrapping_sub(b[0] as u16) >> 8) as u8;
 
         1 - (c & d & 1) == 1
diff --git a/src/group/edwards25519/scalar.rs b/src/group/edwards25519/scalar.rs
index 6888733..a3d347e 100644
--- a/src/group/edwards25519/scalar.rs
+++ b/src/group/edwards25519/scalar.rs
@@ -67,8 +67,8 @@ impl ScalarCanCheckCanonical for Scalar {
         for i in (0..=31).rev() {
             // subtraction might lead to an underflow which needs
             // to be accounted for in the right shift
-            c |= (((sb[i] as u16) - (l[i] as u16)) >> 8) as u8 & n;
-            n &= ((((sb[i] as u16) ^ (l[i] as u16)) - 1) >> 8) as u8;
+            c |= ((sb[i] as u16).wrapping_sub(l[i] as u16) >> 8) as u8 & n;
+            n &= (((sb[i] as u16) ^ (l[i] as u16)).wrapping_sub(1) >> 8) as u8;
         }
 
         c != 0
-- 
2.43.0


From 33649d275e4e28462639cbd88b85bd5ea8fcd7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:47 +0000
Subject: [PATCH 26/51] fix: ordering of points contradicted their equality

---
 src/group/edwards25519/point.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index aa192b7..78c2c3b 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -1,3 +1,4 @@
+use core::cmp::Ordering;
 use core::fmt::{Debug, Display, Formatter, LowerHex, UpperHex};
 
 use serde::{Deserialize, Serialize};
@@ -20,7 +21,7 @@ use super::{
 
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
-#[derive(Copy, Clone, Eq, Ord, PartialOrd, Debug, Default, Serialize, Deserialize)]
+#[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
@@ -240,6 +241,23 @@ impl PartialEq for Point {
     }
 }
 
+impl Ord for Point {
+    /// [`cmp()`] orders [`points`](Point) by their encoding, consistently with [`eq()`]
+    fn cmp(&self, other: &Self) -> Ordering {
+        let mut b1 = [0_u8; 32];
+        let mut b2 = [0_u8; 32];
+        self.ge.write_bytes(&mut b1);
+        other.ge.write_bytes(&mut b2);
+        b1.cmp(&b2)
+    }
+}
+
+impl PartialOrd for Point {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl core::hash::Hash for Point {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         let mut b = [0_u8; 32];
-- 
2.43.0


From 626df966765c235ac8b77c08e447f830f3fd3310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:47 +0000
Subject: [PATCH 27/51] fix: SimpleCTScalar::sub computed b - a

---
 src/group/edwards25519/scalar_test_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group/edwards25519/scalar_test_types.rs b/src/group/edwards25519/scalar_test_types.rs
index ecf1afd..d28b658 100644
--- a/src/group/edwards25519/scalar_test_types.rs
+++ b/src/group/edwards25519/scalar_test_types.rs
@@ -159,8 +159,8 @@ impl ScalarTrait for SimpleCTScalar {
     }
     fn sub(self, s1: &Self, s2: &Self) -> Self {
         let mut s = self;
-        // a * b + c = -1 * a + c
-        sc_mul_add(&mut s.v, &MINUS_ONE.v, &s1.v, &s2.v);
+        // a * b + c = -1 * b + a
+        sc_mul_add(&mut s.v, &MINUS_ONE.v, &s2.v, &s1.v);
         s
     }
 
-- 
2.43.0


From 2d58b3f6e275a508db4a60d43f74e0f531daec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:14 +0000
Subject: [PATCH 28/51] fix: Int values from negative numbers and strings were
 not reduced

---
 src/group/integer_field/integer.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index c033c7f..afdfb46 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -93,12 +93,7 @@ impl Int {
     pub fn init64(mut self, v: i64, m: BigInt) -> Self {
         self.m = m.clone();
         self.bo = BigEndian;
-        self.v = BigInt::from(v);
-        // specify euclidean modulus for negative number
-        match self.v.sign() {
-            num_bigint::Sign::Minus => self.v = (self.v % m.clone()) + m.abs(),
-            _ => self.v %= m,
-        }
+        self.v = reduce(BigInt::from(v), &m);
         self
     }
 
@@ -106,7 +101,7 @@ impl Int {
     fn init(mut self, v: BigInt, m: BigInt) -> Self {
         self.m = m.clone();
         self.bo = BigEndian;
-        self.v = v % m;
+        self.v = reduce(v, &m);
         self
     }
 
@@ -189,7 +184,7 @@ impl Int {
     /// Returns the [`Int`] on success or an [`Error`](BigIntError)
     /// if the string failed to parse
     pub fn set_string(mut self, n: String, d: String, base: i32) -> Result<Self, IntError> {
-        self.v = BigInt::from_str_radix(n.as_str(), base as u32)?;
+        self.v = reduce(BigInt::from_str_radix(n.as_str(), base as u32)?, &self.m);
         if !d.is_empty() {
             let mut di = Int {
                 m: self.m.clone(),
@@ -346,12 +341,7 @@ impl Scalar for Int {
     /// The `modulus` must already be initialized.
     fn set_int64(self, v: i64) -> Self {
         let mut i = self;
-        i.v = BigInt::from(v);
-        // specify euclidean modulus for negative number
-        match i.v.sign() {
-            num_bigint::Sign::Minus => i.v = (i.v % i.m.clone()) + i.m.abs(),
-            _ => i.v %= i.m.clone(),
-        }
+        i.v = reduce(BigInt::from(v), &i.m);
         i
     }
 
@@ -515,6 +505,15 @@ impl Int {
     }
 }
 
+/// [`reduce()`] returns `v mod m`, in the range from `0` through `m-1`.
+fn reduce(v: BigInt, m: &BigInt) -> BigInt {
+    let r = v % m;
+    match r.sign() {
+        Sign::Minus => r + m.abs(),
+        _ => r,
+    }
+}
+
 /// [`reverse()`] copies `src` into `dst` in byte-reversed order and returns `dst`,
 /// such that `src[0]` goes into `dst[len-1]` and vice versa.
 /// `dst` and `src` may be the same slice but otherwise must not overlap.
-- 
2.43.0


From 1f2e5d580c141b3db207316e99d48a00920dae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:14 +0000
Subject: [PATCH 29/51] fix: Int::div multiplied by the divisor

---
 src/group/integer_field/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index afdfb46..3887842 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -394,9 +394,9 @@ impl Scalar for Int {
 
     /// [`div()`] sets the target to `a * b^-1 mod m`, where `b^-1` is the modular inverse of `b`.
     fn div(mut self, a: &Self, b: &Self) -> Self {
-        let _t = BigInt::default();
-        self.v = a.v.clone() * b.v.clone();
-        self.v = self.v.clone() % self.m.clone();
+        self.m = a.m.clone();
+        let t = b.v.clone().mod_inverse(&self.m).unwrap();
+        self.v = reduce(a.v.clone() * t, &self.m);
         self
     }
 
-- 
2.43.0


From aa52f9771ff3bf663be4b44b47fc5dd4805683eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:14 +0000
Subject: [PATCH 30/51] fix: Int::exp raised the target instead of its argument

---
 src/group/integer_field/integer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 3887842..42dbf60 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -461,7 +461,7 @@ impl Int {
     pub fn exp(mut self, a: &Self, e: &BigInt) -> Self {
         self.m = a.m.clone();
         // to protect against golang/go#22830
-        self.v = self.v.modpow(e, &self.m);
+        self.v = a.v.modpow(e, &self.m);
         self
     }
 
-- 
2.43.0


From a11f8ef3ea88e9003234734f1282e79b51178c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 31/51] fix: Int::exp panicked on a negative exponent

---
 src/group/integer_field/integer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 42dbf60..15bafdb 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -461,7 +461,11 @@ impl Int {
     pub fn exp(mut self, a: &Self, e: &BigInt) -> Self {
         self.m = a.m.clone();
         // to protect against golang/go#22830
-        self.v = a.v.modpow(e, &self.m);
+        self.v = match e.sign() {
+            Sign::Minus => reduce(a.v.clone().mod_inverse(&self.m).unwrap(), &self.m)
+                .modpow(&e.abs(), &self.m),
+            _ => a.v.modpow(e, &self.m),
+        };
         self
     }
 
-- 
2.43.0


From df156551c5d281fe208f62635143ddd23f663633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 32/51] fix: Int::sqrt took the root of the integer instead of
 the field element

---
 src/group/integer_field/integer.rs | 51 +++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 15bafdb..9aa9843 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -485,7 +485,7 @@ impl Int {
         if a_s.v.sign() == Sign::Minus {
             return Err(IntError::ImaginaryRoot);
         }
-        self.v = a_s.v.sqrt() % a_s.m.clone();
+        self.v = mod_sqrt(&a_s.v, &a_s.m).ok_or(IntError::NotASquare)?;
         self.m = a_s.m.clone();
         Ok(())
     }
@@ -518,6 +518,53 @@ fn reduce(v: BigInt, m: &BigInt) -> BigInt {
     }
 }
 
+/// [`mod_sqrt()`] returns a square root of `a` modulo the odd prime `p`, if there is one
+/// (Tonelli-Shanks).
+fn mod_sqrt(a: &BigInt, p: &BigInt) -> Option<BigInt> {
+    let a = reduce(a.clone(), p);
+    if a.sign() == Sign::NoSign {
+        return Some(a);
+    }
+    if jacobi(&a, p) != 1 {
+        return None;
+    }
+    // p - 1 = q * 2^s, with q odd
+    let mut q: BigInt = p - &*ONE;
+    let mut s = 0_u32;
+    while (&q % &*TWO).sign() == Sign::NoSign {
+        q /= &*TWO;
+        s += 1;
+    }
+    // a quadratic non-residue
+    let mut z = TWO.clone();
+    while jacobi(&z, p) != -1 {
+        z += &*ONE;
+    }
+    let mut c = z.modpow(&q, p);
+    let mut t = a.modpow(&q, p);
+    let mut r = a.modpow(&((&q + &*ONE) / &*TWO), p);
+    while t != *ONE {
+        // the least i with t^(2^i) = 1
+        let mut i = 0;
+        let mut u = t.clone();
+        while u != *ONE {
+            u = &u * &u % p;
+            i += 1;
+            if i == s {
+                return None;
+            }
+        }
+        for _ in 0..s - i - 1 {
+            c = &c * &c % p;
+        }
+        r = &r * &c % p;
+        c = &c * &c % p;
+        t = &t * &c % p;
+        s = i;
+    }
+    Some(r)
+}
+
 /// [`reverse()`] copies `src` into `dst` in byte-reversed order and returns `dst`,
 /// such that `src[0]` goes into `dst[len-1]` and vice versa.
 /// `dst` and `src` may be the same slice but otherwise must not overlap.
@@ -541,4 +588,6 @@ pub enum IntError {
     NotRepresentable,
     #[error("input is a negative number, square root is imaginary")]
     ImaginaryRoot,
+    #[error("input has no square root")]
+    NotASquare,
 }
-- 
2.43.0


From 440d11aaacca834a5fd6075c22e8a929a53081c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 33/51] fix: Int::big_endian panicked on values shorter than
 the modulus

---
 src/group/integer_field/integer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 9aa9843..7c9bb31 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -495,15 +495,16 @@ impl Int {
     /// Returns an [`Error`](IntError) if `max != 0` and the [`Int`] cannot be represented in `max` bytes.
     pub fn big_endian(&self, min: usize, max: usize) -> Result<Vec<u8>, IntError> {
         let act = self.marshal_size();
-        let (mut pad, mut ofs) = (act, 0);
+        let mut pad = act;
         if pad < min {
-            (pad, ofs) = (min, min - act)
+            pad = min
         }
         if max != 0 && pad > max {
             return Err(IntError::NotRepresentable);
         }
         let mut buf = vec![0_u8; pad];
         let b = self.v.to_bytes_be().1;
+        let ofs = pad.checked_sub(b.len()).ok_or(IntError::NotRepresentable)?;
         buf[ofs..].copy_from_slice(&b);
         Ok(buf)
     }
-- 
2.43.0


From c4143c4184a68d7c110f257e70618a269936a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 34/51] fix: Int::unmarshal_binary kept a value it had refused

---
 src/group/integer_field/integer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 7c9bb31..dbd9c1c 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -260,12 +260,13 @@ impl BinaryUnmarshaler for Int {
         if self.bo == LittleEndian {
             buf = reverse(&vec![0_u8; buf.len()], &buf.to_vec());
         }
-        self.v = BigInt::from_bytes_be(Plus, buf.as_slice());
-        if matches!(self.v.cmp(&self.m), Greater | Equal) {
+        let v = BigInt::from_bytes_be(Plus, buf.as_slice());
+        if matches!(v.cmp(&self.m), Greater | Equal) {
             return Err(MarshallingError::InvalidInput(
                 "unmarshal_binary: value out of range".to_owned(),
             ));
         }
+        self.v = v;
         Ok(())
     }
 }
-- 
2.43.0


From eae7825e58a99be2ce3047f0b8b15058b44cfe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:14 +0000
Subject: [PATCH 35/51] fix: Int::little_endian did not pad, so scalars set
 from small values kept old bytes

---
 src/group/integer_field/integer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index dbd9c1c..e174e69 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -123,9 +123,10 @@ impl Int {
             return Err(IntError::NotRepresentable);
         }
 
-        let buf = vec![0; pad];
-        let buf2 = &buf[0..act];
-        Ok(reverse(buf2, &v_bytes))
+        let buf = vec![0; act];
+        let mut b = reverse(&buf, &v_bytes);
+        b.resize(pad, 0);
+        Ok(b)
     }
 
     /// [`new_int()`] creates a new [`Int`] with a given [`BigInt`] and a [`BigInt`] `modulus`.
-- 
2.43.0


From ceb2e57072224fda868c9a827228ab5cea32a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:43 +0000
Subject: [PATCH 36/51] fix: write_all on an Xof that was read never returned

---
 src/xof/blake3/xof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index 453722e..bf9d5b8 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -51,7 +51,7 @@ impl std::io::Write for Xof {
     fn write(&mut self, buf: &[u8]) -> Result<usize, std::io::Error> {
         match &mut self.implementation {
             HashState::Readable { reader: _ } => Err(std::io::Error::new(
-                std::io::ErrorKind::Interrupted,
+                std::io::ErrorKind::Other,
                 "write after read",
             )),
             HashState::Writeable { writer } => writer.write(buf),
-- 
2.43.0


From f984ece00e4a403537d659d28bbc3ef6aa85e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:43 +0000
Subject: [PATCH 37/51] fix: flush on an Xof panicked

---
 src/xof/blake3/xof.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index bf9d5b8..a91595c 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -59,14 +59,8 @@ impl std::io::Write for Xof {
     }
 
     fn flush(&mut self) -> Result<(), std::io::Error> {
-        match &mut self.implementation {
-            HashState::Readable { reader: _ } => {
-                todo!()
-                // Err(std::io::Error::new(std::io::ErrorKind::, "asdf"))
-            }
-            HashState::Writeable { writer: _ } => todo!(),
-        }
-        // self.implementation.flush()
+        // nothing is buffered outside of the hash state
+        Ok(())
     }
 }
 impl std::io::Read for Xof {
-- 
2.43.0


From 7a866ad98c5b7a96e9eaf201a8d1e0999f485375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:43 +0000
Subject: [PATCH 38/51] fix: AEAD seal and open panicked on a destination of
 another length

---
 src/dh/dh_impl.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dh/dh_impl.rs b/src/dh/dh_impl.rs
index 44d431d..522f955 100644
--- a/src/dh/dh_impl.rs
+++ b/src/dh/dh_impl.rs
@@ -219,6 +219,9 @@ impl<DH: Dh> AEAD<DH> {
     ) -> Result<Vec<u8>, DhError> {
         let encrypted = DH::aes_encrypt(&self.key, nonce, plaintext, additional_data)?;
         if let Some(d) = dst {
+            if d.len() != encrypted.len() {
+                return Err(DhError::WrongBufferLength);
+            }
             d.copy_from_slice(&encrypted);
         }
         Ok(encrypted)
@@ -244,6 +247,9 @@ impl<DH: Dh> AEAD<DH> {
     ) -> Result<Vec<u8>, DhError> {
         let decrypted = DH::aes_decrypt(&self.key, nonce, ciphertext, additional_data)?;
         if let Some(d) = dst {
+            if d.len() != decrypted.len() {
+                return Err(DhError::WrongBufferLength);
+            }
             d.copy_from_slice(&decrypted);
         }
         Ok(decrypted)
@@ -260,6 +266,8 @@ pub enum DhError {
     MarshalingError(#[from] MarshallingError),
     #[error("wrong key length")]
     WrongKeyLength(String),
+    #[error("wrong destination length")]
+    WrongBufferLength,
     #[error("aes decryption failed")]
     DecryptionFailed(String),
     #[error("aes encryption failed")]
-- 
2.43.0


From c836969869e0347592699417ca0dd3b398912820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:43 +0000
Subject: [PATCH 39/51] fix: bits() returned zeros, and random_int() never,
 when the stream failed

---
 src/util/random/random_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/random/random_stream.rs b/src/util/random/random_stream.rs
index 5b0070a..be066fb 100644
--- a/src/util/random/random_stream.rs
+++ b/src/util/random/random_stream.rs
@@ -17,7 +17,8 @@ use crate::{
 pub fn bits(bit_len: u64, exact: bool, rand: &mut impl Stream) -> Vec<u8> {
     let mut b: Vec<u8> = vec![0; ((bit_len + 7) / 8) as usize];
     let b_clone = b.clone();
-    _ = rand.xor_key_stream(&mut b, &b_clone);
+    rand.xor_key_stream(&mut b, &b_clone)
+        .expect("random stream failed");
     let highbits = bit_len & 7;
     if highbits != 0 {
         b[0] &= !(0xff << highbits);
-- 
2.43.0


From a88a7d6aa2f5aab403b6074157d05eb61334cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 40/51] fix: FactoredScalar arithmetic returned zero

---
 src/group/edwards25519/scalar_test_types.rs | 29 ++++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/group/edwards25519/scalar_test_types.rs b/src/group/edwards25519/scalar_test_types.rs
index d28b658..020d161 100644
--- a/src/group/edwards25519/scalar_test_types.rs
+++ b/src/group/edwards25519/scalar_test_types.rs
@@ -394,7 +394,7 @@ fn sc_reduce_limbs(limbs: &mut [i64; 24]) {
         do_carry_centered(limbs, i);
     }
 
-    for i in (0..12).filter(|x| x % 2 != 1) {
+    for i in (0..12).filter(|x| x % 2 != 0) {
         do_carry_centered(limbs, i);
     }
 
@@ -411,7 +411,25 @@ fn sc_reduce_limbs(limbs: &mut [i64; 24]) {
     }
 }
 
-fn sc_add_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
+/// [`sc_write_limbs()`] encodes reduced limbs of 21 bits as little-endian bytes.
+fn sc_write_limbs(s: &mut [u8; 32], limbs: &[i64; 24]) {
+    let (mut acc, mut bits, mut k) = (0_i64, 0, 0);
+    for limb in limbs.iter().take(12) {
+        acc |= limb << bits;
+        bits += 21;
+        while bits >= 8 && k < 32 {
+            s[k] = acc as u8;
+            acc >>= 8;
+            bits -= 8;
+            k += 1;
+        }
+    }
+    if k < 32 {
+        s[k] = acc as u8;
+    }
+}
+
+fn sc_add_fact(s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     let a0 = 2097151 & load3(a);
     let a1 = 2097151 & (load4(&a[2..]) >> 5);
     let a2 = 2097151 & (load3(&a[5..]) >> 2);
@@ -452,9 +470,10 @@ fn sc_add_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     limbs[11] = c11 + a11;
 
     sc_reduce_limbs(&mut limbs);
+    sc_write_limbs(s, &limbs);
 }
 
-fn sc_mul_fact(_s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
+fn sc_mul_fact(s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
     let a0 = 2097151 & load3(a);
     let a1 = 2097151 & (load4(&a[2..]) >> 5);
     let a2 = 2097151 & (load3(&a[5..]) >> 2);
@@ -580,9 +599,10 @@ fn sc_mul_fact(_s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
     limbs[22] = a11 * b11;
 
     sc_reduce_limbs(&mut limbs);
+    sc_write_limbs(s, &limbs);
 }
 
-fn sc_sub_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
+fn sc_sub_fact(s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     let a0 = 2097151 & load3(a);
     let a1 = 2097151 & (load4(&a[2..]) >> 5);
     let a2 = 2097151 & (load3(&a[5..]) >> 2);
@@ -624,6 +644,7 @@ fn sc_sub_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     limbs[12] = 16;
 
     sc_reduce_limbs(&mut limbs);
+    sc_write_limbs(s, &limbs);
 }
 
 fn t_suite() -> SuiteEd25519 {
-- 
2.43.0


From 79f1afe9529c37233dd47ee7c81c4bf623fcef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:06 +0000
Subject: [PATCH 41/51] fix: deserialized points were not checked to lie on the
 curve

---
 src/group/edwards25519/ge.rs    | 50 +++++++++++++++++++++++++++++++++
 src/group/edwards25519/point.rs | 25 +++++++++++++++++
 2 files changed, 75 insertions(+)

diff --git a/src/group/edwards25519/ge.rs b/src/group/edwards25519/ge.rs
index 37a6cf6..ccd2806 100644
--- a/src/group/edwards25519/ge.rs
+++ b/src/group/edwards25519/ge.rs
@@ -178,6 +178,56 @@ impl ExtendedGroupElement {
         true
     }
 
+    /// [`is_valid()`] tells whether the coordinates are in the range the field arithmetic
+    /// expects and those of a point on the curve
+    pub fn is_valid(&self) -> bool {
+        // |f| bounded by 1.1*2^25, 1.1*2^24, 1.1*2^25, 1.1*2^24, ...
+        let in_range = |f: &FieldElement| {
+            f.iter().enumerate().all(|(i, limb)| {
+                let bound = if i % 2 == 0 { 36_909_875 } else { 18_454_937 };
+                limb.unsigned_abs() <= bound
+            })
+        };
+        if ![&self.x, &self.y, &self.z, &self.t].into_iter().all(in_range) {
+            return false;
+        }
+        if fe_is_non_zero(&self.z) == 0 {
+            return false;
+        }
+
+        let equal = |a: &FieldElement, b: &FieldElement| {
+            let mut a_bytes = [0_u8; 32];
+            let mut b_bytes = [0_u8; 32];
+            fe_to_bytes(&mut a_bytes, a);
+            fe_to_bytes(&mut b_bytes, b);
+            a_bytes == b_bytes
+        };
+        let mut lhs = FieldElement::default();
+        let mut rhs = FieldElement::default();
+
+        // XY = ZT
+        fe_mul(&mut lhs, &self.x, &self.y);
+        fe_mul(&mut rhs, &self.z, &self.t);
+        if !equal(&lhs, &rhs) {
+            return false;
+        }
+
+        // -X^2 + Y^2 = Z^2 + dT^2
+        let mut xx = FieldElement::default();
+        let mut yy = FieldElement::default();
+        let mut zz = FieldElement::default();
+        let mut tt = FieldElement::default();
+        let mut dtt = FieldElement::default();
+        fe_square(&mut xx, &self.x);
+        fe_square(&mut yy, &self.y);
+        fe_square(&mut zz, &self.z);
+        fe_square(&mut tt, &self.t);
+        fe_mul(&mut dtt, &tt, &D);
+        fe_sub(&mut lhs, &yy, &xx);
+        fe_add(&mut rhs, &zz, &dtt);
+        equal(&lhs, &rhs)
+    }
+
     #[allow(dead_code)]
     pub fn string(&self) -> String {
         "extendedGroupElement{\n\t".to_owned()
diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 78c2c3b..408a194 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -22,11 +22,36 @@ use super::{
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
 #[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
+#[serde(try_from = "RawPoint")]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
 }
 
+/// [`RawPoint`] is a deserialized [`Point`] whose coordinates were not checked yet
+#[derive(Deserialize)]
+#[serde(rename = "Point")]
+struct RawPoint {
+    ge: ExtendedGroupElement,
+    var_time: bool,
+}
+
+impl TryFrom<RawPoint> for Point {
+    type Error = MarshallingError;
+
+    fn try_from(raw: RawPoint) -> Result<Self, Self::Error> {
+        if !raw.ge.is_valid() {
+            return Err(MarshallingError::InvalidInput(
+                "invalid Ed25519 curve point".to_owned(),
+            ));
+        }
+        Ok(Point {
+            ge: raw.ge,
+            var_time: raw.var_time,
+        })
+    }
+}
+
 impl Point {
     pub fn new() -> Self {
         Self::default()
-- 
2.43.0


From 42c40dda0658876c7eee5dc5adc4548d88838520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 42/51] fix: default points can be deserialized

---
 src/group/edwards25519/point.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 408a194..f24bb8d 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -40,7 +40,9 @@ impl TryFrom<RawPoint> for Point {
     type Error = MarshallingError;
 
     fn try_from(raw: RawPoint) -> Result<Self, Self::Error> {
-        if !raw.ge.is_valid() {
+        // a point that was never set is no point of the curve yet
+        let unset = raw.ge == ExtendedGroupElement::default();
+        if !unset && !raw.ge.is_valid() {
             return Err(MarshallingError::InvalidInput(
                 "invalid Ed25519 curve point".to_owned(),
             ));
-- 
2.43.0


From d90ad52f913ae2169bb3c749929190db78844356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 43/51] fix: printing an EdDSA key showed its secret, seed and
 prefix

---
 src/sign/eddsa/eddsa_sig.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index c255cdf..5828d7a 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -1,5 +1,7 @@
 /// module eddsa implements the EdDSA signature algorithm according to
 /// RFC8032.
+use core::fmt::{Debug, Formatter};
+
 use digest::Digest;
 use serde::{Deserialize, Serialize};
 use sha2::Sha512;
@@ -14,7 +16,7 @@ use crate::{Group, Point, Scalar};
 
 /// [`EdDSA`] is a structure holding the data necessary to make a series of
 /// `EdDSA signatures`.
-#[derive(Debug, Serialize, Deserialize)]
+#[derive(Serialize, Deserialize)]
 pub struct EdDSA<GROUP: Group> {
     /// `secret` being already hashed + bit tweaked
     pub secret: <GROUP::POINT as Point>::SCALAR,
@@ -24,6 +26,14 @@ pub struct EdDSA<GROUP: Group> {
     pub prefix: Vec<u8>,
 }
 
+impl<GROUP: Group> Debug for EdDSA<GROUP> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
+        f.debug_struct("EdDSA")
+            .field("public", &self.public)
+            .finish()
+    }
+}
+
 const GROUP: Curve = Curve::new();
 
 impl EdDSA<Curve> {
-- 
2.43.0


From 775ed97525c1f220781777cae31935a204480b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 44/51] fix: a leaving dealer revealed its deal on a complaint
 of another session

---
 src/share/dkg/pedersen/dkg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 3597176..7fa882e 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -649,6 +649,10 @@ where
                 let mut agg = vss::Aggregator::<SUITE>::default();
                 agg.verifiers = self.c.new_nodes.clone();
                 agg.suite = self.suite;
+                if resp.index as usize == self.oidx {
+                    // a complaint of another session must not reveal our deal
+                    agg.sid = self.dealer.session_id();
+                }
                 self.old_aggregators.insert(resp.index, agg);
                 self.old_aggregators.get_mut(&resp.index).unwrap()
             }
-- 
2.43.0


From b0c7d6e635f050aa68ab8e254e6841bc56e4d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 45/51] fix: a complaint that reached a resharing dealer before
 its own deal was never answered

---
 src/share/dkg/pedersen/dkg.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 7fa882e..7ad8660 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -588,12 +588,39 @@ where
                 .unsafe_set_response_dkg(new_idx as u32, vss::STATUS_APPROVAL);
         }
 
+        if self.can_issue && dd.index as usize == self.oidx {
+            self.settle_early_complaints();
+        }
+
         Ok(Response {
             index: dd.index,
             response: resp,
         })
     }
 
+    /// applies the justifications published for complaints about our own deals
+    /// that arrived before our own copy of the deal.
+    fn settle_early_complaints(&mut self) {
+        let own = self.oidx as u32;
+        for idx in 0..self.c.new_nodes.len() {
+            let v = self.verifiers.get_mut(&own).unwrap();
+            let complained = matches!(v.responses().get(&(idx as u32)),
+                Some(r) if r.status == vss::STATUS_COMPLAINT);
+            if !complained || idx == self.nidx {
+                continue;
+            }
+            if let Ok(deal) = self.dealer.plaintext_deal(idx) {
+                // an invalid deal of ours flags us as a bad dealer
+                let _ = v.process_justification(&vss::Justification {
+                    session_id: deal.session_id.clone(),
+                    index: idx as u32,
+                    deal: deal.clone(),
+                    signature: vec![],
+                });
+            }
+        }
+    }
+
     /// [`process_response()`] takes a [`Response`] from every other peer.  If the response
     /// designates the [`Deal`] of another participant than this dkg, this dkg stores it
     /// and returns nil with a possible error regarding the validity of the response.
@@ -627,7 +654,9 @@ where
             return Ok(None);
         }
         let just = j.unwrap();
-        v.process_justification(&just)?;
+        if v.commits().is_some() {
+            v.process_justification(&just)?;
+        } // otherwise it applies to us as soon as our own deal arrives
 
         Ok(Some(Justification {
             index: self.oidx as u32,
-- 
2.43.0


From 524ac061826a5319365a872debfad3cc25964ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 46/51] fix: commitments found wrong could be replaced by
 others of the same dealer

---
 src/share/dkg/error.rs     |  2 ++
 src/share/dkg/rabin/dkg.rs | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/share/dkg/error.rs b/src/share/dkg/error.rs
index d33e28b..e5bb4e6 100644
--- a/src/share/dkg/error.rs
+++ b/src/share/dkg/error.rs
@@ -47,6 +47,8 @@ pub enum DKGError {
     SecretCommitsWrongId,
     #[error("secret commits of a wrong number")]
     SecretCommitsWrongLength,
+    #[error("secret commits of a dealer whose commitments were invalidated")]
+    SecretCommitsInvalidated,
     #[error("verifier should exists")]
     MissingVerifier,
     #[error("deal should exists")]
diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index b411298..d77a0d0 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -720,6 +720,16 @@ where
         let msg = sc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &sc.signature.clone())?;
 
+        // once a complaint made us publish our share, only the polynomial
+        // reconstructed from the deals can replace the commitments
+        let published = self
+            .pending_reconstruct
+            .get(&sc.index)
+            .is_some_and(|rcs| rcs.iter().any(|rc| rc.index == self.index));
+        if published || self.reconstructed.contains_key(&sc.index) {
+            return Err(DKGError::SecretCommitsInvalidated);
+        }
+
         let deal = match v.deal() {
             Some(d) => d,
             None => return Err(DKGError::MissingDeal),
-- 
2.43.0


From 5bfd931bdc2c992fc30a1a3e3a8e62d71155a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 47/51] fix: shares that came before a complaint did not count
 once it was founded

---
 src/share/dkg/rabin/dkg.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index d77a0d0..8789327 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -823,6 +823,8 @@ where
             .get_mut(&cc.dealer_index)
             .unwrap()
             .push(rc.clone());
+        // the shares of the others may have been there before
+        let _ = self.reconstruct(cc.dealer_index);
         Ok(rc)
     }
 
@@ -867,6 +869,15 @@ where
         // add it to list of pending shares
         arr.push(rc.clone());
 
+        self.reconstruct(rc.dealer_index)
+    }
+
+    /// recovers the polynomial of the given dealer if there are enough shares of it.
+    fn reconstruct(&mut self, dealer_index: u32) -> Result<(), DKGError> {
+        let arr = match self.pending_reconstruct.get(&dealer_index) {
+            Some(arr) => arr,
+            None => return Ok(()),
+        };
         // check if we can reconstruct commitments
         if arr.len() >= self.t {
             let mut shares = Vec::with_capacity(arr.len());
@@ -880,12 +891,12 @@ where
             // there are more just before
             let pri = recover_pri_poly(&self.suite, &shares, self.t, self.participants.len())?;
             self.commitments.insert(
-                rc.dealer_index,
+                dealer_index,
                 pri.commit(Some(&self.suite.point().base())),
             );
             // note it has been reconstructed.
-            self.reconstructed.insert(rc.dealer_index, true);
-            self.pending_reconstruct.remove(&rc.dealer_index);
+            self.reconstructed.insert(dealer_index, true);
+            self.pending_reconstruct.remove(&dealer_index);
         }
         Ok(())
     }
-- 
2.43.0


From c507e421d257d835e113b398abfcdd57d353acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 48/51] fix: a resharing gave keys without the deals of all
 qualified dealers, depending on the order of a map

---
 src/share/dkg/pedersen/dkg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 7ad8660..f927881 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -1020,6 +1020,10 @@ where
             true
         });
 
+        if let Some(e) = error {
+            return Err(e);
+        }
+
         // the private polynomial is generated from the old nodes, thus inheriting
         // the old threshold condition
         let pri_poly = share::poly::recover_pri_poly(
-- 
2.43.0


From de1bfd13ce3226156b121851a36d64e049ed3eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 49/51] fix: the signatures of revealed commitments and
 published shares cover the session

---
 src/share/dkg/rabin/dkg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 8789327..d8f5b0e 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -209,6 +209,7 @@ impl<SUITE: Suite> SecretCommits<SUITE> {
     pub fn hash(&self, s: &SUITE) -> Result<Vec<u8>, DKGError> {
         let mut h = s.hash();
         h.update("secretcommits".as_bytes());
+        h.update(&self.session_id);
         h.write_u32::<LittleEndian>(self.index)?;
         for c in self.commitments.clone() {
             c.marshal_to(&mut h)?
@@ -303,6 +304,7 @@ impl<SUITE: Suite> ReconstructCommits<SUITE> {
     pub fn hash(&self, s: &SUITE) -> Result<Vec<u8>, DKGError> {
         let mut h = s.hash();
         h.update("reconstructcommits".as_bytes());
+        h.update(&self.session_id);
         h.write_u32::<LittleEndian>(self.index)?;
         h.write_u32::<LittleEndian>(self.dealer_index)?;
         let share_buff = self.share.hash(*s)?;
-- 
2.43.0


From 95012570698692c217406ac78f2ca66630f66a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 50/51] fix: a share published in another session blocked the
 reconstruction of a dealer's polynomial

---
 src/share/dkg/rabin/dkg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index d8f5b0e..a3682be 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -854,6 +854,12 @@ where
         let msg = rc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &rc.signature.clone())?;
 
+        // a share of another session says nothing about the deal we know of
+        let known = self.verifiers.get(&rc.dealer_index);
+        if known.is_some_and(|v| v.aggregator.is_some() && v.session_id() != rc.session_id) {
+            return Err(DKGError::ReconstructCommitsInvalidId);
+        }
+
         self.pending_reconstruct
             .entry(rc.dealer_index)
             .or_insert_with(alloc::vec::Vec::new);
-- 
2.43.0


From 29a16b92903c5ecdde953fad637047a57ddeec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 51/51] fix: a published share must be that of its sender's
 index

---
 src/share/dkg/rabin/dkg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index a3682be..1bffc55 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -854,6 +854,12 @@ where
         let msg = rc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &rc.signature.clone())?;
 
+        // everybody publishes the own share only; the signature covers no more
+        // than the low half of its index
+        if rc.share.i != rc.index as usize {
+            return Err(DKGError::ReconstructCommitsInvalidVerifierIndex);
+        }
+
         // a share of another session says nothing about the deal we know of
         let known = self.verifiers.get(&rc.dealer_index);
         if known.is_some_and(|v| v.aggregator.is_some() && v.session_id() != rc.session_id) {
-- 
2.43.0


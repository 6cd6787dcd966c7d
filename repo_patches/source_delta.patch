From 49266983e93fc993b372c7ff965736aa4226e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:57 +0000
Subject: [PATCH 01/15] fix: validate the credential request, and so its proof
 type, before evaluating it

---
 crates/openid4vci/src/credential_issuer/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 3ff7744..27a9f03 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -516,6 +516,8 @@ impl CredentialIssuer {
             return Err(CredentialIssuerError::AuthorizationServerMetadataNotSupported);
         };
 
+        credential_request.validate()?;
+
         if let Some(c_nonce_options) = evaluate_credential_request_options
             .clone()
             .and_then(|o| o.c_nonce)
-- 
2.43.0


From e0a25c92d64bba401719933ad797b095c0341885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:20 +0000
Subject: [PATCH 02/15] fix: refuse proofs whose header declares alg none or a
 symmetric algorithm

---
 crates/openid4vci/src/jwt/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b1fa7be..4a8f026 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -556,6 +556,20 @@ impl Validatable for ProofJwtHeader {
             });
         }
 
+        // Check that the `alg` is neither `none` nor an identifier for a symmetric algorithm
+        if matches!(
+            self.alg,
+            ProofJwtAlgorithm::None
+                | ProofJwtAlgorithm::HS256
+                | ProofJwtAlgorithm::HS384
+                | ProofJwtAlgorithm::HS512
+        ) {
+            return Err(ValidationError::Any {
+                validation_message: "jwt header `alg` MUST NOT be `none` or a symmetric algorithm"
+                    .to_owned(),
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From a92cbe77fb0c41d394721fed7b3985d0f5475f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:21 +0000
Subject: [PATCH 03/15] fix: enforce the validity window of the proof when
 evaluating a credential request

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 27a9f03..ba36db6 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -537,6 +537,7 @@ impl CredentialIssuer {
         if let Some(CredentialRequestProof { jwt, .. }) = &credential_request.proof {
             let jwt = ProofJwt::from_str(jwt)?;
             jwt.validate()?;
+            jwt.verify()?;
 
             let expected_c_nonce = evaluate_credential_request_options
                 .clone()
-- 
2.43.0


From 89047f94914094a2ed8cae72ae8f534a2939b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:23 +0000
Subject: [PATCH 04/15] fix: a proof is expired from its expiration time on

---
 crates/openid4vci/src/jwt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 4a8f026..1bde0e0 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -142,7 +142,7 @@ impl ProofJwt {
     /// # Errors
     ///
     /// - When the [`ProofJwtBody::not_before`] is greater than [`chrono::Utc::now`]
-    /// - When the [`ProofJwtBody::expires_at`] is smaller than [`chrono::Utc::now`]
+    /// - When the [`ProofJwtBody::expires_at`] is smaller than, or equal to, [`chrono::Utc::now`]
     pub fn verify(&self) -> JwtResult<()> {
         let now = Utc::now();
 
@@ -156,7 +156,7 @@ impl ProofJwt {
         }
 
         if let Some(expires_at) = self.body.expires_at {
-            if now > expires_at {
+            if now >= expires_at {
                 return Err(JwtError::NotValidAnymore {
                     valid_until: expires_at,
                     now,
-- 
2.43.0


From 643d0e1c385e3a83659a5403f3ad784862327aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:56 +0000
Subject: [PATCH 05/15] fix: refuse user pins of nine digits

---
 crates/openid4vci/src/access_token/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 794220a..7724de3 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -105,8 +105,9 @@ impl Validatable for GrantType {
             GrantType::PreAuthorizedCodeFlow { user_pin, .. } => {
                 if let Some(user_pin) = user_pin {
                     let max = 8;
+                    // The logarithm is one less than the number of digits
                     let length = user_pin.checked_ilog10().unwrap_or_default();
-                    if length > max {
+                    if length >= max {
                         return Err(ValidationError::Any {
                             validation_message: format!(
                                 "user pin exeeded length. Maximum is {max}, supplied is {length}"
-- 
2.43.0


From 0ec288a6287b616b6bc0f389551a6a1760d897cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:58 +0000
Subject: [PATCH 06/15] fix: serialise OAuth error codes as their specified
 strings

---
 crates/openid4vci/src/access_token/error_response.rs  | 1 +
 crates/openid4vci/src/credential_issuer/error_code.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/access_token/error_response.rs b/crates/openid4vci/src/access_token/error_response.rs
index e96c3f5..9cb4a39 100644
--- a/crates/openid4vci/src/access_token/error_response.rs
+++ b/crates/openid4vci/src/access_token/error_response.rs
@@ -6,6 +6,7 @@ use crate::validate::ValidationError;
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 6.3 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-6.3).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum AccessTokenErrorCode {
     /// `invalid_request`
     ///
diff --git a/crates/openid4vci/src/credential_issuer/error_code.rs b/crates/openid4vci/src/credential_issuer/error_code.rs
index 36061ba..0f22fb4 100644
--- a/crates/openid4vci/src/credential_issuer/error_code.rs
+++ b/crates/openid4vci/src/credential_issuer/error_code.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 7.3.1 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-7.3.1).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum CredentialIssuerErrorCode {
     /// Credential Request was malformed. One or more of the parameters (i.e. format, proof) are
     /// missing or malformed.
-- 
2.43.0


From 487348bfbb4b631b87fbdcc8f077a21d664d64f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:01 +0000
Subject: [PATCH 07/15] fix: emit issued credentials as a plain JSON object or
 string

---
 crates/openid4vci/src/types/credential.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index ae89654..39797e4 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -166,6 +166,7 @@ impl Validatable for CredentialFormatProfile {
 /// format as specified in Appendix E of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#name-credential-format-profiles).
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
+#[serde(untagged)]
 pub enum CredentialFormatProfileOrEncoded {
     /// [`CredentialFormatProfile`]
     CredentialFormatProfile(CredentialFormatProfile),
-- 
2.43.0


From 0c4faf20a24a412657f5e194905e69f7c1dc1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:03 +0000
Subject: [PATCH 08/15] fix: use the specified name of
 cryptographic_binding_methods_supported

---
 crates/openid4vci/src/types/credential_issuer_metadata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/openid4vci/src/types/credential_issuer_metadata.rs b/crates/openid4vci/src/types/credential_issuer_metadata.rs
index 1812f11..ea2b5d9 100644
--- a/crates/openid4vci/src/types/credential_issuer_metadata.rs
+++ b/crates/openid4vci/src/types/credential_issuer_metadata.rs
@@ -68,6 +68,10 @@ pub struct CredentialSupported {
     /// did:example. Support for all DID methods listed in Section 13 of
     /// [DID_Specification_Registries](https://www.w3.org/TR/did-spec-registries/) is indicated by
     /// sending a DID without any method-name.
+    #[serde(
+        rename = "cryptographic_binding_methods_supported",
+        alias = "cryptographic_binding_mehtods_supported"
+    )]
     pub cryptographic_binding_mehtods_supported: Option<Vec<String>>,
 
     /// Array of case sensitive strings that identify the cryptographic suites that are supported
-- 
2.43.0


From 789bd615e760ee9bcf6dc4e7c6bd84058c77445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:05 +0000
Subject: [PATCH 09/15] fix: read the pre-authorized code from the specified
 token request parameter

---
 crates/openid4vci/src/access_token/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 7724de3..fe8c1aa 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -88,6 +88,7 @@ pub enum GrantType {
         /// The code representing the authorization to obtain Credentials of a certain type. This
         /// parameter is required if the grant_type is
         /// urn:ietf:params:oauth:grant-type:pre-authorized_code.
+        #[serde(rename = "pre-authorized_code", alias = "pre_authorized_code")]
         pre_authorized_code: String,
 
         /// String value containing a user PIN. This value MUST be present if `user_pin_required`
-- 
2.43.0


From 8a1a1d19d70c0d8ebf805658c440fb181a1c6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:06 +0000
Subject: [PATCH 10/15] fix: validate the access token success response before
 returning it

---
 crates/openid4vci/src/access_token/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index fe8c1aa..471e1a4 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -281,7 +281,7 @@ impl AccessToken {
     ///
     /// # Errors
     ///
-    /// Unable to error, `Result` is used for consistency
+    /// - When `c_nonce_expires_in` is supplied without a `c_nonce`
     #[allow(clippy::too_many_arguments)]
     pub fn create_access_token_success_response(
         access_token: String,
@@ -304,6 +304,8 @@ impl AccessToken {
             interval,
         };
 
+        token_response.validate()?;
+
         Ok((token_response, Utc::now()))
     }
 }
-- 
2.43.0


From 33d1229abe85796dd8ccde8a9dd85a1bd75ff4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:08 +0000
Subject: [PATCH 11/15] fix: refuse compact proof tokens with more than three
 segments

---
 crates/openid4vci/src/jwt/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 1bde0e0..41f7d60 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -92,6 +92,12 @@ impl FromStr for ProofJwt {
 
         let signature = res.next();
 
+        if res.next().is_some() {
+            return Err(ValidationError::Any {
+                validation_message: "More than three segments found in the `JWT`".to_owned(),
+            });
+        }
+
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
-- 
2.43.0


From 9765bb1dffa420388a2cfbf5b23f5e46b9419d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:10 +0000
Subject: [PATCH 12/15] fix: do not panic when the nonce expiry is out of the
 representable range

---
 .../openid4vci/src/credential_issuer/mod.rs   | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index ba36db6..4655403 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -522,15 +522,20 @@ impl CredentialIssuer {
             .clone()
             .and_then(|o| o.c_nonce)
         {
-            let expiry_timestamp = c_nonce_options.c_nonce_created_at
-                + Duration::seconds(c_nonce_options.c_nonce_expires_in.into());
-            let now = Utc::now();
-
-            if expiry_timestamp < now {
-                return Err(CredentialIssuerError::CNonceIsExpired {
-                    now,
-                    expiry_timestamp,
-                });
+            // An expiry beyond the representable range lies in the future
+            let expiry_timestamp = c_nonce_options.c_nonce_created_at.checked_add_signed(
+                Duration::seconds(c_nonce_options.c_nonce_expires_in.into()),
+            );
+
+            if let Some(expiry_timestamp) = expiry_timestamp {
+                let now = Utc::now();
+
+                if expiry_timestamp < now {
+                    return Err(CredentialIssuerError::CNonceIsExpired {
+                        now,
+                        expiry_timestamp,
+                    });
+                }
             }
         }
 
-- 
2.43.0


From 82b9cb8ea8106b74ac511fffb493adce987f5e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:32 +0000
Subject: [PATCH 13/15] fix: use the specified name of the claim member
 value_type

---
 crates/openid4vci/src/types/credential.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index 39797e4..f36f05f 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -133,7 +133,11 @@ pub struct CredentialSubject {
     /// defined by this specification are string, number, and image media types such as image/jpeg
     /// as defined in [IANA media type registry for
     /// images](https://www.iana.org/assignments/media-types/media-types.xhtml#image).
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        skip_serializing_if = "Option::is_none",
+        rename = "value_type",
+        alias = "valueType"
+    )]
     pub value_type: Option<String>,
 
     /// An array of objects, where each object contains display properties of a certain claim in
-- 
2.43.0


From 3b358c71fefe73da331e47c07dff904249675cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:29 +0000
Subject: [PATCH 14/15] fix: read and write the token request's parameters at
 its top level

---
 crates/openid4vci/src/access_token/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 471e1a4..a3ba678 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -127,6 +127,7 @@ impl Validatable for GrantType {
 #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
 pub struct AccessTokenRequest {
     /// Grant type for the request
+    #[serde(flatten)]
     grant_type: GrantType,
 }
 
-- 
2.43.0


From 4d8f408e8364dc0201dfa382ff2da2d6c884d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:59 +0000
Subject: [PATCH 15/15] fix: refuse a proof whose kid is not a DID instead of
 naming the kid as the subject's DID

---
 crates/openid4vci/src/jwt/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 41f7d60..dfc4e37 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -192,6 +192,14 @@ impl ProofJwt {
                         }
                     })?;
 
+                    // Parsing a did url does not check the scheme
+                    if !did.did.starts_with("did:") {
+                        return Err(JwtError::UnableToTransformIntoDid {
+                            kid: key_id.clone(),
+                            message: ssi_dids::Error::DIDURL.to_string(),
+                        });
+                    }
+
                     Ok(Some(did.did))
                 }
                 ProofJwtAdditionalHeader::Jwk(jwk) => {
-- 
2.43.0


From 806c1b828cdcad06d6bc66a78103c59691bd02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 01/14] fix: percent-encode every reserved character of the
 query string

---
 src/private/canonical_request.rs | 18 +++++++++++++++++-
 src/private/signed_url.rs        |  4 +---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 2bad0e7..17f9e49 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,12 +66,28 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode(&k), percent_encode(&v)))
+        .map(|(k, v)| format!("{}={}", percent_encode_strict(&k), percent_encode_strict(&v)))
         .collect::<Vec<String>>();
     query_pairs.sort();
     query_pairs.join("&")
 }
 
+/// Percent-encodes everything but the unreserved characters (RFC 3986).
+pub(crate) fn percent_encode_strict(s: &str) -> String {
+    use std::fmt::Write as _;
+    s.bytes().fold(String::new(), |mut encoded, b| {
+        match b {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                encoded.push(char::from(b))
+            }
+            _ => {
+                let _ = write!(encoded, "%{b:02X}");
+            }
+        }
+        encoded
+    })
+}
+
 // ?=!#$&'()*+,:;@[]"
 pub(crate) fn percent_encode(s: &str) -> String {
     let mut encoded = String::new();
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 7289079..62121cd 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -95,9 +95,7 @@ fn add_signed_url_required_query_string_parameters(
         .append_pair("X-Goog-Algorithm", x_goog_algorithm.as_str())
         .append_pair(
             "X-Goog-Credential",
-            format!("{authorizer}/{credential_scope}")
-                .replace('/', "%2F")
-                .as_str(),
+            format!("{authorizer}/{credential_scope}").as_str(),
         )
         .append_pair("X-Goog-Date", x_goog_date.to_string().as_str())
         .append_pair("X-Goog-Expires", expiration.to_string().as_str())
-- 
2.43.0


From 21a37b8c92f9d8cc879d1fa3766314bda03152c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 02/14] fix: sort the query parameters of a signed URL by name

---
 src/private/canonical_request.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 17f9e49..90ef386 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,10 +66,15 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode_strict(&k), percent_encode_strict(&v)))
-        .collect::<Vec<String>>();
+        .map(|(k, v)| (percent_encode_strict(&k), percent_encode_strict(&v)))
+        .collect::<Vec<(String, String)>>();
+    // sorted by name, not by "name=value"
     query_pairs.sort();
-    query_pairs.join("&")
+    query_pairs
+        .into_iter()
+        .map(|(k, v)| format!("{k}={v}"))
+        .collect::<Vec<String>>()
+        .join("&")
 }
 
 /// Percent-encodes everything but the unreserved characters (RFC 3986).
-- 
2.43.0


From 4ff3eb0c80bfa2e2bbb3f7a7fdc0433ff0e304e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 03/14] fix: trim the header values of a canonical request

---
 src/private/canonical_request.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 90ef386..4b87145 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -32,7 +32,8 @@ impl CanonicalRequest {
                     .push(
                         value
                             .to_str()
-                            .map_err(Error::HeaderValueContainsInvalidCharacter)?,
+                            .map_err(Error::HeaderValueContainsInvalidCharacter)?
+                            .trim(),
                     );
             }
             canonical_headers
-- 
2.43.0


From f927076d8e66f7cc038d50f712212925778d3ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 04/14] fix: percent-encode the bucket and object name of a
 signed URL

---
 src/private.rs    |  4 +++-
 src/signed_url.rs | 28 ++++++++++++++++++++++++----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/private.rs b/src/private.rs
index 69a29e7..a46c2b1 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -17,7 +17,9 @@ pub mod utils;
 
 pub(crate) use self::active_datetime::ActiveDatetime;
 pub(crate) use self::bound_token::BoundToken;
-pub(crate) use self::canonical_request::{canonical_query_string, CanonicalRequest};
+pub(crate) use self::canonical_request::{
+    canonical_query_string, percent_encode_strict, CanonicalRequest,
+};
 pub(crate) use self::credential_scope::CredentialScope;
 pub(crate) use self::date::Date;
 pub(crate) use self::expiration::Expiration;
diff --git a/src/signed_url.rs b/src/signed_url.rs
index da8f44d..bb1fb4b 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -2,8 +2,8 @@ use std::{str::FromStr as _, time::SystemTime};
 
 use crate::{
     private::{
-        utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date, Expiration, HttpVerb,
-        Location, RequestType, Service, SignedUrl,
+        percent_encode_strict, utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date,
+        Expiration, HttpVerb, Location, RequestType, Service, SignedUrl,
     },
     SigningKey,
 };
@@ -14,6 +14,8 @@ pub struct Error(#[from] ErrorKind);
 
 #[derive(Debug, thiserror::Error)]
 enum ErrorKind {
+    #[error("bucket name is not supported")]
+    BucketName,
     #[error(transparent)]
     CredentialScope(crate::private::credential_scope::Error),
     #[error(transparent)]
@@ -34,6 +36,8 @@ enum ErrorKind {
     Location(crate::private::location::Error),
     #[error("now out of range")]
     Now,
+    #[error("object name contains a dot segment")]
+    ObjectName,
     #[error(transparent)]
     SignedUrl(crate::private::signed_url::Error),
 }
@@ -78,10 +82,22 @@ pub async fn build_signed_url(
     .map_err(|_| ErrorKind::ExpirationOutOfRange)?;
 
     let http_method = HttpVerb::from_str(http_method.as_str()).map_err(ErrorKind::HttpMethod)?;
+    // A dot segment cannot be escaped. URL parsers remove it.
+    if is_dot_segment(&bucket_name) {
+        return Err(Error::from(ErrorKind::BucketName));
+    }
+    if object_name.split('/').any(is_dot_segment) {
+        return Err(Error::from(ErrorKind::ObjectName));
+    }
     let mut url = url::Url::parse(
         format!(
-            // TODO: escape bucket_name and object_name
-            "https://storage.googleapis.com/{bucket_name}/{object_name}",
+            "https://storage.googleapis.com/{}/{}",
+            percent_encode_strict(&bucket_name),
+            object_name
+                .split('/')
+                .map(percent_encode_strict)
+                .collect::<Vec<String>>()
+                .join("/"),
         )
         .as_str(),
     )
@@ -130,3 +146,7 @@ pub async fn build_signed_url(
     .map_err(ErrorKind::SignedUrl)?;
     Ok(String::from(signed_url))
 }
+
+fn is_dot_segment(segment: &str) -> bool {
+    segment == "." || segment == ".."
+}
-- 
2.43.0


From 9af2dff96af9dcd37d59afa453418860ceb54773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:25 +0000
Subject: [PATCH 05/14] fix: return an error instead of panicking for an
 unsupported signing mode

---
 src/private/signing_key_inner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index 42a3b4c..4470e6b 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -8,6 +8,10 @@ pub(crate) enum Error {
     BoundTokenMustUseSignBlob,
     #[error("bound token signing error: {0}")]
     BoundTokenSigning(#[source] crate::private::bound_token::BoundTokenError),
+    #[error("hmac signing is not supported")]
+    HmacNotSupported,
+    #[error("service account must not use sign blob")]
+    ServiceAccountMustNotUseSignBlob,
     #[error("service account private key pem parsing error: {0}")]
     ServiceAccountPrivateKeyPemParsing(#[source] pem::PemError),
     #[error("service account private key pkcs8 parsing error: {0}")]
@@ -58,10 +62,10 @@ impl SigningKeyInner {
                     Err(Error::BoundTokenMustUseSignBlob)
                 }
             }
-            SigningKeyInner::Hmac { .. } => todo!(),
+            SigningKeyInner::Hmac { .. } => Err(Error::HmacNotSupported),
             SigningKeyInner::ServiceAccount { private_key, .. } => {
                 if use_sign_blob {
-                    todo!()
+                    Err(Error::ServiceAccountMustNotUseSignBlob)
                 } else {
                     let pkcs8 = pem::parse(private_key.as_bytes())
                         .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
-- 
2.43.0


From 2eefd64339912a25017175cea42bfbf932874ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:28 +0000
Subject: [PATCH 06/14] fix: return an error instead of panicking when the
 signed URL is too long

---
 src/private/signed_url.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 62121cd..98591bb 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -15,6 +15,8 @@ pub(crate) enum Error {
     CanonicalRequest(crate::private::canonical_request::Error),
     #[error("host header not found")]
     HostHeaderNotFound,
+    #[error("invalid uri: {0}")]
+    InvalidUri(http::uri::InvalidUri),
     #[error("signing error: {0}")]
     Signing(crate::private::signing_key_inner::Error),
 }
@@ -112,7 +114,7 @@ fn add_signed_url_required_query_string_parameters(
                 .as_str(),
         )
         .finish();
-    *request.uri_mut() = http::Uri::try_from(url1.to_string()).expect("url to be valid");
+    *request.uri_mut() = http::Uri::try_from(url1.to_string()).map_err(Error::InvalidUri)?;
     Ok(())
 }
 
-- 
2.43.0


From ea5afe2c5d54fb4e5bf77444da05851060d7e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:31 +0000
Subject: [PATCH 07/14] fix: do not panic on an extreme clock or token lifetime

---
 src/private/bound_token.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 1c4c0bc..50e50eb 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -44,6 +44,8 @@ pub(crate) enum BoundTokenError {
     TokenRequestErrorResponse(#[source] reqwest::Error),
     #[error("bound token / token request / execute error: {0}")]
     TokenRequestExecute(#[source] reqwest::Error),
+    #[error("bound token / token request / invalid expires_in error: {0}")]
+    TokenRequestInvalidExpiresIn(u64),
     #[error("bound token / token request / invalid token_type error: {0}")]
     TokenRequestInvalidTokenType(String),
     #[error("bound token / token request / status error: {0} {1}")]
@@ -80,12 +82,8 @@ impl BoundToken {
         Ok(match cache.clone() {
             Some((email, access_token, expires))
                 if expires
-                    .duration_since(SystemTime::UNIX_EPOCH)
-                    .expect("expires to be after unix_epoch")
-                    > SystemTime::now()
-                        .duration_since(SystemTime::UNIX_EPOCH)
-                        .expect("SystemTime::now() to be after unix_epoch")
-                        + Duration::from_secs(30) =>
+                    .duration_since(SystemTime::now())
+                    .is_ok_and(|remaining| remaining > Duration::from_secs(30)) =>
             {
                 (email, access_token)
             }
@@ -163,7 +161,11 @@ impl BoundToken {
                         access_token.token_type,
                     ));
                 }
-                let expires = SystemTime::now() + Duration::from_secs(access_token.expires_in);
+                let expires = SystemTime::now()
+                    .checked_add(Duration::from_secs(access_token.expires_in))
+                    .ok_or(BoundTokenError::TokenRequestInvalidExpiresIn(
+                        access_token.expires_in,
+                    ))?;
                 *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                 (email, access_token.access_token)
             }
-- 
2.43.0


From d4e4e52270119d16d52d59b72d318deb0ff947af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:34 +0000
Subject: [PATCH 08/14] fix: reckon the lifetime of an access token from when
 it was asked for

---
 src/private/bound_token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 50e50eb..fa40868 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -134,6 +134,7 @@ impl BoundToken {
                     .header("Metadata-Flavor", "Google")
                     .build()
                     .map_err(BoundTokenError::TokenRequestBuild)?;
+                let requested_at = SystemTime::now();
                 let response = self
                     .client
                     .execute(request)
@@ -161,7 +162,7 @@ impl BoundToken {
                         access_token.token_type,
                     ));
                 }
-                let expires = SystemTime::now()
+                let expires = requested_at
                     .checked_add(Duration::from_secs(access_token.expires_in))
                     .ok_or(BoundTokenError::TokenRequestInvalidExpiresIn(
                         access_token.expires_in,
-- 
2.43.0


From 8384ee7b2a2a8bd120d99d5ad5372ced342fc560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 09/14] fix: sign with the account named in the credential

---
 src/html_form_data.rs            | 6 +++++-
 src/private/bound_token.rs       | 8 ++++++--
 src/private/signed_url.rs        | 6 +++++-
 src/private/signing_key_inner.rs | 9 +++++++--
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/html_form_data.rs b/src/html_form_data.rs
index 1a68e2c..092df86 100644
--- a/src/html_form_data.rs
+++ b/src/html_form_data.rs
@@ -561,7 +561,11 @@ impl HtmlFormDataBuilder {
                 let message = encoded_policy.as_str();
                 let message_digest = signing_key
                     .0
-                    .sign(*use_sign_blob, message.as_bytes())
+                    .sign(
+                        service_account_client_email.as_str(),
+                        *use_sign_blob,
+                        message.as_bytes(),
+                    )
                     .await
                     .map_err(ErrorKind::Signing)?;
                 let x_goog_signature = hex_encode(&message_digest);
diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index fa40868..b51a9b7 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -173,8 +173,12 @@ impl BoundToken {
         })
     }
 
-    pub(crate) async fn sign(&self, message: &[u8]) -> Result<Vec<u8>, BoundTokenError> {
-        let (email, token) = self.get_email_and_token().await?;
+    pub(crate) async fn sign(
+        &self,
+        email: &str,
+        message: &[u8],
+    ) -> Result<Vec<u8>, BoundTokenError> {
+        let (_, token) = self.get_email_and_token().await?;
 
         // <https://cloud.google.com/iam/docs/reference/credentials/rest/v1/projects.serviceAccounts/signBlob>
         #[derive(Debug, serde::Serialize)]
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 98591bb..e880f0c 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -54,7 +54,11 @@ impl SignedUrl {
         let message = string_to_sign.to_string();
         let message_digest = signing_key
             .0
-            .sign(use_sign_blob, message.as_bytes())
+            .sign(
+                service_account_client_email.as_str(),
+                use_sign_blob,
+                message.as_bytes(),
+            )
             .await
             .map_err(Error::Signing)?;
         let request_signature = hex_encode(&message_digest);
diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index 4470e6b..993c952 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -50,12 +50,17 @@ impl SigningKeyInner {
         })
     }
 
-    pub(crate) async fn sign(&self, use_sign_blob: bool, message: &[u8]) -> Result<Vec<u8>, Error> {
+    pub(crate) async fn sign(
+        &self,
+        authorizer: &str,
+        use_sign_blob: bool,
+        message: &[u8],
+    ) -> Result<Vec<u8>, Error> {
         match self {
             SigningKeyInner::BoundToken(bound_token) => {
                 if use_sign_blob {
                     Ok(bound_token
-                        .sign(message)
+                        .sign(authorizer, message)
                         .await
                         .map_err(Error::BoundTokenSigning)?)
                 } else {
-- 
2.43.0


From 1cbac303fa2922eeeec7f34b4f4a3ad61c57ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 10/14] fix: collapse repeated white space in the header values
 of a canonical request

---
 src/private/canonical_request.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 4b87145..dc7d3f0 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -33,7 +33,10 @@ impl CanonicalRequest {
                         value
                             .to_str()
                             .map_err(Error::HeaderValueContainsInvalidCharacter)?
-                            .trim(),
+                            // folded and repeated white space is one space
+                            .split_whitespace()
+                            .collect::<Vec<&str>>()
+                            .join(" "),
                     );
             }
             canonical_headers
-- 
2.43.0


From d0ff4c78bea7b520ba69f6754c106aab6f421a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 11/14] fix: sign the payload hash given in
 x-goog-content-sha256

---
 src/private/canonical_request.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index dc7d3f0..c8e9765 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -45,8 +45,14 @@ impl CanonicalRequest {
                 .collect::<Vec<String>>()
                 .join("\n")
         };
-        let payload = "UNSIGNED-PAYLOAD".to_string();
-        // TODO: payload hash
+        let payload = match request.headers().get("x-goog-content-sha256") {
+            Some(value) => value
+                .to_str()
+                .map_err(Error::HeaderValueContainsInvalidCharacter)?
+                .trim()
+                .to_string(),
+            None => "UNSIGNED-PAYLOAD".to_string(),
+        };
         Ok(Self(
             [
                 http_verb,
-- 
2.43.0


From dc8dd01b05b99b6da96b511996e7b4c0d366c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:03 +0000
Subject: [PATCH 12/14] fix: do not sign the Host header twice when it is among
 the headers given

---
 src/signed_url.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index bb1fb4b..2e1b0c7 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -108,7 +108,6 @@ pub async fn build_signed_url(
             .map(|(k, v)| (k.as_str(), v.as_str())),
     );
     let mut request = http::Request::builder()
-        .header("Host", "storage.googleapis.com")
         .method(http::Method::from(http_method))
         .uri(url.to_string())
         .body(())
@@ -127,6 +126,10 @@ pub async fn build_signed_url(
             )
             .collect::<Result<Vec<_>, Error>>()?,
     );
+    request
+        .headers_mut()
+        .entry(http::header::HOST)
+        .or_insert(http::HeaderValue::from_static("storage.googleapis.com"));
     let credential_scope = CredentialScope::new(
         Date::from_unix_timestamp_obj(now),
         Location::try_from(region.as_str()).map_err(ErrorKind::Location)?,
-- 
2.43.0


From fab2429be50f0dda7c990035390019ff1209f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 13/14] fix: do not send metadata requests through a proxy

---
 src/private/bound_token.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index b51a9b7..0ddd5b9 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -61,6 +61,7 @@ pub(crate) struct BoundToken {
     base_url: String,
     cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,
     client: reqwest::Client,
+    metadata_client: reqwest::Client,
 }
 
 impl BoundToken {
@@ -74,6 +75,11 @@ impl BoundToken {
             ),
             cache: Arc::new(tokio::sync::Mutex::new(None)),
             client: reqwest::Client::new(),
+            // The metadata server is on the local link. A proxy must not see the tokens.
+            metadata_client: reqwest::Client::builder()
+                .no_proxy()
+                .build()
+                .expect("client to be built"),
         }
     }
 
@@ -95,13 +101,13 @@ impl BoundToken {
                     self.base_url
                 );
                 let request = self
-                    .client
+                    .metadata_client
                     .request(reqwest::Method::GET, url)
                     .header("Metadata-Flavor", "Google")
                     .build()
                     .map_err(BoundTokenError::EmailRequestBuild)?;
                 let response = self
-                    .client
+                    .metadata_client
                     .execute(request)
                     .await
                     .map_err(BoundTokenError::EmailRequestExecute)?;
@@ -129,14 +135,14 @@ impl BoundToken {
                     self.base_url
                 );
                 let request = self
-                    .client
+                    .metadata_client
                     .request(reqwest::Method::GET, url)
                     .header("Metadata-Flavor", "Google")
                     .build()
                     .map_err(BoundTokenError::TokenRequestBuild)?;
                 let requested_at = SystemTime::now();
                 let response = self
-                    .client
+                    .metadata_client
                     .execute(request)
                     .await
                     .map_err(BoundTokenError::TokenRequestExecute)?;
-- 
2.43.0


From 9f1e20c22921a4e5d273a2a33917629b6149235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:52 +0000
Subject: [PATCH 14/14] fix: do not follow a redirect of the metadata server

---
 src/private/bound_token.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 0ddd5b9..292d041 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -78,6 +78,8 @@ impl BoundToken {
             // The metadata server is on the local link. A proxy must not see the tokens.
             metadata_client: reqwest::Client::builder()
                 .no_proxy()
+                // Nor does any other host answer for it.
+                .redirect(reqwest::redirect::Policy::none())
                 .build()
                 .expect("client to be built"),
         }
-- 
2.43.0


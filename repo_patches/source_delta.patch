From edc22d5bae70951c49943a8a5df63d41930b1dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 01/25] fix: return InvalidRadix instead of panicking when
 IsDigitRadix is 0 or 1

---
 src/types/char_matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/char_matcher.rs b/src/types/char_matcher.rs
index 83369d2..18f64f6 100644
--- a/src/types/char_matcher.rs
+++ b/src/types/char_matcher.rs
@@ -72,7 +72,7 @@ pub enum CharMatcher {
     IsDigit,
     /// [`char::is_digit`].
     /// # Errors
-    /// If the radix is greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
+    /// If the radix is less than 2 or greater than 36, returns the error [`CharMatcherError::InvalidRadix`].
     IsDigitRadix(u32),
     /// [`char::is_lowercase`].
     IsLowercase,
@@ -85,7 +85,7 @@ pub enum CharMatcher {
 }
 #[derive(Debug, Error)]
 pub enum CharMatcherError {
-    #[error("Invalid radix: {0}. Radix must be between 0 and 36 inclusive. See [`char::is_digit`] for details.")]
+    #[error("Invalid radix: {0}. Radix must be between 2 and 36 inclusive. See [`char::is_digit`] for details.")]
     InvalidRadix(u32),
     #[error("CharMatcher::Error was used.")]
     ExplicitError,
@@ -169,7 +169,7 @@ impl CharMatcher {
             Self::IsAsciiWhitespace   => c.is_ascii_whitespace(),
             Self::IsControl           => c.is_control(),
             Self::IsDigit             => c.is_ascii_digit(),
-            Self::IsDigitRadix(radix) => if *radix <= 36 {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
+            Self::IsDigitRadix(radix) => if (2..=36).contains(radix) {c.is_digit(*radix)} else {Err(CharMatcherError::InvalidRadix(*radix))?},
             Self::IsLowercase         => c.is_lowercase(),
             Self::IsNumeric           => c.is_numeric(),
             Self::IsUppercase         => c.is_uppercase(),
-- 
2.43.0


From 4077be7e57e9d0dcfdeaf71a0c959a8d29229dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 02/25] fix: keep host details in step with the host when
 setting a domain on a URL with a non-special scheme

---
 src/types/better_url.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 6c3224a..31db300 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -378,9 +378,9 @@ impl BetterUrl {
     ///
     /// If the call to [`HostDetails::from_host_str`] doesn't return a [`HostDetails::Domain`], returns the error [`SetDomainHostError::ProvidedHostIsNotADomain`].
     pub fn set_domain_host(&mut self, domain: &str) -> Result<(), SetDomainHostError> {
-        if let Ok(host_details @ HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
+        if let Ok(HostDetails::Domain(_)) = HostDetails::from_host_str(domain) {
             self.url.set_host(Some(domain))?;
-            self.host_details = Some(host_details);
+            self.host_details = self.url.host().map(|host| HostDetails::from_host(&host));
         } else {
             Err(SetDomainHostError::ProvidedHostIsNotADomain)?;
         }
-- 
2.43.0


From 6eb0973e9a008ecd7960ee01011b5aa83e99c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 03/25] fix: return an error instead of panicking when removing
 the FQDN period of the host `.`

---
 src/types/better_url.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/types/better_url.rs b/src/types/better_url.rs
index 31db300..2abd65a 100644
--- a/src/types/better_url.rs
+++ b/src/types/better_url.rs
@@ -140,7 +140,10 @@ pub enum SetFqdnPeriodError {
     NoHost,
     /// Returned when the URL's host isn't a domain.
     #[error("The URL's host wasn't a domain.")]
-    HostIsNotADomain
+    HostIsNotADomain,
+    /// Returned when a [`SetHostError`] is encountered.
+    #[error(transparent)]
+    SetHostError(#[from] SetHostError)
 }
 
 /// The enum of errors [`BetterUrl::set_domain_host`] can return.
@@ -553,6 +556,8 @@ impl BetterUrl {
     /// If `self` doesn't have a host, returns the error [`SetFqdnPeriodError::NoHost`].
     ///
     /// If the host isn't a domain, returns the error [`SetFqdnPeriodError::HostIsNotADomain`].
+    ///
+    /// If the call to [`Self::set_host`] returns an error (such as when the host is just `.`), that error is returned.
     /// # Examples
     /// ```
     /// use url_cleaner::types::*;
@@ -576,7 +581,7 @@ impl BetterUrl {
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), false) => {},
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: None   , ..})), true ) => {self.set_host(Some(&format!("{}.", self.host_str().expect("The URL having a DomainDetails means it has a host.")))).expect("Adding a FQDN period to keep the host valid.")},
             #[expect(clippy::unnecessary_to_owned, reason = "It is necessary.")]
-            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string())).expect("Removing a FQDN period to keep the host valid.")},
+            (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), false) => {self.set_host(Some(&self.host_str().expect("The URL having a DomainDetails means it has a host.").strip_suffix('.').expect("The URL's DomainDetails::fqdn_period being Some means the host ends with a period.").to_string()))?},
             (Some(HostDetails::Domain(DomainDetails {fqdn_period: Some(_), ..})), true ) => {},
             (Some(_), _) => Err(SetFqdnPeriodError::HostIsNotADomain)?,
             (None, _) => Err(SetFqdnPeriodError::NoHost)?
-- 
2.43.0


From 5d77676dd547e5f0577520a427bfe55c730b826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 04/25] fix: keep an empty first path segment when setting a
 path segment

---
 src/types/url_part.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/url_part.rs b/src/types/url_part.rs
index 8ca41af..d7db164 100755
--- a/src/types/url_part.rs
+++ b/src/types/url_part.rs
@@ -1134,9 +1134,9 @@ impl UrlPart {
 
             (Self::Path, Some(to)) => url.set_path(to),
             (Self::Path, None    ) => Err(UrlPartSetError::PathCannotBeNone)?,
-            (Self::BeforePathSegment(n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?.join("/")).filter(|x| !x.is_empty()))?,
-            (Self::PathSegment      (n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?.join("/")).filter(|x| !x.is_empty()))?,
-            (Self::AfterPathSegment (n), _) => Self::Path.set(url, Some(&*set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?.join("/")).filter(|x| !x.is_empty()))?,
+            (Self::BeforePathSegment(n), _) => Self::Path.set(url, Some(set_rel_segment(url.path_segments()?, *n, SegRel::Before, to)?.join("/")).filter(|x| !x.is_empty()).map(|x| format!("/{x}")).as_deref())?,
+            (Self::PathSegment      (n), _) => Self::Path.set(url, Some(set_rel_segment(url.path_segments()?, *n, SegRel::At    , to)?.join("/")).filter(|x| !x.is_empty()).map(|x| format!("/{x}")).as_deref())?,
+            (Self::AfterPathSegment (n), _) => Self::Path.set(url, Some(set_rel_segment(url.path_segments()?, *n, SegRel::After , to)?.join("/")).filter(|x| !x.is_empty()).map(|x| format!("/{x}")).as_deref())?,
             (Self::NextPathSegment     , _) => if let Some(to) = to {url.path_segments_mut()?.pop_if_empty().push(to);},
 
 
-- 
2.43.0


From 0cf04b98c06412219eaec864639df5cba10c4728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 05/25] fix: apply the referer of an HTTP client config diff to
 the referer, not to no_proxy

---
 src/glue/http_client_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/http_client_config.rs b/src/glue/http_client_config.rs
index f5b0982..6018f40 100644
--- a/src/glue/http_client_config.rs
+++ b/src/glue/http_client_config.rs
@@ -146,7 +146,7 @@ impl HttpClientConfigDiff {
         if let Some(set_proxies) = &self.set_proxies {to.proxies.clone_from(set_proxies);}
         to.proxies.extend(self.add_proxies.clone());
         if let Some(no_proxy) = self.no_proxy {to.no_proxy = no_proxy;}
-        if let Some(referer) = self.referer {to.no_proxy = referer;}
+        if let Some(referer) = self.referer {to.referer = referer;}
         to.extra_certificates.extend(self.add_extra_certificates.clone());
         to.extra_certificates.retain(|extra_certificate| !self.remove_extra_certificates.contains(extra_certificate));
     }
-- 
2.43.0


From 01307e19e3e776829196e28fccdb72b6ee4fae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 06/25] fix: make --no-proxy take effect when it is the only
 params diff argument

---
 src/types/config/params.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index d1d56b3..c9b8573 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -392,6 +392,7 @@ impl ParamsDiffArgParser {
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.read_cache.is_some()};
         #[cfg(feature = "cache")] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.write_cache.is_some()};
         #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.proxy.is_some()};
+        #[cfg(feature = "http" )] #[allow(clippy::unnecessary_operation, reason = "False positive.")] {feature_flag_make_params_diff = feature_flag_make_params_diff || self.no_proxy.is_some()};
         !self.flag.is_empty() || !self.unflag.is_empty() || !self.var.is_empty() || !self.unvar.is_empty() || !self.insert_into_set.is_empty() || !self.remove_from_set.is_empty() || !self.insert_into_map.is_empty() || !self.remove_from_map.is_empty() || feature_flag_make_params_diff
     }
 }
-- 
2.43.0


From 24624002b5e7ce05b7b9207f66549676ca16ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 07/25] fix: let repeated --insert-into-*/--remove-from-*
 arguments of one name add up

---
 src/types/config/params.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index c9b8573..ded6f3a 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -344,8 +344,26 @@ impl ParamsDiffArgParser {
             }).collect::<Result<_, _>>()?,
             unvars : self.unvar.into_iter().collect(),
             init_sets: Default::default(),
-            insert_into_sets: self.insert_into_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)}).collect::<Result<_, _>>()?,
-            remove_from_sets: self.remove_from_set.into_iter().map(|mut x| if !x.is_empty() {Ok((x.swap_remove(0), x))} else {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)}).collect::<Result<_, _>>()?,
+            insert_into_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+
+                for mut x in self.insert_into_set {
+                    if x.is_empty() {Err(ParamsDiffArgParserValueWrong::InsertIntoSetsNoName)?}
+                    ret.entry(x.swap_remove(0)).or_default().extend(x);
+                }
+
+                ret
+            },
+            remove_from_sets: {
+                let mut ret = HashMap::<String, Vec<String>>::new();
+
+                for mut x in self.remove_from_set {
+                    if x.is_empty() {Err(ParamsDiffArgParserValueWrong::RemoveFromSetsNoName)?}
+                    ret.entry(x.swap_remove(0)).or_default().extend(x);
+                }
+
+                ret
+            },
             delete_sets     : Default::default(),
             init_maps       : Default::default(),
             map_diffs       : {
@@ -354,7 +372,7 @@ impl ParamsDiffArgParser {
                 for invocation in self.insert_into_map {
                     if invocation.len() % 2 == 1 {
                         let mut x = invocation.into_iter();
-                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map = std::iter::from_fn(|| x.next().zip(x.next())).collect();
+                        ret.entry(x.next().ok_or(ParamsDiffArgParserValueWrong::InsertIntoMapNoName)?).or_default().insert_into_map.extend(std::iter::from_fn(|| x.next().zip(x.next())));
                     } else {
                         Err(ParamsDiffArgParserValueWrong::InsertIntoMapKeyWithoutValue)?
                     }
@@ -364,7 +382,7 @@ impl ParamsDiffArgParser {
                     if !invocation.is_empty() {
                         let mut x = invocation.into_iter();
                         let name = x.next().ok_or(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?;
-                        ret.entry(name).or_default().remove_from_map = x.collect();
+                        ret.entry(name).or_default().remove_from_map.extend(x);
                     } else {
                         Err(ParamsDiffArgParserValueWrong::RemoveFromMapNoMapSpecified)?
                     }
-- 
2.43.0


From 7ce87848a15d45e35d62cd7a6a14604c26a61f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 08/25] fix: reject duplicate keys in params, params diffs and
 docs as their attributes intend

---
 src/types/config/docs.rs   | 18 +++++++++---------
 src/types/config/params.rs | 28 ++++++++++++++--------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/types/config/docs.rs b/src/types/config/docs.rs
index 7c3ccfb..fef7b77 100755
--- a/src/types/config/docs.rs
+++ b/src/types/config/docs.rs
@@ -21,31 +21,31 @@ pub struct ConfigDocs {
     #[serde(default, skip_serializing_if = "is_default")]
     pub description: Option<Vec<String>>,
     /// The documentation of the flags in [`Params::flags`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashMap<String, String>,
     /// The documentation of the cars in [`Params::vars`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// The documentation of the environment variables used.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub environment_vars: HashMap<String, String>,
     /// The documentation of the sets in [`Params::sets`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, String>,
     /// The documentation of the lists in [`Params::lists`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, String>,
     /// The documentation of the maps in [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, String>,
     /// The documentation of the named partitionings in [`Params::named_partitionings`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, String>,
     /// The documentation of the stuff used in [`JobContext`]s.
@@ -61,7 +61,7 @@ pub struct ConfigDocs {
 #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize, Suitability)]
 pub struct JobContextDocs {
     /// Documentation for the vars in [`JobContext::vars`]
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>
 }
@@ -71,7 +71,7 @@ pub struct JobContextDocs {
 #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize, Suitability)]
 pub struct TaskContextDocs {
     /// Documentation for the vars in [`TaskContext::vars`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>
 }
diff --git a/src/types/config/params.rs b/src/types/config/params.rs
index ded6f3a..3aa4123 100644
--- a/src/types/config/params.rs
+++ b/src/types/config/params.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, HashSet};
 
 use serde::{Serialize, Deserialize};
 use thiserror::Error;
-use serde_with::serde_as;
+use serde_with::{serde_as, MapPreventDuplicates, SetPreventDuplicates};
 
 use crate::types::*;
 use crate::glue::*;
@@ -19,25 +19,25 @@ pub struct Params {
     /// Flags allow enabling and disabling certain behavior.
     ///
     /// Defaults to an empty [`HashSet`].
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub flags: HashSet<String>,
     /// Vars allow setting strings used for certain behaviors.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub vars: HashMap<String, String>,
     /// Sets allow quickly checking if a string is in a certain genre of possible values.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub sets: HashMap<String, HashSet<String>>,
     /// Lists are a niche thing that lets you iterate over a set of values in a known order.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub lists: HashMap<String, Vec<String>>,
     /// Maps allow mapping input values to output values.
@@ -45,7 +45,7 @@ pub struct Params {
     /// Please note that [`Map`]s make this more powerful than a normal [`HashMap`], notably including a default value.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub maps: HashMap<String, Map<String>>,
     /// Named partitionings effectively let you check which if several sets a value is in.
@@ -53,7 +53,7 @@ pub struct Params {
     /// See [this Wikipedia article](https://en.wikipedia.org/wiki/Partition_of_a_set) for the math end of this idea.
     ///
     /// Defaults to an empty [`HashMap`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")]
     pub named_partitionings: HashMap<String, NamedPartitioning>,
     /// If [`true`], things that interact with the cache will read from the cache.
@@ -103,26 +103,26 @@ impl Default for Params {
 #[derive(Debug, Clone, Default, Deserialize, Serialize, PartialEq, Eq)]
 pub struct ParamsDiff {
     /// [`Params::flags`] to set.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub flags  : HashSet<String>,
     /// [`Params::flags`] to unset.
-    #[serde_with = "SetPreventDuplicates<_>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unflags: HashSet<String>,
     /// [`Params::vars`] to set.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub vars  : HashMap<String, String>,
     /// [`Params::vars`] to unset.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "SetPreventDuplicates<_>")]
     #[serde(default, skip_serializing_if = "is_default")] pub unvars: HashSet<String>,
     /// [`Params::sets`] to init.
     ///
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_sets: Vec<String>,
     /// [`Params::sets`] and values to insert into them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub insert_into_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] and values to remove from them.
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub remove_from_sets: HashMap<String, Vec<String>>,
     /// [`Params::sets`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_sets: Vec<String>,
@@ -131,7 +131,7 @@ pub struct ParamsDiff {
     /// Shouldn't ever actually change anything, but if you're really fussy or something.
     #[serde(default, skip_serializing_if = "is_default")] pub init_maps: Vec<String>,
     /// [`MapDiff`]s to apply to [`Params::maps`].
-    #[serde_with = "MapPreventDuplicates<_, _>"]
+    #[serde_as(as = "MapPreventDuplicates<_, _>")]
     #[serde(default, skip_serializing_if = "is_default")] pub map_diffs: HashMap<String, MapDiff<String>>,
     /// [`Params::maps`] to delete.
     #[serde(default, skip_serializing_if = "is_default")] pub delete_maps: Vec<String>,
-- 
2.43.0


From b5c3f8a9868f542b91f57a56cde546a1e54b05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 09/25] fix: keep each task's error on one line of stderr

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 58a60fd..645bafa 100755
--- a/src/main.rs
+++ b/src/main.rs
@@ -256,12 +256,12 @@ fn main() -> Result<ExitCode, CliError> {
                             },
                             Ok(Ok(Err(e))) => {
                                 println!();
-                                eprintln!("DoTaskError\t{e:?}");
+                                eprintln!("DoTaskError\t{}", format!("{e:?}").replace('\n', "\\n"));
                                 *some_err_ref_lock = true;
                             }
                             Ok(Err(e)) => {
                                 println!();
-                                eprintln!("MakeTaskError\t{e:?}");
+                                eprintln!("MakeTaskError\t{}", format!("{e:?}").replace('\n', "\\n"));
                                 *some_err_ref_lock = true;
                             }
                             Err(_) => break
-- 
2.43.0


From 62242ef83e8be3acda844ca6fc3e33d449139f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 10/25] fix: writing to the cache overwrites an existing entry,
 as documented

---
 src/glue/caching.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 9e143b5..1946154 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -307,11 +307,16 @@ impl InnerCache {
     /// If the call to [`RunQueryDsl::get_result`] returns an error, that error is returned.
     pub fn write(&mut self, category: &str, key: &str, value: Option<&str>) -> Result<(), WriteToCacheError> {
         debug!(InnerCache::write, self, category, key, value);
-        diesel::replace_into(cache::table)
-            .values(&NewCacheEntry {category, key, value})
-            .returning(CacheEntry::as_returning())
-            .get_result(self.connect()?)?;
-        Ok(())
+        self.connect()?.transaction(|connection| {
+            diesel::delete(cache::table
+                .filter(cache::dsl::category.eq(category))
+                .filter(cache::dsl::key.eq(key)))
+                .execute(connection)?;
+            diesel::insert_into(cache::table)
+                .values(&NewCacheEntry {category, key, value})
+                .execute(connection)?;
+            Ok(())
+        })
     }
 }
 
-- 
2.43.0


From 18ecaefe1ce83db43874d8c8c0fca121fea612d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 11/25] fix: initialise a cache file that exists but has no
 table yet (crash or race while creating it)

---
 src/glue/caching.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 1946154..6500b13 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -27,7 +27,7 @@ diesel::table! {
 }
 
 /// The Sqlite command to initialize the cache databese.
-pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE cache (
+pub const DB_INIT_COMMAND: &str = r#"CREATE TABLE IF NOT EXISTS cache (
     id INTEGER NOT NULL PRIMARY KEY,
     category TEXT NOT NULL,
     "key" TEXT NOT NULL,
@@ -262,17 +262,13 @@ impl InnerCache {
     pub fn connect(&mut self) -> Result<&mut SqliteConnection, ConnectCacheError> {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
-            let mut needs_init = self.path == CachePath::Memory;
             if let CachePath::Path(path) = &self.path {
                 if !std::fs::exists(path)? {
-                    needs_init = true;
                     std::fs::File::create_new(path)?;
                 }
             }
             let mut connection = SqliteConnection::establish(self.path.as_str())?;
-            if needs_init {
-                diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
-            }
+            diesel::sql_query(DB_INIT_COMMAND).execute(&mut connection)?;
             self.connection.set(connection).map_err(|_| ()).expect("The connection to have just been confirmed unset.");
         }
         Ok(self.connection.get_mut().expect("The connection to have just been set."))
-- 
2.43.0


From 6f624c49835ffe3323bbb123e5f0e318d724bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 12/25] fix: create the database of a file:// cache path at the
 path it names

---
 src/glue/caching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index 6500b13..e8f7d51 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -262,7 +262,7 @@ impl InnerCache {
     pub fn connect(&mut self) -> Result<&mut SqliteConnection, ConnectCacheError> {
         debug!(InnerCache::connect, self);
         if self.connection.get().is_none() {
-            if let CachePath::Path(path) = &self.path {
+            if let Some(path) = self.path.as_path() {
                 if !std::fs::exists(path)? {
                     std::fs::File::create_new(path)?;
                 }
-- 
2.43.0


From 87debf2e76c9b766007b218e70b625f89ebcdfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 13/25] fix: accept null, booleans and arrays as JSON request
 body values

---
 src/glue/json.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/glue/json.rs b/src/glue/json.rs
index 68afc9f..dad03f5 100644
--- a/src/glue/json.rs
+++ b/src/glue/json.rs
@@ -83,6 +83,22 @@ impl<'de> Deserialize<'de> for StringSourceJsonValue {
                 Self::Value::deserialize(serde::de::value::MapAccessDeserializer::new(map))
             }
 
+            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+                let mut ret = Vec::new();
+                while let Some(x) = seq.next_element()? {
+                    ret.push(x);
+                }
+                Ok(Self::Value::Array(ret))
+            }
+
+            fn visit_unit<E>(self) -> Result<Self::Value, E> {
+                Ok(Value::Null.into())
+            }
+
+            fn visit_bool<E>(self, value: bool) -> Result<Self::Value, E> {
+                Ok(Value::Bool(value).into())
+            }
+
             fn visit_i64<E>(self, value: i64) -> Result<Self::Value, E> {
                 Ok(Value::Number(value.into()).into())
             }
-- 
2.43.0


From 6a67e0fead3ec8bcc9a910002777c1a406c9561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 14/25] fix: index HTML attributes by byte, not by character
 (multi-byte input panicked or gave the wrong value)

---
 src/glue/parse/html/get_attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index 96b4eb1..db117d8 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -176,7 +176,7 @@ pub fn get_attribute_value<'a>(input: &'a str, name: &'a str) -> Result<Option<O
         attr_value_start: 0
     };
 
-    for (i, c) in input.chars().enumerate() {
+    for (i, c) in input.char_indices() {
         if let Err(e) = munch(&mut state, i, c) {
             return Err(GAVError::Syntax {
                 index: i,
-- 
2.43.0


From 36e4afc238ddfe8c6aa31789e721a4159945b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 15/25] fix: HTML attributes without a value, and those around
 them, are found (<a href >, <a href=x b>, <a b href=x>)

---
 src/glue/parse/html/get_attribute.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/glue/parse/html/get_attribute.rs b/src/glue/parse/html/get_attribute.rs
index db117d8..681c0c2 100644
--- a/src/glue/parse/html/get_attribute.rs
+++ b/src/glue/parse/html/get_attribute.rs
@@ -220,23 +220,29 @@ fn munch(state: &mut GAVState, i: usize, c: char) -> Result<(), GAVSyntaxErrorKi
 
 
         (LB::BeforeAttributeName, '\t' | '\r' | '\n' | ' ') => {},
-        (LB::BeforeAttributeName, '/' | '>'               ) => {state.last_bite = LB::AfterAttributeName; munch(state, i, c)?;},
+        (LB::BeforeAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag;},
+        (LB::BeforeAttributeName, '>'                     ) => {state.last_bite = LB::Done;},
         (LB::BeforeAttributeName, '='                     ) => Err(EK::UnexpextedEqualsSignBeforeAttributeName)?,
         (LB::BeforeAttributeName, _                       ) => {state.last_bite = LB::AttributeName; state.attr_name_start = i; munch(state, i, c)?;},
 
 
-        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; munch(state, i, c)?;},
-        (LB::AttributeName, '>'                           ) => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);} else {state.ret = None;} munch(state, i, c)?;},
+        (LB::AttributeName, '\t' | '\r' | '\n' | ' ' | '/' | '>') => {state.last_bite = LB::AfterAttributeName  ; state.attr_name_end = i; munch(state, i, c)?;},
         (LB::AttributeName, '='                           ) => {state.last_bite = LB::BeforeAttributeValue; state.attr_name_end = i;},
         (LB::AttributeName, '\0' | '"' | '\'' | '<'       ) => Err(EK::UnexpectedCharacterInAttributeName)?,
         (LB::AttributeName, _                             ) => {},
 
 
         (LB::AfterAttributeName, '\t' | '\r' | '\n' | ' ') => {},
-        (LB::AfterAttributeName, '/'                     ) => {state.last_bite = LB::SelfClosingStartTag ;},
         (LB::AfterAttributeName, '='                     ) => {state.last_bite = LB::BeforeAttributeValue;},
-        (LB::AfterAttributeName, '>'                     ) => {state.last_bite = LB::Done; if &state.input[state.attr_name_start..i] == state.name {state.ret = Some(None);}},
-        (LB::AfterAttributeName, _                       ) => {state.last_bite = LB::AttributeName       ; munch(state, i, c)?;},
+        (LB::AfterAttributeName, _                       ) => {
+            // The attribute that just ended has no value.
+            if &state.input[state.attr_name_start..state.attr_name_end] == state.name {state.ret = Some(None);}
+            match c {
+                '/' => {state.last_bite = LB::SelfClosingStartTag;},
+                '>' => {state.last_bite = LB::Done;},
+                _   => {state.last_bite = LB::AttributeName; state.attr_name_start = i; munch(state, i, c)?;}
+            }
+        },
 
 
         (LB::BeforeAttributeValue, '\t' | '\r' | '\n' | ' ') => {},
-- 
2.43.0


From 7746eb974cdaab43fa8aba6cde332d64c7f83eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 16/25] fix: \f and \x80..\xff escapes in JavaScript string
 literals

---
 src/glue/parse/js/string_literal_prefix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glue/parse/js/string_literal_prefix.rs b/src/glue/parse/js/string_literal_prefix.rs
index 912a8cb..cebc29d 100644
--- a/src/glue/parse/js/string_literal_prefix.rs
+++ b/src/glue/parse/js/string_literal_prefix.rs
@@ -103,7 +103,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Inside          , '\\'                             ) => {last_state = StringLiteralPrefixLastState::Start           ;},
             (StringLiteralPrefixLastState::Start           , '0'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\0');},
             (StringLiteralPrefixLastState::Start           , 'b'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{0008}');},
-            (StringLiteralPrefixLastState::Start           , 'g'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
+            (StringLiteralPrefixLastState::Start           , 'f'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\u{000c}');},
             (StringLiteralPrefixLastState::Start           , 'n'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\n');},
             (StringLiteralPrefixLastState::Start           , '\n'                             ) => {last_state = StringLiteralPrefixLastState::Inside          ;},
             (StringLiteralPrefixLastState::Start           , 'r'                              ) => {last_state = StringLiteralPrefixLastState::Inside          ; ret.push('\r');},
@@ -116,7 +116,7 @@ pub fn string_literal_prefix(s: &str) -> Result<String, StringLiteralPrefixError
             (StringLiteralPrefixLastState::Octal1          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Octal2          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap();},
             (StringLiteralPrefixLastState::Octal2          , '0'..='7'                        ) => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace *  8 + c.to_digit( 8).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'x'                              ) => {last_state = StringLiteralPrefixLastState::AsciiHexx       ;},
-            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='7' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
+            (StringLiteralPrefixLastState::AsciiHexx       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::AsciiHex1       ; scratchspace =                     c.to_digit(16).unwrap();},
             (StringLiteralPrefixLastState::AsciiHex1       , '0'..='9' | 'A'..='F' | 'a'..='f') => {last_state = StringLiteralPrefixLastState::Inside          ; scratchspace = scratchspace * 16 + c.to_digit(16).unwrap(); ret.push(char::from_u32(scratchspace).ok_or(StringLiteralPrefixError::InvalidCodepoint(scratchspace))?);},
             (StringLiteralPrefixLastState::Start           , 'u'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeU        ;},
             (StringLiteralPrefixLastState::UnicodeU        , '{'                              ) => {last_state = StringLiteralPrefixLastState::UnicodeLeftBrace;},
-- 
2.43.0


From 1334717c5d0d04902c821ae7c0133b450051fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 17/25] fix: CachePath::Memory was serialized as a path named
 Memory

---
 src/glue/caching.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glue/caching.rs b/src/glue/caching.rs
index e8f7d51..51ccf68 100644
--- a/src/glue/caching.rs
+++ b/src/glue/caching.rs
@@ -109,6 +109,7 @@ pub enum CachePath {
     ///
     /// Has the string representation of `:memory:`.
     #[default]
+    #[serde(rename = ":memory:", alias = "Memory")]
     Memory,
     /// A filesystem/network/whatever path.
     Path(String)
-- 
2.43.0


From 784a6a6af6538f6eafbe602b9629ca9a4d8b577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 18/25] fix: StringSourceJsonValue::Null was serialized as the
 string "Null"

---
 src/glue/json.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glue/json.rs b/src/glue/json.rs
index dad03f5..88d520b 100644
--- a/src/glue/json.rs
+++ b/src/glue/json.rs
@@ -59,7 +59,11 @@ impl From<String> for StringSourceJsonValue {
 #[allow(clippy::missing_errors_doc, reason = "Who cares?")]
 impl Serialize for StringSourceJsonValue {
     fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        <StringSourceJsonValue>::serialize(self, serializer)
+        match self {
+            // Unit variants are serialized as strings, which would be deserialized as a [`Self::String`].
+            Self::Null => serializer.serialize_unit(),
+            _ => <StringSourceJsonValue>::serialize(self, serializer)
+        }
     }
 }
 
-- 
2.43.0


From c7c713d7805acb8c689279c3c96e47125e7f6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:15 +0000
Subject: [PATCH 19/25] fix: suitability test looks into computed names of
 sets, maps and named partitionings

---
 src/util/suitability.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/suitability.rs b/src/util/suitability.rs
index 08a95cf..c833f82 100644
--- a/src/util/suitability.rs
+++ b/src/util/suitability.rs
@@ -31,11 +31,11 @@ always_suitable!(char, str, String, u8, u16, u32, u64, u128, usize, i8, i16, i32
 #[cfg(feature = "glob")] always_suitable!(glob::Pattern, glob::MatchOptions);
 
 /// Suitability helper function to check that a set is documented.
-pub(crate) fn set_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.sets               .contains_key(name), "Undocumented Set: {name}")}}
+pub(crate) fn set_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.sets               .contains_key(name), "Undocumented Set: {name}")} else {name.assert_suitability(config)}}
 /// Suitability helper function to check that a map is documented.
-pub(crate) fn map_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.maps               .contains_key(name), "Undocumented Map: {name}")}}
+pub(crate) fn map_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.maps               .contains_key(name), "Undocumented Map: {name}")} else {name.assert_suitability(config)}}
 /// Suitability helper function to check that a named partitioning is documented.
-pub(crate) fn named_partitioning_is_documented(name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.named_partitionings.contains_key(name), "Undocumented NamedPartitioning: {name}")}}
+pub(crate) fn named_partitioning_is_documented(name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.named_partitionings.contains_key(name), "Undocumented NamedPartitioning: {name}")} else {name.assert_suitability(config)}}
 
 impl<K: Suitability, V: Suitability> Suitability for HashMap<K, V> {
     fn assert_suitability(&self, config: &Config) {
-- 
2.43.0


From 3aa1e3777c06cc52e9d23378d9e60d6a29ad8afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:28 +0000
Subject: [PATCH 20/25] fix: suitability test asks for documented lists

---
 src/types/string_matcher.rs | 1 +
 src/util/suitability.rs     | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/types/string_matcher.rs b/src/types/string_matcher.rs
index b0293a0..6c0e478 100644
--- a/src/types/string_matcher.rs
+++ b/src/types/string_matcher.rs
@@ -46,6 +46,7 @@ pub enum StringMatcher {
     },
     ContainsAnyInList {
         r#where: StringLocation,
+        #[suitable(assert = "list_is_documented")]
         list: StringSource
     },
     Is(StringSource),
diff --git a/src/util/suitability.rs b/src/util/suitability.rs
index c833f82..b332e05 100644
--- a/src/util/suitability.rs
+++ b/src/util/suitability.rs
@@ -32,6 +32,8 @@ always_suitable!(char, str, String, u8, u16, u32, u64, u128, usize, i8, i16, i32
 
 /// Suitability helper function to check that a set is documented.
 pub(crate) fn set_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.sets               .contains_key(name), "Undocumented Set: {name}")} else {name.assert_suitability(config)}}
+/// Suitability helper function to check that a list is documented.
+pub(crate) fn list_is_documented              (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.lists              .contains_key(name), "Undocumented List: {name}")} else {name.assert_suitability(config)}}
 /// Suitability helper function to check that a map is documented.
 pub(crate) fn map_is_documented               (name: &StringSource, config: &Config) {if let StringSource::String(name) = name {assert!(config.docs.maps               .contains_key(name), "Undocumented Map: {name}")} else {name.assert_suitability(config)}}
 /// Suitability helper function to check that a named partitioning is documented.
-- 
2.43.0


From e10374269ab45f2d09b063ad16c562bac93a3cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:17 +0000
Subject: [PATCH 21/25] fix: no-network did not keep shareasale and tinyurl
 links from being expanded by requests

---
 default-config.json | 85 +++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/default-config.json b/default-config.json
index 560e03e..6e827be 100755
--- a/default-config.json
+++ b/default-config.json
@@ -636,30 +636,36 @@
 															]}
 														}}
 													}},
-													{"All": [
-														{"SetHost": "shareasale-analytics.com"},
-														{"AllowQueryParams": ["b", "u", "m"]},
-														{"Common": "universal"},
-														{"SetPart": {
-															"part": "Whole",
-															"value": {"Modified": {
-																"value": {"Cache": {
-																	"category": "sharesale-escaped-redirect",
-																	"key": {"Part": "Whole"},
-																	"value": {"ExtractBetween": {
-																		"value": {"HttpRequest": {}},
-																		"start": "replace(",
-																		"end": ")"
-																	}}
-																}},
-																"modification": "GetJsStringLiteralPrefix"
+													{"If": {
+														"condition": {"Not": {"FlagIsSet": "no-network"}},
+														"mapper": {"All": [
+															{"SetHost": "shareasale-analytics.com"},
+															{"AllowQueryParams": ["b", "u", "m"]},
+															{"Common": "universal"},
+															{"SetPart": {
+																"part": "Whole",
+																"value": {"Modified": {
+																	"value": {"Cache": {
+																		"category": "sharesale-escaped-redirect",
+																		"key": {"Part": "Whole"},
+																		"value": {"ExtractBetween": {
+																			"value": {"HttpRequest": {}},
+																			"start": "replace(",
+																			"end": ")"
+																		}}
+																	}},
+																	"modification": "GetJsStringLiteralPrefix"
+																}}
 															}}
-														}}
-													]}
+														]}
+													}}
 												]}
 											}},
 											"shareasale.com": {"If": {
-												"condition": {"PathIs": "/r.cfm"},
+												"condition": {"All": [
+													{"PathIs": "/r.cfm"},
+													{"Not": {"FlagIsSet": "no-network"}}
+												]},
 												"mapper": {"All": [
 													{"SetHost": "shareasale-analytics.com"},
 													{"AllowQueryParams": ["b", "u", "m"]},
@@ -770,25 +776,28 @@
 											}},
 											"t.umblr.com": {"GetUrlFromQueryParam": "z"},
 											"tee.pub": {"SetHost": "www.teepublic.com"},
-											"tinyurl.com": {"All": [
-												{"PartMap": {
-													"part": {"PathSegment": 0},
-													"map": {
-														"preview": "None",
-														"app": {"SetPart": {"part": {"PathSegment": 0}, "value": "preview"}}
-													},
-													"else": {"SetPart": {"part": {"BeforePathSegment": 0}, "value": "preview"}}
-												}},
-												{"Common": {
-													"name": "extract-from-page-no-if",
-													"args": {
-														"vars": {
-															"start": "let url = \"",
-															"end": "\""
+											"tinyurl.com": {"If": {
+												"condition": {"Not": {"FlagIsSet": "no-network"}},
+												"mapper": {"All": [
+													{"PartMap": {
+														"part": {"PathSegment": 0},
+														"map": {
+															"preview": "None",
+															"app": {"SetPart": {"part": {"PathSegment": 0}, "value": "preview"}}
+														},
+														"else": {"SetPart": {"part": {"BeforePathSegment": 0}, "value": "preview"}}
+													}},
+													{"Common": {
+														"name": "extract-from-page-no-if",
+														"args": {
+															"vars": {
+																"start": "let url = \"",
+																"end": "\""
+															}
 														}
-													}
-												}}
-											]},
+													}}
+												]}
+											}},
 											"toyhou.se": {"If": {
 												"condition": {"PathIs": "/~r"},
 												"mapper": {"GetUrlFromQueryParam": "q"}
-- 
2.43.0


From cf80be53e9a74475f0d46a8ac82129beaddbac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:17 +0000
Subject: [PATCH 22/25] fix: lnk.to links were requested with their tracking
 parameters

---
 default-config.json | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/default-config.json b/default-config.json
index 6e827be..8a2e3ed 100755
--- a/default-config.json
+++ b/default-config.json
@@ -845,25 +845,28 @@
 											}},
 											"lnk.to": {"If": {
 												"condition": {"Not": {"FlagIsSet": "no-network"}},
-												"mapper": {"CacheUrl": {
-													"category": "redirect",
-													"mapper": {"All": [
-														{"SetPart": {
-															"part": "Whole",
-															"value": {"Modified": {
-																"value": {"HttpRequest": {}},
-																"modification": {"TryElse": {
-																	"try": {"All": [
-																		{"ExtractBetween": {"start": "destination = ", "end": ";\n"}},
-																		{"JsonPointer": "/url"}
-																	]},
-																	"else": {"Set": {"Part": "Whole"}}
+												"mapper": {"All": [
+													{"Common": "universal"},
+													{"CacheUrl": {
+														"category": "redirect",
+														"mapper": {"All": [
+															{"SetPart": {
+																"part": "Whole",
+																"value": {"Modified": {
+																	"value": {"HttpRequest": {}},
+																	"modification": {"TryElse": {
+																		"try": {"All": [
+																			{"ExtractBetween": {"start": "destination = ", "end": ";\n"}},
+																			{"JsonPointer": "/url"}
+																		]},
+																		"else": {"Set": {"Part": "Whole"}}
+																	}}
 																}}
-															}}
-														}},
-														{"RemoveQueryParams": ["lf"]}
-													]}
-												}}
+															}},
+															{"RemoveQueryParams": ["lf"]}
+														]}
+													}}
+												]}
 											}},
 											"onelink.me": "RemoveQuery",
 											"pulse.ly": {"All": [
-- 
2.43.0


From 871acb8286edc38aefdc4b71d2df6df1d5331cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:17 +0000
Subject: [PATCH 23/25] fix: the variable bluesky-embed-host had no effect

---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 8a2e3ed..5f51b33 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1505,7 +1505,7 @@
 								}},
 								{
 									"condition": {"FlagIsSet": "embed-compatibility"},
-									"mapper": {"SetPart": {"part": "RegDomain", "value": "fxbsky.app"}}
+									"mapper": {"SetPart": {"part": "RegDomain", "value": {"Var": "bluesky-embed-host"}}}
 								}
 							]},
 							"danbooru.donmai.us": {"If": {
-- 
2.43.0


From e69c38fa79d0d36e7885a9c07b19323a89fabffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:18 +0000
Subject: [PATCH 24/25] fix: rules for mfy.gg and qudsnen.co were never reached

---
 default-config.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/default-config.json b/default-config.json
index 5f51b33..271971d 100755
--- a/default-config.json
+++ b/default-config.json
@@ -394,8 +394,8 @@
 									"bugzil.la", "buymeacoff.ee", "buymeacoffee.com", "cach.me", "carleton.ca", "cash.app", "click.notification.elsevier.com",
 									"deviantart.com", "duckduckgo.com", "duckduckgo.com", "duckduckgogg42xjoc72x3sjasowoarfbgcmvfimaftt6twagswzczad.onion",
 									"e.emailalerts.cnn.com", "facebook.com", "goodreads.com", "google.com", "gprivate.com", "href.li", "instagr.am", "instagram.com",
-									"l.instagram.com", "l.threads.com", "lmddgtfy.net", "lmgtfy2.com", "lnk.bio", "m.vk.com", "old.reddit.com", "open.substack.com",
-									"out.reddit.com", "pawoo.net", "pixiv.net", "preview.tinyurl.com", "proxy.notsobot.com", "rd.goodreads.com", "reddit.com", "reurl.cc",
+									"l.instagram.com", "l.threads.com", "lmddgtfy.net", "lmgtfy2.com", "lnk.bio", "m.vk.com", "mfy.gg", "old.reddit.com", "open.substack.com",
+									"out.reddit.com", "pawoo.net", "pixiv.net", "preview.tinyurl.com", "proxy.notsobot.com", "qudsnen.co", "rd.goodreads.com", "reddit.com", "reurl.cc",
 									"shareasale-analytics.com", "shareasale.com", "sketchfab.com", "sketchfab.com", "skfb.ly", "smarturl.it", "ss3.shipstation.com",
 									"steamcommunity.com", "subscribestar.adult", "substack.com", "t.umblr.com", "tee.pub", "teepublic.com", "tinyurl.com", "toyhou.se",
 									"twpf.jp", "urldefense.com", "vk.com", "youtube.com"
-- 
2.43.0


From a1fb3c7119a0a3542b8538d582779762075d4f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:18 +0000
Subject: [PATCH 25/25] fix: rule for addons.mozilla.org was in a map of
 registered domains

---
 default-config.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/default-config.json b/default-config.json
index 271971d..3a686cd 100755
--- a/default-config.json
+++ b/default-config.json
@@ -1180,7 +1180,6 @@
 						"part": "RegDomain",
 						"map": {
 							"acer.com": {"RemoveQueryParamsMatching": {"Contains": {"where": "Start", "value": "internal_"}}},
-							"addons.mozilla.org": {"RemoveQueryParams": ["platform", "appver"]},
 							"alibaba.com": {"RemoveQueryParams": ["spm", "selectedCarrierCode", "fsb", "tracelog", "wx_navbar_tramsparent"]},
 							"amtrak.com": {"RemoveQueryParams": ["atv", "cmp"]},
 							"atom.bio": {"RemoveQueryParams": ["menu_origin"]},
@@ -1476,6 +1475,7 @@
 					"PartMap": {
 						"part": "HostWithoutWWWDotPrefixAndFqdnPeriod",
 						"map": {
+							"addons.mozilla.org": {"RemoveQueryParams": ["platform", "appver"]},
 							"aliexpress.com": {"If": {
 								"condition": {"PartIs": {"part": {"PathSegment": 0}, "value": "item"}},
 								"mapper": "RemoveQuery"
-- 
2.43.0


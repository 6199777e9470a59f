From b3268ed7c62a6d77c5ce5744303019a8fc430b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 01/43] fix: refuse short or non-ASCII text in exfil instead of
 panicking

---
 src/core/counter/mod.rs |  7 +++----
 src/core/indexer/mod.rs |  8 ++++----
 src/core/matter/mod.rs  |  6 +++---
 src/core/util.rs        | 10 ++++++++++
 4 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 34edbfb..ad61e7a 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -217,8 +217,7 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        let first = util::slice(qb64, 0, 2)?;
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -229,7 +228,7 @@ impl Counter {
         }
 
         // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +239,7 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = util::slice(qb64, szg.hs as usize, cs as usize)?;
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 8510ae6..bbc3608 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -393,7 +393,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -407,8 +407,8 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let index = util::b64_to_u32(util::slice(qb64, hs, hs + ms as usize)?)?;
+        let odx = util::slice(qb64, hs + ms as usize, hs + (ms + szg.os) as usize)?;
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -457,7 +457,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = util::slice(qb64, 0, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 09022ad..b2b40ea 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -334,7 +334,7 @@ pub trait Matter: Default {
         }
 
         // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -353,7 +353,7 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = util::slice(qb64, szg.hs as usize, cs as usize)?;
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -367,7 +367,7 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = util::slice(qb64, 0, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/core/util.rs b/src/core/util.rs
index 0ac0b2e..771bb70 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -2,6 +2,16 @@ use crate::error::{err, Error, Result};
 
 pub const REB64_STRING: &str = "^[A-Za-z0-9\\-_]*$";
 
+/// characters from start (inclusive) to end (exclusive), which must lie on character boundaries
+pub(crate) fn slice(s: &str, start: usize, end: usize) -> Result<&str> {
+    match s.get(start..end) {
+        Some(part) => Ok(part),
+        None => err!(Error::Conversion(format!(
+            "expected base64 characters: start = {start}, end = {end}"
+        ))),
+    }
+}
+
 pub fn b64_char_to_index(c: char) -> Result<u8> {
     Ok(match c {
         'A' => 0,
-- 
2.43.0


From 953fa4ceebe3df7002ea84075d3aefa10dbff37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 02/43] fix: refuse Base64 padding characters inside primitives

---
 src/core/indexer/mod.rs | 4 ++--
 src/core/matter/mod.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index bbc3608..7d5a348 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -466,7 +466,7 @@ pub trait Indexer: Default {
             buf.push_str(&qb64[(cs as usize)..]);
 
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(buf, &mut paw)?;
 
             let mut pi: i32 = 0;
             for b in &paw[..ps as usize] {
@@ -481,7 +481,7 @@ pub trait Indexer: Default {
         } else {
             let buf = &qb64[cs as usize..];
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(buf, &mut paw)?;
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index b2b40ea..1bdce78 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -376,7 +376,7 @@ pub trait Matter: Default {
 
             // decode base to leave pre-padded raw
             let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(&buf, &mut paw)?;
             buf.zeroize();
 
             let mut pi: i32 = 0;
@@ -394,7 +394,7 @@ pub trait Matter: Default {
             raw
         } else {
             let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(&trim[cs as usize..], &mut paw)?;
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
-- 
2.43.0


From 9868186c8543a5feaa1e8b9ba175419bc1b56692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 03/43] fix: refuse variable-length primitives too short for
 their lead bytes

---
 src/core/matter/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 1bdce78..72de512 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -396,6 +396,14 @@ pub trait Matter: Default {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE_NO_PAD.decode_vec(&trim[cs as usize..], &mut paw)?;
 
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead bytes: size = {}, ls = {}",
+                    paw.len(),
+                    szg.ls
+                )));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
-- 
2.43.0


From fd7147fdfcb261afbb9b80393cc6c31ab9e039b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 04/43] fix: refuse a mismatched ondex for indexer codes
 without ondex field

---
 src/core/indexer/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 7d5a348..eeeee5f 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -97,11 +97,9 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
+        if BothSigCodex::has_code(code) && ondex.is_none() {
+            // when not provided make ondex match index
+            ondex = Some(index);
         } else if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
-- 
2.43.0


From 9ab17d7b17de39bae0e41d034cfb9eb4531b2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 05/43] fix: check index and ondex against their own field
 sizes in Indexer::qb2

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index eeeee5f..8ce7ee8 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -290,13 +290,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From 5af8215ecd05265a32e23db8f2dcb0d4168c579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 06/43] fix: account for lead bytes in indexer raw material

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 8ce7ee8..fea70f6 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -128,7 +128,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -494,7 +494,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From c2ab1a6d22585a3ac56c3258617f97758e0a7570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 07/43] fix: report unpaddable raw material as an error instead
 of underflowing

---
 src/core/indexer/mod.rs | 4 ++--
 src/core/matter/mod.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index fea70f6..f3f580f 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -253,7 +253,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if (cs % 4) != (ps as u32 - szg.ls) {
+        if (cs % 4) + szg.ls != ps as u32 {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code={both} for converted raw pad size={ps}."
             )));
@@ -339,7 +339,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if (cs % 4) != (ps as u32 - szg.ls) {
+        if (cs % 4) + szg.ls != ps as u32 {
             return err!(Error::InvalidCodeSize(format!(
                 "Invalid code = '{both}' for converted raw pad size = '{ps}'.",
             )));
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 72de512..cb5fa5b 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -229,7 +229,7 @@ pub trait Matter: Default {
             let both = code;
             let cs = both.len();
 
-            if (cs % 4) as u32 != ps as u32 - szg.ls {
+            if (cs % 4) as u32 + szg.ls != ps as u32 {
                 return err!(Error::InvalidCodeSize(format!(
                     "invalid code for converted raw pad size: code = '{both}', pad size = {ps}",
                 )));
-- 
2.43.0


From 71ab37bf29cca29694c06bbdd30ef9d4562cbf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 08/43] fix: refuse incomplete variable-length codes instead of
 panicking

---
 src/core/matter/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index cb5fa5b..788c313 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -64,12 +64,13 @@ pub trait Matter: Default {
                     if size < 64_u32.pow(2) {
                         let hs = 2;
                         let s = tables::SMALL_VRZ_DEX[ls as usize];
-                        code = format!("{s}{}", &code[1..hs as usize]);
+                        code = format!("{s}{}", util::slice(&code, 1, hs as usize)?);
                     } else if size < 64_u32.pow(4) {
                         let hs = 4;
                         let s = tables::LARGE_VRZ_DEX[ls as usize];
+                        let c = util::slice(&code, 1, 2)?;
 
-                        code = format!("{s}{}{}", &"AAAA"[0..hs as usize - 2], &code[1..2]);
+                        code = format!("{s}{}{c}", &"AAAA"[0..hs as usize - 2]);
                     } else {
                         return err!(Error::InvalidVarRawSize(format!(
                             "unsupported raw size: code = '{code}'",
@@ -79,7 +80,7 @@ pub trait Matter: Default {
                     if size < 64_u32.pow(4) {
                         let hs = 4;
                         let s = tables::LARGE_VRZ_DEX[ls as usize];
-                        code = format!("{s}{}", &code[1..hs as usize]);
+                        code = format!("{s}{}", util::slice(&code, 1, hs as usize)?);
                     } else {
                         return err!(Error::InvalidVarRawSize(format!(
                             "unsupported raw size: code = '{code}'",
-- 
2.43.0


From 83666e8b874e1d4ea64103a66bea75af818a8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 09/43] fix: refuse variable-length binary primitives too short
 for their lead bytes

---
 src/core/matter/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 788c313..a822ac0 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -480,6 +480,12 @@ pub trait Matter: Default {
         }
 
         let mut trim = qb2[..bfs as usize].to_vec();
+        if trim.len() < (bcs + szg.ls) as usize {
+            return err!(Error::Shortage(format!(
+                "insufficient material for lead bytes: size = {bfs}, bcs = {bcs}, ls = {}",
+                szg.ls
+            )));
+        }
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
         if ps != 0 {
-- 
2.43.0


From 4212ee0941d2d710532275f63e4d92a922d98fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 10/43] fix: give variable-length indexed signatures the other
 index they parse back with

---
 src/core/indexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index f3f580f..57cc68e 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -97,7 +97,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) && ondex.is_none() {
+        if (BothSigCodex::has_code(code) || szg.fs == u32::MAX) && ondex.is_none() {
             // when not provided make ondex match index
             ondex = Some(index);
         } else if let Some(o) = ondex {
-- 
2.43.0


From a781ff76a52a550b772370160a8844120fdf4535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 11/43] fix: refuse numbers parsed with a code of another
 family

---
 src/core/number.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/number.rs b/src/core/number.rs
index 497efcc..6228370 100644
--- a/src/core/number.rs
+++ b/src/core/number.rs
@@ -90,6 +90,7 @@ impl Number {
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
 
+        validate_code(&number.code())?;
         Ok(number)
     }
 
-- 
2.43.0


From e3e9c6787add71dbc98af6ee12b35c72eb7f2e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 12/43] fix: refuse salts parsed with a code of another family

---
 src/core/salter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/salter.rs b/src/core/salter.rs
index 5ccd084..65a8b6e 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -54,6 +54,7 @@ impl Salter {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
 
+        validate_code(&salter.code())?;
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
     }
-- 
2.43.0


From 7c3becc7f8cf1427d31811d74bcc843201ecf5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 13/43] fix: refuse prefixes parsed with a code of another
 family

---
 src/core/prefixer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 228cef4..1ffeec2 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -266,7 +266,9 @@ impl Prefixer {
             || qb2.is_some()
         {
             validate_code(code.unwrap_or(matter::Codex::Ed25519N))?;
-            Matter::new(code, raw, qb64b, qb64, qb2)?
+            let prefixer: Self = Matter::new(code, raw, qb64b, qb64, qb2)?;
+            validate_code(&prefixer.code())?;
+            prefixer
         } else {
             let ked = if let Some(ked) = ked {
                 if code.is_none() && !ked.to_map()?.contains_key(Ids::i) {
-- 
2.43.0


From 0b29e7c7bb6c88e8744c8d41ab5675a1982e0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 14/43] fix: count each index once against a numeric threshold

---
 src/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 822fc29..5229539 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -206,6 +206,10 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
-- 
2.43.0


From 2149a6b00da272a40d0e5adf04eaf31bfa3aae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 15/43] fix: ignore indices beyond a weighted threshold instead
 of panicking

---
 src/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 5229539..0dba2bc 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -228,7 +228,10 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            // indices beyond the threshold carry no weight
+            if let Some(sat) = sats.get_mut(index as usize) {
+                *sat = true;
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From cfe6e8c9073351164275c3c5a0a21c2247a2a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 16/43] fix: refuse a truncated or non-ASCII threshold limen
 instead of panicking

---
 src/core/tholder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 0dba2bc..6083547 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -3,6 +3,7 @@ use crate::{
         bexter::{tables as bexter, Bext, Bexter},
         matter::{tables as matter, Matter},
         number::{tables as number, Number},
+        util,
     },
     data::{dat, Array, Value},
     error::{err, Error, Result},
@@ -273,7 +274,7 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = util::slice(&limen, 0, hs)?;
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From 16a378936114824a786dc9c9a01342f71fce7e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 17/43] fix: refuse weights with more than one separator

---
 src/core/tholder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 6083547..33bf189 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -38,7 +38,7 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
         for weight in _clause {
             let weight = weight.to_string()?;
             let parts: Vec<&str> = weight.split(separator).collect();
-            if parts.len() != 2 {
+            if parts.len() == 1 {
                 // must be 0 or 1
                 if parts[0] == "0" {
                     clause.push(Rational32::new(0, 1));
@@ -47,7 +47,7 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
                 }
-            } else {
+            } else if parts.len() == 2 {
                 let numer = parts[0].parse::<i32>()?;
                 let denom = parts[1].parse::<i32>()?;
                 if numer < 0 || denom < 0 {
@@ -57,6 +57,8 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
                 clause.push(Rational32::new(numer, denom));
+            } else {
+                return err!(Error::Value(format!("malformed weight {weight}")));
             }
         }
         clauses.push(clause);
-- 
2.43.0


From 981b73c6bc5d88c4201148233615c103dcc39a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 18/43] fix: refuse weights with a zero denominator instead of
 panicking

---
 src/core/tholder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 33bf189..6804ba1 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -53,6 +53,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value(format!("weight {weight} has a zero denominator")));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
-- 
2.43.0


From 9ae8fbff460deaecffac70cc5da71ae0e110ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 19/43] fix: refuse weighted thresholds without clauses

---
 src/core/tholder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 6804ba1..ac05cc6 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -67,6 +67,10 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
         clauses.push(clause);
     }
 
+    if clauses.is_empty() {
+        return err!(Error::Value("empty weight list".to_string()));
+    }
+
     for clause in &*clauses {
         let mut sum = Rational32::new(0, 1);
 
-- 
2.43.0


From 9025194a1113fc6e035b568f8909eb38b7316d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 20/43] fix: add up threshold weights exactly instead of
 overflowing 32 bits

---
 src/core/tholder.rs | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index ac05cc6..75dc4be 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -9,7 +9,6 @@ use crate::{
     error::{err, Error, Result},
 };
 
-use lazy_static::lazy_static;
 use num_rational::Rational32;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -27,6 +26,30 @@ impl Default for Tholder {
     }
 }
 
+/// whether the weights add up to at least one, computed exactly
+fn reaches_one<'a>(weights: impl IntoIterator<Item = &'a Rational32>) -> Result<bool> {
+    // numerator and denominator of the sum, the latter being the least common denominator
+    let mut sum: (i128, i128) = (0, 1);
+
+    for weight in weights {
+        let (numer, denom) = (*weight.numer() as i128, *weight.denom() as i128);
+        let (mut gcd, mut rem) = (sum.1, denom);
+        while rem != 0 {
+            (gcd, rem) = (rem, gcd % rem);
+        }
+
+        let numer = numer.checked_mul(sum.1 / gcd);
+        let scaled = sum.0.checked_mul(denom / gcd);
+        let total = scaled.and_then(|scaled| numer.and_then(|numer| scaled.checked_add(numer)));
+        sum = match (total, sum.1.checked_mul(denom / gcd)) {
+            (Some(total), Some(lcd)) => (total, lcd),
+            _ => return err!(Error::Value("weights have no common denominator".to_string())),
+        };
+    }
+
+    Ok(sum.0 >= sum.1)
+}
+
 fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
@@ -72,13 +95,7 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
-
-        for weight in clause {
-            sum += weight;
-        }
-
-        if sum < Rational32::new(1, 1) {
+        if !reaches_one(clause)? {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -228,10 +245,6 @@ impl Tholder {
     }
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
-        lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
-        }
-
         let mut indices = indices.to_vec();
         indices.sort();
         indices.dedup();
@@ -248,14 +261,14 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
+            let mut cw: Vec<Rational32> = vec![];
             for weight in clause {
                 if sats[wio] {
-                    cw += weight;
+                    cw.push(weight);
                 }
                 wio += 1;
             }
-            if cw < *RATIONAL_ONE {
+            if !reaches_one(&cw)? {
                 return Ok(false);
             }
         }
-- 
2.43.0


From 016288fdf36b06174933b39e1645d34681133e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 21/43] fix: convert JSON numbers beyond 64-bit integers
 without panicking

---
 src/data.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..dec9588 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -284,10 +284,11 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    // serde_json represents every other number as finite u64 or f64
+                    Self::Number(Number::from(n.as_f64().unwrap_or_default()))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
-- 
2.43.0


From 9255599b22157ea4fdf3843156ca507962b94357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 22/43] fix: strip exactly the root from a path instead of
 panicking or removing other parts

---
 src/core/pather.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 0cd679d..50e57e4 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -134,22 +134,13 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
-            return Ok(self.clone());
-        }
-
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
+        match path.strip_prefix(root_path.as_slice()) {
+            Some(remainder) => Pather::new_with_path(&dat!(remainder)),
+            None => Ok(self.clone()),
         }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-- 
2.43.0


From 7b5e3280e4592c48d99dce43d42b33f669a2b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 23/43] fix: follow the parts of a path behind an empty one

---
 src/core/pather.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 50e57e4..3f428dc 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -114,13 +114,12 @@ impl Pather {
             return err!(Error::Value("invalid sad pointer".to_string()));
         }
 
-        let result: Vec<Value> = bext[1..].split('-').map(|p| dat!(p)).collect();
-
-        if result[0].to_string()?.is_empty() {
-            Ok(dat!([]))
-        } else {
-            Ok(dat!(result.as_slice()))
+        if bext == "-" {
+            return Ok(dat!([]));
         }
+
+        let result: Vec<Value> = bext[1..].split('-').map(|p| dat!(p)).collect();
+        Ok(dat!(result.as_slice()))
     }
 
     pub fn root(&self, root: &Self) -> Result<Self> {
@@ -205,7 +204,7 @@ impl Pather {
                 }
                 val[i].clone()
             } else if idx.is_empty() {
-                return Ok(dat!(&val));
+                dat!(&val)
             } else {
                 if !val.contains_key(&idx) {
                     return err!(Error::Value(format!("invalid index {idx} for map")));
-- 
2.43.0


From 3d9a608bd6b28869dc479b18c58d63e2d5c9ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 24/43] fix: refuse path parts that contain the separator

---
 src/core/pather.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 3f428dc..ae2af4d 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -180,6 +180,11 @@ impl Pather {
                 return err!(Error::Value("invalid base64".to_string()));
             }
 
+            // would come back as two parts
+            if p.contains('-') {
+                return err!(Error::Value(format!("separator in path part {p}")));
+            }
+
             vath.push(p);
         }
 
-- 
2.43.0


From d9181c58223f1074f4e1d6337da4bb5753095614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 25/43] fix: refuse versions and sizes that do not fit a
 version string

---
 src/core/common.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index 5a688bf..6e0edf8 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -213,6 +213,13 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
+    if version.major > 0xf || version.minor > 0xf || size > 0xffffff {
+        return err!(Error::Value(format!(
+            "version {}.{} or size {size} does not fit a version string",
+            version.major, version.minor
+        )));
+    }
+
     Ok(format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
-- 
2.43.0


From a32191d733efc0af534cb954e2acf76e7d2b49c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 26/43] fix: refuse to size a message whose first version
 string is not its own

---
 src/core/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index 6e0edf8..fabfdf3 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -191,6 +191,12 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
     let mut ked = ked.clone();
     ked["v"] = dat!(&vs);
 
+    if raw != dumps(&ked, Some(&kind))? {
+        return err!(Error::Value(format!(
+            "version string is not the first one in raw = {raw:?}"
+        )));
+    }
+
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
 }
 
-- 
2.43.0


From e8e04cd5828bc56671d4245ca33a8afbe923da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 27/43] fix: sniff messages with arbitrary bytes behind them

---
 src/core/common.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index fabfdf3..c9f89e2 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -276,7 +276,12 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
+    // what follows the message, or a character cut in two, has no say
+    let head = &raw[..MINIMUM_SNIFF_SIZE];
+    let raw = match std::str::from_utf8(head) {
+        Ok(text) => text,
+        Err(e) => std::str::from_utf8(&head[..e.valid_up_to()])?,
+    };
     let start = match REVER.shortest_match(raw) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
-- 
2.43.0


From 3d50a7ee77a1445e7acf931c94d55cfe4583ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 28/43] fix: refuse foreign protocols when sniffing

---
 src/core/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index c9f89e2..9875111 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -302,6 +302,10 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     let size = u32::from_str_radix(&REVER.replace_all(vs, "$size"), 16)?;
     let version = Version { major, minor };
 
+    if !IDENTS.contains(&ident.as_str()) {
+        return err!(Error::Validation(format!("invalid ident {ident}")));
+    }
+
     if !SERIALS.contains(&kind.as_str()) {
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
-- 
2.43.0


From 37b4daa90c6918abc93aab8501174462e621e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 29/43] fix: refuse truncated messages instead of panicking

---
 src/core/common.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 9875111..69f0e41 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -237,10 +237,19 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     let kind = kind.unwrap_or(Serialage::JSON);
 
     if let Some(size) = size {
+        let raw = match raw.get(..(size as usize)) {
+            Some(raw) => raw,
+            None => {
+                return err!(Error::Shortage(format!(
+                    "need {size} bytes, have {bytes}",
+                    bytes = raw.len()
+                )))
+            }
+        };
+
         match kind {
             Serialage::JSON => {
-                let v: serde_json::Value =
-                    serde_json::from_str(&String::from_utf8(raw[..(size as usize)].to_vec())?)?;
+                let v: serde_json::Value = serde_json::from_str(&String::from_utf8(raw.to_vec())?)?;
                 Ok(Value::from(&v))
             }
             _ => err!(Error::Validation(format!("invalid serialization kind {kind}"))),
-- 
2.43.0


From f54ba51cae77b17335f2673315b3bdba2b0e70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 30/43] fix: refuse to size a message whose first version
 string is not its own (format)

---
 src/core/common.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 69f0e41..2fa68d4 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -192,9 +192,7 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
     ked["v"] = dat!(&vs);
 
     if raw != dumps(&ked, Some(&kind))? {
-        return err!(Error::Value(format!(
-            "version string is not the first one in raw = {raw:?}"
-        )));
+        return err!(Error::Value(format!("version string is not the first one in raw = {raw:?}")));
     }
 
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
-- 
2.43.0


From 7c17b98d90d4fab501214bf2676ff36cbeacfb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 31/43] fix: refuse messages without an identifier instead of
 panicking

---
 src/core/common.rs | 12 ++++++++++++
 src/core/sadder.rs |  8 ++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 2fa68d4..4a51d01 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -263,6 +263,18 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     }
 }
 
+pub(crate) fn field<'a>(ked: &'a Value, label: &str) -> Result<&'a Value> {
+    let value = match ked {
+        Value::Object(map) => map.get(label),
+        _ => None,
+    };
+
+    match value {
+        Some(value) => Ok(value),
+        None => err!(Error::Value(format!("missing field {label}"))),
+    }
+}
+
 pub(crate) fn dumps(ked: &Value, kind: Option<&str>) -> Result<Vec<u8>> {
     let kind = kind.unwrap_or(Serialage::JSON);
     match kind {
diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 5ad2cc4..13c7b37 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -1,5 +1,5 @@
 use crate::core::{
-    common::{loads, sizeify, sniff, Ids, Version, CURRENT_VERSION},
+    common::{field, loads, sizeify, sniff, Ids, Version, CURRENT_VERSION},
     matter::{tables as matter, Matter},
     saider::Saider,
 };
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&field(&result.ked, Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&field(&result.ked, Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&field(&result.ked, Ids::d)?.to_string()?),
             None,
         )?);
 
-- 
2.43.0


From 12030c8f0630e6a0708b48e8e35229043cb34874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 32/43] fix: report missing message fields as errors instead of
 panicking

---
 src/core/creder.rs |  8 ++++----
 src/core/serder.rs | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/core/creder.rs b/src/core/creder.rs
index 33b7962..4fd3d57 100644
--- a/src/core/creder.rs
+++ b/src/core/creder.rs
@@ -1,5 +1,5 @@
 use crate::{
-    common::{Identage, Ids, Serialage, Version, CURRENT_VERSION},
+    common::{field, Identage, Ids, Serialage, Version, CURRENT_VERSION},
     core::matter::tables as matter,
     core::sadder::Sadder,
     core::saider::Saider,
@@ -55,15 +55,15 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        field(&self.ked, Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        field(&self.ked, Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
-        self.ked()[Ids::a].clone()
+        field(&self.ked, Ids::a).cloned().unwrap_or(Value::Null)
     }
 
     pub fn status(&self) -> Result<Option<String>> {
diff --git a/src/core/serder.rs b/src/core/serder.rs
index 8286e72..4243662 100644
--- a/src/core/serder.rs
+++ b/src/core/serder.rs
@@ -1,6 +1,6 @@
 use crate::{
     core::{
-        common::{Identage, Ids, Ilkage, Serialage, Version, CURRENT_VERSION},
+        common::{field, Identage, Ids, Ilkage, Serialage, Version, CURRENT_VERSION},
         diger::Diger,
         matter::tables as matter,
         number::Number,
@@ -133,7 +133,15 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(
+            None,
+            Some(&field(&self.ked, label)?.to_string()?),
+            None,
+            None,
+            None,
+            None,
+            None,
+        )
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +181,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        field(&self.ked, label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +192,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = field(&self.ked, label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
-- 
2.43.0


From 130ea73ec70b345a84c1d71ff760022a76e9b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 33/43] fix: cut pretty output at a character boundary instead
 of panicking

---
 src/core/sadder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 13c7b37..cb05da9 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -201,7 +201,9 @@ pub trait Sadder: Default + Clone {
             Ok(s) => {
                 let size = size.unwrap_or(1024);
                 if s.len() > size {
-                    Ok(s[..size].to_string())
+                    // a character that does not fit completely is left out
+                    let end = (0..=size).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
+                    Ok(s[..end].to_string())
                 } else {
                     Ok(s)
                 }
-- 
2.43.0


From 25073a4a22041ae66fb531f97de6074395d534a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 34/43] fix: report values without an identifier field as
 errors instead of panicking

---
 src/core/saider.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/saider.rs b/src/core/saider.rs
index 1818b21..84c8dda 100644
--- a/src/core/saider.rs
+++ b/src/core/saider.rs
@@ -1,4 +1,4 @@
-use crate::core::common::{deversify, dumps, sizeify, Ids, Serialage, DUMMY};
+use crate::core::common::{deversify, dumps, field, sizeify, Ids, Serialage, DUMMY};
 use crate::core::matter::{tables as matter, Matter};
 use crate::crypto::hash;
 use crate::data::{dat, Value};
@@ -61,7 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
-    let mut sad = sad.clone();
+    let mut sad = dat!(&sad.to_map()?);
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
 
@@ -233,7 +233,7 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
+        if prefixed && field(sad, label)?.to_string()? != self.qb64()? {
             return Ok(false);
         }
 
-- 
2.43.0


From 05327ce9554940fd20e4434657c1be20347ef16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 35/43] fix: report events without type as errors when deriving
 or verifying prefixes

---
 src/core/prefixer.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 1ffeec2..e65cb03 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -1,6 +1,6 @@
 use crate::{
     core::{
-        common::{sizeify, Ids, Ilkage, DUMMY},
+        common::{field, sizeify, Ids, Ilkage, DUMMY},
         diger::Diger,
         matter::{tables as matter, Matter},
         verfer::Verfer,
@@ -55,8 +55,7 @@ fn validate_code(code: &str) -> Result<()> {
 fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
-    let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = field(ked, Ids::t)?.to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -331,8 +330,7 @@ impl Prefixer {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
         let prefixed = prefixed.unwrap_or(false);
-        let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = field(ked, Ids::t)?.to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
-- 
2.43.0


From b185181bd1724c5ef8d204b99e1272f6a88d0535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 36/43] fix: derive nontransferable prefixes from events with
 empty lists

---
 src/core/prefixer.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index e65cb03..bfd7d44 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -84,6 +84,16 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+fn is_empty(value: &Value) -> bool {
+    match value {
+        Value::Null => true,
+        Value::String(string) => string.is_empty(),
+        Value::Array(array) => array.is_empty(),
+        Value::Object(map) => map.is_empty(),
+        _ => false,
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -109,17 +119,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
-- 
2.43.0


From a4d89b0d5b1fef08cbecae1c63e0e607ceae8eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 37/43] fix: verify nontransferable prefixes only against
 events they can be derived from

---
 src/core/prefixer.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index bfd7d44..cec831c 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -202,14 +202,8 @@ fn verify_nontransferable(ked: &Value, pre: &str, prefixed: bool) -> Result<bool
         return Ok(false);
     }
 
-    let label = Ids::n;
-    if map.contains_key(label) {
-        if ked[label].to_vec().is_ok() && !ked[label].to_vec()?.is_empty() {
-            return Ok(false);
-        }
-
-        // unsure if 'n' can be a single key. if it can't we can simplify all this
-        if ked[label].to_string().is_ok() && !ked[label].to_string()?.is_empty() {
+    for label in [Ids::n, Ids::b, Ids::a] {
+        if map.contains_key(label) && !is_empty(&ked[label]) {
             return Ok(false);
         }
     }
-- 
2.43.0


From 71a6bf8afbdbf6f43179271f4690e4a97c3c583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 38/43] fix: refuse to derive prefixes from keys with trailing
 characters

---
 src/core/prefixer.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index cec831c..b785a6d 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -94,6 +94,18 @@ fn is_empty(value: &Value) -> bool {
     }
 }
 
+fn signing_key(key: &Value) -> Result<Verfer> {
+    let key = key.to_string()?;
+    let verfer = Verfer::new(None, None, None, Some(&key), None)?;
+
+    // parsing ignores what follows a primitive, but the prefix must be the whole key
+    if verfer.qb64()? != key {
+        return err!(Error::Derivation(format!("malformed public key {key}")));
+    }
+
+    Ok(verfer)
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -109,7 +121,7 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
             )));
         }
 
-        Verfer::new(None, None, None, Some(&keys[0].to_string()?), None)?
+        signing_key(&keys[0])?
     } else {
         return err!(Error::Derivation("error extracting public key".to_string()));
     };
@@ -151,7 +163,7 @@ fn derive_transferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
             )));
         }
 
-        Verfer::new(None, None, None, Some(&keys[0].to_string()?), None)?
+        signing_key(&keys[0])?
     } else {
         return err!(Error::Derivation("error extracting public key".to_string()));
     };
-- 
2.43.0


From a7ef9384a5c51062f81c8cbb4b6a1973889e14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 39/43] fix: refuse messages whose identifier has trailing
 characters

---
 src/core/sadder.rs | 48 +++++++++++++++-------------------------------
 1 file changed, 15 insertions(+), 33 deletions(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index cb05da9..0ec42de 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -56,6 +56,18 @@ fn exhale(ked: &Value, kind: Option<&str>) -> Result<ExhaleResult> {
     })
 }
 
+fn identifier(ked: &Value) -> Result<Saider> {
+    let said = field(ked, Ids::d)?.to_string()?;
+    let saider = Saider::new_with_qb64(&said)?;
+
+    // parsing ignores what follows a primitive, but the identifier must be the whole field
+    if saider.qb64()? != said {
+        return err!(Error::Validation(format!("malformed identifier {said}")));
+    }
+
+    Ok(saider)
+}
+
 pub trait Sadder: Default + Clone {
     fn code(&self) -> String;
     fn raw(&self) -> Vec<u8>;
@@ -106,17 +118,7 @@ pub trait Sadder: Default + Clone {
         self.set_kind(&result.kind);
         self.set_size(result.size);
         self.set_version(&result.version);
-        self.set_saider(&Saider::new(
-            None,
-            None,
-            None,
-            None,
-            None,
-            None,
-            None,
-            Some(&field(&result.ked, Ids::d)?.to_string()?),
-            None,
-        )?);
+        self.set_saider(&identifier(&result.ked)?);
 
         if self.code() != self.saider().code() {
             return err!(Error::Validation(
@@ -136,17 +138,7 @@ pub trait Sadder: Default + Clone {
         self.set_kind(&result.kind);
         self.set_size(result.raw.len() as u32);
         self.set_version(&result.version);
-        self.set_saider(&Saider::new(
-            None,
-            None,
-            None,
-            None,
-            None,
-            None,
-            None,
-            Some(&field(&result.ked, Ids::d)?.to_string()?),
-            None,
-        )?);
+        self.set_saider(&identifier(&result.ked)?);
 
         if self.code() != self.saider().code() {
             return err!(Error::Validation(
@@ -166,17 +158,7 @@ pub trait Sadder: Default + Clone {
         self.set_kind(&result.kind);
         self.set_size(result.raw.len() as u32);
         self.set_version(&result.version);
-        self.set_saider(&Saider::new(
-            None,
-            None,
-            None,
-            None,
-            None,
-            None,
-            None,
-            Some(&field(&result.ked, Ids::d)?.to_string()?),
-            None,
-        )?);
+        self.set_saider(&identifier(&result.ked)?);
 
         if self.code() != self.saider().code() {
             return err!(Error::Validation(
-- 
2.43.0


From f285ae93cc623f7a7ac0b7c382328a30f7aeed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 40/43] fix: keep the upper half of 128-bit integers in the
 bindings

---
 wasm/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/util.rs b/wasm/src/util.rs
index 5e76457..eecd095 100644
--- a/wasm/src/util.rs
+++ b/wasm/src/util.rs
@@ -15,7 +15,7 @@ impl From<u128> for U128Wrapper {
 
 impl From<U128Wrapper> for u128 {
     fn from(val: U128Wrapper) -> Self {
-        u128::from(val.high) | u128::from(val.low)
+        u128::from(val.high) << 64 | u128::from(val.low)
     }
 }
 
-- 
2.43.0


From 28e59490a16025d87c3e662217ad6400a6a6514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:46 +0000
Subject: [PATCH 41/43] fix: render messages as JSON in the bindings instead of
 panicking

---
 wasm/src/primitives/saider.rs | 2 +-
 wasm/src/primitives/serder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/src/primitives/saider.rs b/wasm/src/primitives/saider.rs
index be57d62..67d9abf 100644
--- a/wasm/src/primitives/saider.rs
+++ b/wasm/src/primitives/saider.rs
@@ -80,7 +80,7 @@ impl SaiderWrapper {
         .as_js()?;
         Ok(SaidifyRet {
             saider: SaiderWrapper(ret.0),
-            value: ret.1.to_string().expect("unable unwrap value"),
+            value: ret.1.to_json().expect("unable unwrap value"),
         })
     }
 
diff --git a/wasm/src/primitives/serder.rs b/wasm/src/primitives/serder.rs
index c85d597..039db97 100644
--- a/wasm/src/primitives/serder.rs
+++ b/wasm/src/primitives/serder.rs
@@ -111,7 +111,7 @@ impl SerderWrapper {
     }
 
     pub fn ked(&self) -> ValueWrapper {
-        let value = self.0.ked().to_string().expect("unable unwrap value");
+        let value = self.0.ked().to_json().expect("unable unwrap value");
         ValueWrapper(value)
     }
 
-- 
2.43.0


From f9f985e0b6405fc246c819d0dcf672a719eb7ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 42/43] fix: report malformed JSON values as errors in the
 bindings instead of panicking

---
 wasm/src/primitives/prefixer.rs |  6 +++---
 wasm/src/primitives/saider.rs   |  8 ++++----
 wasm/src/primitives/serder.rs   |  6 +++---
 wasm/src/primitives/tholder.rs  |  8 ++++----
 wasm/src/util.rs                | 16 +++++++++++-----
 5 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/wasm/src/primitives/prefixer.rs b/wasm/src/primitives/prefixer.rs
index 2dd34f5..ed9845b 100644
--- a/wasm/src/primitives/prefixer.rs
+++ b/wasm/src/primitives/prefixer.rs
@@ -25,7 +25,7 @@ impl PrefixerWrapper {
         let allows = allows.as_deref().map(|a| a.iter().map(String::as_str).collect::<Vec<&str>>());
         let allows = allows.as_deref();
         let prefixer = Prefixer::new(
-            ked.map(Value::from).as_ref(),
+            ked.map(Value::try_from).transpose()?.as_ref(),
             allows,
             code.as_deref(),
             raw.as_deref(),
@@ -47,7 +47,7 @@ impl PrefixerWrapper {
         let allows = allows.as_deref().map(|a| a.iter().map(String::as_str).collect::<Vec<&str>>());
         let allows = allows.as_deref();
         let prefixer =
-            Prefixer::new_with_ked(&Value::from(ked), allows, code.as_deref()).as_js()?;
+            Prefixer::new_with_ked(&Value::try_from(ked)?, allows, code.as_deref()).as_js()?;
         Ok(PrefixerWrapper(prefixer))
     }
 
@@ -72,7 +72,7 @@ impl PrefixerWrapper {
     }
 
     pub fn verify(&self, ked: ValueWrapper, prefixed: Option<bool>) -> Result<bool> {
-        self.0.verify(&Value::from(ked), prefixed).as_js().map_err(JsValue::from)
+        self.0.verify(&Value::try_from(ked)?, prefixed).as_js().map_err(JsValue::from)
     }
 
     pub fn code(&self) -> String {
diff --git a/wasm/src/primitives/saider.rs b/wasm/src/primitives/saider.rs
index 67d9abf..b501b9a 100644
--- a/wasm/src/primitives/saider.rs
+++ b/wasm/src/primitives/saider.rs
@@ -45,7 +45,7 @@ impl SaiderWrapper {
         let ignore = ignore.as_deref().map(|a| a.iter().map(String::as_str).collect::<Vec<&str>>());
         let ignore = ignore.as_deref();
         let saider = Saider::new(
-            sad.map(Value::from).as_ref(),
+            sad.map(Value::try_from).transpose()?.as_ref(),
             label.as_deref(),
             kind.as_deref(),
             ignore,
@@ -71,7 +71,7 @@ impl SaiderWrapper {
         let ignore = ignore.as_deref().map(|a| a.iter().map(String::as_str).collect::<Vec<&str>>());
         let ignore = ignore.as_deref();
         let ret = Saider::saidify(
-            &Value::from(sad),
+            &Value::try_from(sad)?,
             code.as_deref(),
             kind.as_deref(),
             label.as_deref(),
@@ -100,7 +100,7 @@ impl SaiderWrapper {
         let ret = self
             .0
             .verify(
-                &Value::from(sad),
+                &Value::try_from(sad)?,
                 prefixed,
                 versioned,
                 kind.as_deref(),
@@ -123,7 +123,7 @@ impl SaiderWrapper {
         let ignore = ignore.as_deref().map(|a| a.iter().map(String::as_str).collect::<Vec<&str>>());
         let ignore = ignore.as_deref();
         let saider = Saider::new_with_sad(
-            &Value::from(sad),
+            &Value::try_from(sad)?,
             label.as_deref(),
             kind.as_deref(),
             ignore,
diff --git a/wasm/src/primitives/serder.rs b/wasm/src/primitives/serder.rs
index 039db97..3c1b4d6 100644
--- a/wasm/src/primitives/serder.rs
+++ b/wasm/src/primitives/serder.rs
@@ -25,7 +25,7 @@ impl SerderWrapper {
             code.as_deref(),
             raw.as_deref(),
             kind.as_deref(),
-            ked.map(Value::from).as_ref(),
+            ked.map(Value::try_from).transpose()?.as_ref(),
             sad.as_deref(),
         )
         .as_js()?;
@@ -37,8 +37,8 @@ impl SerderWrapper {
         code: Option<String>,
         kind: Option<String>,
     ) -> Result<SerderWrapper> {
-        let serder =
-            Serder::new_with_ked(&Value::from(ked), code.as_deref(), kind.as_deref()).as_js()?;
+        let serder = Serder::new_with_ked(&Value::try_from(ked)?, code.as_deref(), kind.as_deref())
+            .as_js()?;
         Ok(SerderWrapper(serder))
     }
 
diff --git a/wasm/src/primitives/tholder.rs b/wasm/src/primitives/tholder.rs
index e30cabd..c3ea342 100644
--- a/wasm/src/primitives/tholder.rs
+++ b/wasm/src/primitives/tholder.rs
@@ -20,16 +20,16 @@ impl TholderWrapper {
         sith: Option<ValueWrapper>,
     ) -> Result<TholderWrapper> {
         let tholder = Tholder::new(
-            thold.map(Value::from).as_ref(),
+            thold.map(Value::try_from).transpose()?.as_ref(),
             limen.as_deref(),
-            sith.map(Value::from).as_ref(),
+            sith.map(Value::try_from).transpose()?.as_ref(),
         )
         .as_js()?;
         Ok(TholderWrapper(tholder))
     }
 
     pub fn new_with_thold(thold: ValueWrapper) -> Result<TholderWrapper> {
-        let tholder = Tholder::new_with_thold(&Value::from(thold)).as_js()?;
+        let tholder = Tholder::new_with_thold(&Value::try_from(thold)?).as_js()?;
         Ok(TholderWrapper(tholder))
     }
 
@@ -39,7 +39,7 @@ impl TholderWrapper {
     }
 
     pub fn new_with_sith(sith: ValueWrapper) -> Result<TholderWrapper> {
-        let tholder = Tholder::new_with_sith(&Value::from(sith)).as_js()?;
+        let tholder = Tholder::new_with_sith(&Value::try_from(sith)?).as_js()?;
         Ok(TholderWrapper(tholder))
     }
 
diff --git a/wasm/src/util.rs b/wasm/src/util.rs
index eecd095..323e341 100644
--- a/wasm/src/util.rs
+++ b/wasm/src/util.rs
@@ -1,5 +1,8 @@
 use cesride_core::data::Value;
-use wasm_bindgen::prelude::wasm_bindgen;
+use js_sys::Error as JsError;
+use wasm_bindgen::{prelude::wasm_bindgen, JsValue};
+
+use crate::error::Result;
 
 #[wasm_bindgen(js_name = U128)]
 pub struct U128Wrapper {
@@ -34,10 +37,13 @@ impl ValueWrapper {
     }
 }
 
-impl From<ValueWrapper> for Value {
-    fn from(value: ValueWrapper) -> Self {
-        let v: serde_json::Value = serde_json::from_str(&value.0).unwrap();
-        Value::from(&v)
+impl TryFrom<ValueWrapper> for Value {
+    type Error = JsValue;
+
+    fn try_from(value: ValueWrapper) -> Result<Self> {
+        let v: serde_json::Value =
+            serde_json::from_str(&value.0).map_err(|e| JsError::new(&e.to_string()))?;
+        Ok(Value::from(&v))
     }
 }
 
-- 
2.43.0


From 3d8ae4c98a1c04d18da07cb441dcd0048053e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:22 +0000
Subject: [PATCH 43/43] fix: check an indexed signature's index before
 computing the text length from it

---
 src/core/indexer/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 57cc68e..a596d3d 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -207,6 +207,12 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
+        if index > 64_u32.pow(ms) - 1 {
+            return err!(Error::InvalidVarIndex(format!(
+                "Invalid index = '{index}' for code = '{code}'."
+            )));
+        }
+
         let mut fs = szg.fs;
         if szg.fs == u32::MAX {
             if (cs % 4) != 0 {
@@ -226,12 +232,6 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        if index > 64_u32.pow(ms) - 1 {
-            return err!(Error::InvalidVarIndex(format!(
-                "Invalid index = '{index}' for code = '{code}'."
-            )));
-        }
-
         if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{os}' and code = '{code}'.",
-- 
2.43.0


From b2b83090bebe774ca55cde455e1bf163cdd3e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 01/14] fix: abe ABList::pop_front returns None on an empty
 list instead of panicking

---
 crates/abe/src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/abe/src/eval.rs b/crates/abe/src/eval.rs
index 9655a37..f374401 100644
--- a/crates/abe/src/eval.rs
+++ b/crates/abe/src/eval.rs
@@ -270,7 +270,7 @@ impl ABList {
         self.0
     }
     pub fn pop_front(&mut self) -> Option<ABLV> {
-        self.0.splice(0..1, None).next()
+        self.0.splice(0..self.0.len().min(1), None).next()
     }
 }
 pub type ApplyErr = anyhow::Error;
-- 
2.43.0


From d566ff72b7c026b6b251d5a89b9917dbcd4d3b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 02/14] fix: abe ABConf finds options without a value and tells
 a key from its value

get_inner compared the number of stored components with the number of items,
so ':follow' was never found; has_optional_value returned the last key as the
value of a list that does not start with a separator.
---
 crates/abe/src/abconf.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/abe/src/abconf.rs b/crates/abe/src/abconf.rs
index 348f1cc..78648f9 100644
--- a/crates/abe/src/abconf.rs
+++ b/crates/abe/src/abconf.rs
@@ -57,11 +57,15 @@ impl ABConf {
         starts_with: &[&[u8]],
     ) -> Option<Result<Option<&[u8]>, &ABList>> {
         match &self.get_checked(starts_with).next()? {
-            Ok(lst) => match &lst[starts_with.len() - 1..] {
-                [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
-                [] => Some(Ok(None)),
-                _ => Some(Err(lst)),
-            },
+            Ok(lst) => {
+                // a leading ctr stands for an empty first item that has no component of its own
+                let head = lst.first().is_some_and(|(ctr, _)| ctr.is_some()) as usize;
+                match &lst[starts_with.len().saturating_sub(head)..] {
+                    [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
+                    [] => Some(Ok(None)),
+                    _ => Some(Err(lst)),
+                }
+            }
             Err(v) => Some(Err(v)),
         }
     }
@@ -86,7 +90,7 @@ impl ABConf {
         starts_with: &'b [&[u8]],
     ) -> impl Iterator<Item = &'a ABList> + 'b {
         self.0.iter().rev().filter(move |a| {
-            if a.len() < starts_with.len() {
+            if a.iter_bytes().count() < starts_with.len() {
                 return false;
             }
             let ok = starts_with
-- 
2.43.0


From 002b62ec16e7681549b290c71d8d4a53747f0850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 03/14] fix: abe [replace] with an empty pattern no longer
 loops until memory runs out

---
 crates/abe/src/scope/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 442da63..849101c 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -128,11 +128,11 @@ fn replace([mut b, from, to]: [&[u8]; 3]) -> Vec<u8> {
     let mut r = Vec::with_capacity(b.len());
     while let Some((h, rest)) = b.split_first() {
         match b.strip_prefix(from) {
-            Some(rest) => {
+            Some(rest) if !from.is_empty() => {
                 r.extend_from_slice(to);
                 b = rest
             }
-            None => {
+            _ => {
                 r.push(*h);
                 b = rest
             }
-- 
2.43.0


From bf9b28617a2b8dd207671fc8f504e0ea40f21315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 04/14] fix: abe replace_abe with an empty pattern no longer
 panics

---
 crates/abe/src/ast.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/abe/src/ast.rs b/crates/abe/src/ast.rs
index 3b33bbd..564b9ef 100644
--- a/crates/abe/src/ast.rs
+++ b/crates/abe/src/ast.rs
@@ -634,6 +634,9 @@ pub fn replace_abe(inp: &mut Vec<ABE>, pattern: &[ABE], new: &[ABE]) {
             replace_abe(lst, pattern, new)
         }
     }
+    if pattern.is_empty() {
+        return;
+    }
     let mut i = 0;
     while let Some(r) = &inp[i..].windows(pattern.len()).position(|w| w == pattern) {
         i += r;
-- 
2.43.0


From e1fdf42b23b75d25e25b789694375604b0e3e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 05/14] fix: abe [+] and [-] of empty bytes no longer panic

---
 crates/abe/src/scope/uint.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/abe/src/scope/uint.rs b/crates/abe/src/scope/uint.rs
index 2a7489c..6c4fc56 100644
--- a/crates/abe/src/scope/uint.rs
+++ b/crates/abe/src/scope/uint.rs
@@ -16,7 +16,9 @@ where
 pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
+    let Some(mut idx) = bytes.len().checked_sub(1) else {
+        return false;
+    };
     loop {
         let (ni, nc) = bytes[idx].carrying_add(val[idx], carry);
         bytes[idx] = ni;
@@ -31,7 +33,9 @@ pub fn carry_add_be(bytes: &mut [u8], val: &[u8]) -> bool {
 pub fn carry_sub_be(bytes: &mut [u8], val: &[u8]) -> bool {
     debug_assert!(bytes.len() == val.len());
     let mut carry = false;
-    let mut idx = bytes.len() - 1;
+    let Some(mut idx) = bytes.len().checked_sub(1) else {
+        return false;
+    };
     loop {
         let (ni, nc) = bytes[idx].borrowing_sub(val[idx], carry);
         bytes[idx] = ni;
-- 
2.43.0


From 02bcb91d7a9352ad15d846aa22575fae5051f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 06/14] fix: abe [slice] bounds and steps beyond isize::MAX no
 longer wrap or overflow

---
 crates/abe/src/scope/bytes.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 849101c..1e0ef8b 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -178,11 +178,10 @@ pub fn slice<'o, F>(
 
     let to_bound = |v: Option<SignedInt>| -> Option<isize> {
         match v {
-            Some(SignedInt { neg: false, val }) => {
-                Some((val as isize).clamp(sb.min(eb), sb.max(eb)))
-            }
-            Some(SignedInt { neg: true, val }) => {
-                Some((len - val as isize).clamp(sb.min(eb), sb.max(eb)))
+            Some(SignedInt { neg, val }) => {
+                let val = isize::try_from(val).unwrap_or(isize::MAX);
+                let val = if neg { len - val } else { val };
+                Some(val.clamp(sb.min(eb), sb.max(eb)))
             }
             None => None,
         }
@@ -196,7 +195,7 @@ pub fn slice<'o, F>(
             return None;
         }
         let result = bytes.get(i as usize)?;
-        i += step;
+        i = i.saturating_add(step);
         Some(result)
     }))
 }
-- 
2.43.0


From c42c25ed10a3e14c8fd2f33eaf50ecd381afa1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 07/14] fix: abe padding to an impossible length is an error
 instead of a capacity panic

---
 crates/abe/src/scope/bytes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/abe/src/scope/bytes.rs b/crates/abe/src/scope/bytes.rs
index 1e0ef8b..11eec46 100644
--- a/crates/abe/src/scope/bytes.rs
+++ b/crates/abe/src/scope/bytes.rs
@@ -54,7 +54,9 @@ impl EvalScopeImpl for BytesFE {
             if padb.len() != 1 {
                 return Err(anyhow!("pad byte should be a single byte"));
             };
-            let mut v = vec![padb[0]; len];
+            let mut v = vec![];
+            v.try_reserve_exact(len)?;
+            v.resize(len, padb[0]);
             if !left {
                 &mut v[0..bytes.len()]
             } else {
-- 
2.43.0


From 8f85b1b310759985bc1cfe565e016fb4531a3920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 08/14] fix: AB::write_abe printed escaped text instead of the
 bytes

---
 crates/byte-fmt/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/byte-fmt/src/lib.rs b/crates/byte-fmt/src/lib.rs
index c7a5042..d561d86 100644
--- a/crates/byte-fmt/src/lib.rs
+++ b/crates/byte-fmt/src/lib.rs
@@ -159,12 +159,10 @@ where
     fn write_abe(&self, out: &mut dyn FnMut(ABE)) {
         let (max_padded, bytes) = self.x_prefix_cut();
         let mode = if max_padded { MAX_STR } else { "a" };
-        let st = abe::abtxt::as_abtxt(bytes);
-        let st: &str = st.borrow();
         if self.as_ref().len() == 16 {
-            abe::abe!({ mode : st  }).for_each(out)
+            abe::abe!({ mode : bytes  }).for_each(out)
         } else {
-            abe::abe!({ mode : st : (self.as_ref().len().to_string()) }).for_each(out)
+            abe::abe!({ mode : bytes : (self.as_ref().len().to_string()) }).for_each(out)
         }
     }
     fn to_abe_str(&self) -> String {
-- 
2.43.0


From 9bcd79deee881c6571d002b87576dbc37ed94df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 09/14] fix: a bus datagram of an unexpected length no longer
 panics the listener thread

---
 crates/ipcbus/src/udp_procbus.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index daaba3f..bddc3fc 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -126,6 +126,10 @@ impl ProcBus {
         self.0.listener.get_or_init(move || {
             let this = ProcBus(self.0.clone());
             self.0.udp.rx_thread(move |b| {
+                if b.len() != 8 + 4 + 8 {
+                    tracing::warn!("Malformed bus message");
+                    return;
+                }
                 let (busid, rest) = b.split_at(8);
                 let busid = u64::from_ne_bytes(busid.try_into().unwrap());
                 if busid != this.0.bus_id {
-- 
2.43.0


From 7932c8a2dd4e04da5928bf37a1ebc2cfe481862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 10/14] fix: an identity string with extra parameters or fields
 is bad data

The check for leftover parameters never fired, since zip stops at three
items, and items after the digest or parameters of another form between
the expected ones were skipped.
---
 crates/argon2-identity/src/lib.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/argon2-identity/src/lib.rs b/crates/argon2-identity/src/lib.rs
index 04cbb3e..a700af5 100644
--- a/crates/argon2-identity/src/lib.rs
+++ b/crates/argon2-identity/src/lib.rs
@@ -54,14 +54,10 @@ mod params {
             .ok()?
             .try_into()
             .ok()?;
-        let mut opt_it = options
-            .split(',')
-            .filter_map(|st| st.split_once('='))
-            .zip(["m", "t", "p"])
-            .filter(|((kind, _val), expect)| (kind == expect))
-            .filter_map(|((_, val), _)| val.parse::<u32>().ok());
-        let (mem, time, parallelism) = (opt_it.next()?, opt_it.next()?, opt_it.next()?);
-        if opt_it.next().is_some() {
+        let mut opt_it = options.split(',');
+        let mut opt = |name| opt_it.next()?.strip_prefix(name)?.parse::<u32>().ok();
+        let (mem, time, parallelism) = (opt("m=")?, opt("t=")?, opt("p=")?);
+        if opt_it.next().is_some() || items_it.next().is_some() {
             return None;
         }
         Some(Decoded {
-- 
2.43.0


From b30acceb2493fb0f2afae61dbac60408761b277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 11/14] fix: a rooted space with 8 components has its depth
 byte checked

---
 crates/pkt/src/rooted_space.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/pkt/src/rooted_space.rs b/crates/pkt/src/rooted_space.rs
index 84a622e..93fae74 100644
--- a/crates/pkt/src/rooted_space.rs
+++ b/crates/pkt/src/rooted_space.rs
@@ -231,6 +231,10 @@ impl RootedSpace {
             }
             i += 1;
         }
+        // every empty slot after the last component advanced len: a full index leaves it at the depth
+        if len != 8 {
+            return Err(SpaceError::EmptyComponentIdx);
+        }
         Ok(())
     }
 
-- 
2.43.0


From 013d4c84b1974c062fbe7028af258cc779d10085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:50 +0000
Subject: [PATCH 12/14] fix: a space of more than 8 components has no rooted
 form

---
 crates/pkt/src/space.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index a193cb5..747a82e 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -712,6 +712,9 @@ impl Space {
                 count += 1;
             }
         }
+        if it.next().is_some() {
+            return Err(SpaceError::MaxDepth);
+        }
         data[0] = count;
         let v = RootedSpaceBuf::from_unchecked(data);
         debug_assert!(
-- 
2.43.0


From e95e43d48acc5ebf40455d22a8bf970cd5b31e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 13/14] fix: SpaceBuf::components returns the components

---
 crates/pkt/src/space.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index 747a82e..b9b319c 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -232,8 +232,8 @@ impl SpaceBuf {
     }
 
     pub fn components(&self) -> Result<Vec<Vec<u8>>, SpaceError> {
-        let iter = self.as_ref().iter();
-        let res = iter.map(Vec::from).collect();
+        let mut iter = self.as_ref().iter();
+        let res = iter.by_ref().map(Vec::from).collect();
         if iter.space.inner_bytes.is_empty() {
             Ok(res)
         } else {
-- 
2.43.0


From c2158038135d88b85e2a62208c6d440f895c5ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:00 +0000
Subject: [PATCH 14/14] fix: spaces are limited to 8 components wherever they
 are built or checked

---
 crates/pkt/src/space.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/pkt/src/space.rs b/crates/pkt/src/space.rs
index b9b319c..ac2ac45 100644
--- a/crates/pkt/src/space.rs
+++ b/crates/pkt/src/space.rs
@@ -252,6 +252,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + p.inner_bytes.len() > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() + p.iter().count() > MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(0..0, p.inner_bytes.iter().cloned());
         Ok(self)
     }
@@ -265,6 +268,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.push(component.len().try_into().unwrap());
         self.inner_bytes.extend_from_slice(component);
         Ok(self)
@@ -283,6 +289,9 @@ impl SpaceBuf {
         if self.inner_bytes.len() + component.len() + 1 > MAX_SPACENAME_SIZE {
             return Err(SpaceError::CapacityError);
         }
+        if self.calc_depth() >= MAX_SPACE_DEPTH {
+            return Err(SpaceError::MaxDepth);
+        }
         self.inner_bytes.splice(
             0..0,
             [component.len().try_into().unwrap()]
@@ -333,6 +342,7 @@ impl Space {
             }
         }
     }
+    #[allow(clippy::as_conversions)]
     pub const fn check_components(&self) -> Result<u8, SpaceError> {
         match self.checked_iter() {
             Err(e) => Err(e),
@@ -345,6 +355,9 @@ impl Space {
                     }
                     i += 1;
                 }
+                if i as usize > MAX_SPACE_DEPTH {
+                    return Err(SpaceError::MaxDepth);
+                }
                 Ok(i)
             }
         }
-- 
2.43.0


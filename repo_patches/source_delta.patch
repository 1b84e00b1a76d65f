From b2df6310191386d30886728c599d049b0eb98959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 01/16] fix: saturate the displayed family instead of
 overflowing

With base family 0xF and an extended family above 0xF0 (or, on other vendors,
any pair summing above 255) `family_id` overflowed: a panic with overflow
checks, a wrapped family without.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36fabf0..afbd742 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1965,7 +1965,7 @@ impl FeatureInfo {
         if just_use_base {
             base_family_id
         } else {
-            base_family_id + extended_family_id
+            base_family_id.saturating_add(extended_family_id)
         }
     }
 
-- 
2.43.0


From d47bb21a0fd0b0646c0d1388b5c4f6921a6ac88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 02/16] fix: do not overflow when ECX of the cache parameter
 leaf is u32::MAX

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index afbd742..0788777 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2833,7 +2833,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        (self.ecx + 1) as usize
+        self.ecx as usize + 1
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From d0924dc7258f03f3b6887a749d7ed20e7a194f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 03/16] fix: saturate threads_per_core instead of overflowing

---
 src/extended.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended.rs b/src/extended.rs
index d79df32..231a821 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -1723,7 +1723,7 @@ impl ProcessorTopologyInfo {
     /// # Note
     /// `Threads per Core` means `Cores per Compute Unit` if AMD Family 15h-16h Processors.
     pub fn threads_per_core(&self) -> u8 {
-        get_bits(self.ebx, 8, 15) as u8 + 1
+        (get_bits(self.ebx, 8, 15) as u8).saturating_add(1)
     }
 
     /// Node ID
-- 
2.43.0


From 378049d4d2a0ed1ab4c121d4ff182260e03a696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 04/16] fix: treat reserved topology level types as invalid

A level type above 5 in leaf 0xB/0x1F made the topology iterator panic.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0788777..614f8cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4433,7 +4433,7 @@ impl ExtendedTopologyLevel {
             3 => TopologyType::Module,
             4 => TopologyType::Tile,
             5 => TopologyType::Die,
-            _ => unreachable!(),
+            _ => TopologyType::Invalid,
         }
     }
 
-- 
2.43.0


From 1aa1b72504bf728de5e36143791aa007535ef501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 05/16] fix: do not end cache descriptor iteration at an
 unknown descriptor

A single byte that is not in CACHE_INFO_TABLE hid all descriptors after it.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 614f8cb..8c41845 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1246,7 +1246,9 @@ impl Iterator for CacheInfoIter {
             }
         }
 
-        None
+        // Skip unknown descriptors, known ones may follow.
+        self.current += 1;
+        self.next()
     }
 }
 
-- 
2.43.0


From 1c676483d3fdbfa3f51d1819ea63c3dea85c21c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 06/16] fix: add the described but unlisted cache descriptors
 to CACHE_INFO_TABLE

0x1D, 0x64, 0xA0 and 0xC4 have a description in CacheInfo::desc but were
never reported because the table lacked them.
---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8c41845..87fac78 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1429,7 +1429,7 @@ impl fmt::Display for CacheInfo {
 }
 
 /// This table is taken from Intel manual (Section CPUID instruction).
-pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
+pub const CACHE_INFO_TABLE: [CacheInfo; 112] = [
     CacheInfo {
         num: 0x00,
         typ: CacheInfoType::General,
@@ -1486,6 +1486,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x0E,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0x1D,
+        typ: CacheInfoType::Cache,
+    },
     CacheInfo {
         num: 0x21,
         typ: CacheInfoType::Cache,
@@ -1638,6 +1642,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x63,
         typ: CacheInfoType::TLB,
     },
+    CacheInfo {
+        num: 0x64,
+        typ: CacheInfoType::TLB,
+    },
     CacheInfo {
         num: 0x66,
         typ: CacheInfoType::Cache,
@@ -1738,6 +1746,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0x87,
         typ: CacheInfoType::Cache,
     },
+    CacheInfo {
+        num: 0xA0,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xB0,
         typ: CacheInfoType::TLB,
@@ -1782,6 +1794,10 @@ pub const CACHE_INFO_TABLE: [CacheInfo; 108] = [
         num: 0xC2,
         typ: CacheInfoType::DTLB,
     },
+    CacheInfo {
+        num: 0xC4,
+        typ: CacheInfoType::DTLB,
+    },
     CacheInfo {
         num: 0xCA,
         typ: CacheInfoType::STLB,
-- 
2.43.0


From 499e22c1062e0ea8e40ca6a46ce2f839d044d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 07/16] fix: ignore cache descriptor registers that are marked
 as reserved

Leaf 2: a register whose bit 31 is set does not contain descriptors.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 87fac78..3b4658b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1234,7 +1234,8 @@ impl Iterator for CacheInfoIter {
             _ => unreachable!(),
         } as u8;
 
-        if byte == 0 {
+        // If bit 31 of a register is set, it holds no valid descriptors.
+        if byte == 0 || reg & (1 << 31) != 0 {
             self.current += 1;
             return self.next();
         }
-- 
2.43.0


From f868b4dd6edb3c788c01401f6542fa17258097ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 08/16] fix: walk the SoC vendor attributes instead of running
 past their end

The iterator advanced the reported sub-leaf count rather than its position: it
started after the last attribute and never ended.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b4658b..0b899a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5911,11 +5911,11 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
 
     /// Iterate over all SoC vendor specific attributes.
     fn next(&mut self) -> Option<CpuIdResult> {
-        if self.current > self.count {
+        if self.current >= self.count {
             return None;
         }
-        self.count += 1;
-        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.count))
+        self.current += 1;
+        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current))
     }
 }
 
-- 
2.43.0


From 3c3dd38d2a8bdc5866b1666754ccb5669b6b0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 09/16] fix: keep the MAWAU bits so that mawau_value reports
 them

They were dropped when the register was converted to known flags, so the value
was always zero.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0b899a2..615db2f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4150,7 +4150,8 @@ bitflags! {
         /// Bit 16: Supports 57-bit linear addresses and five-level paging if 1.
         const LA57 = 1 << 16;
 
-        // Bits 21 - 17: The value of MAWAU used by the BNDLDX and BNDSTX instructions in 64-bit mode
+        /// Bits 21 - 17: The value of MAWAU used by the BNDLDX and BNDSTX instructions in 64-bit mode
+        const MAWAU = 0x1f << 17;
 
         /// Bit 22: RDPID. RDPID and IA32_TSC_AUX are available if 1.
         const RDPID = 1 << 22;
-- 
2.43.0


From 4602ca54c54a2cd662b1aa3f936f79278fcee10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 10/16] fix: include the highest leaf of each range in the raw
 dump

---
 src/display.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index 7ff6d3d..e108d67 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -11,18 +11,18 @@ pub fn raw<R: crate::CpuIdReader>(cpuid: R) {
     let _leafs_with_subleafs = &[0x04, 0x0d, 0x0f, 0x10, 0x12];
 
     let max_leafs = cpuid.cpuid1(0x0).eax;
-    for idx in 0..max_leafs {
+    for idx in 0..=max_leafs {
         let res = cpuid.cpuid1(idx);
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, res);
     }
 
     let max_hypervisor_leafs = cpuid.cpuid1(0x4000_0000).eax;
-    for idx in 0x4000_0000..max_hypervisor_leafs {
+    for idx in 0x4000_0000..=max_hypervisor_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 
     let max_extended_leafs = cpuid.cpuid1(0x8000_0000).eax;
-    for idx in 0x8000_0000..max_extended_leafs {
+    for idx in 0x8000_0000..=max_extended_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 }
-- 
2.43.0


From 211901f715f3f60d1a0f8f44236d10d5eaf98b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 11/16] fix: show has_amx_int8 in the AMX_INT8 row of the
 report

---
 src/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.rs b/src/display.rs
index e108d67..e2795c5 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -545,7 +545,7 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
                 RowGen::tuple("AMX_TILE: Tile Architecture support", info.has_amx_tile()),
                 RowGen::tuple(
                     "AMX_INT8: Tile Computational Operation on 8-bit integers",
-                    info.has_amx_tile(),
+                    info.has_amx_int8(),
                 ),
                 RowGen::tuple(
                     "AVX512DQ: double & quadword instructions",
-- 
2.43.0


From d95be1ac8e36dca99cc23b3e51e9e9ee98354de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 12/16] fix: end the address translation walk when the last
 sub-leaf is u32::MAX

The position overflowed: a panic with overflow checks, an endless walk without.
---
 src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 615db2f..01d7689 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5651,7 +5651,8 @@ impl fmt::Debug for ProcessorFrequencyInfo {
 #[derive(Clone)]
 pub struct DatIter<R: CpuIdReader> {
     read: R,
-    current: u32,
+    // Wider than a sub-leaf index, which may go up to and including u32::MAX.
+    current: u64,
     count: u32,
 }
 
@@ -5662,13 +5663,14 @@ impl<R: CpuIdReader> Iterator for DatIter<R> {
     fn next(&mut self) -> Option<DatInfo> {
         loop {
             // Sub-leaf index n is invalid if n exceeds the value that sub-leaf 0 returns in EAX
-            if self.current > self.count {
+            if self.current > self.count.into() {
                 return None;
             }
 
-            let res = self
-                .read
-                .cpuid2(EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO, self.current);
+            let res = self.read.cpuid2(
+                EAX_DETERMINISTIC_ADDRESS_TRANSLATION_INFO,
+                self.current as u32,
+            );
             self.current += 1;
 
             // A sub-leaf index is also invalid if EDX[4:0] returns 0.
-- 
2.43.0


From dcd06466468fd6480a739d830b162f2b0d5298c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 13/16] fix: do not overflow when synthesizing the cache size
 in the report

With all fields of the cache parameter leaf at their maximum the product is
2^64.
---
 src/display.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index e2795c5..d2dadcd 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -372,10 +372,10 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
         for cache in iter {
             print_subtitle(&skin, format!("L{} Cache:", cache.level()).as_str());
 
-            let size = (cache.associativity()
-                * cache.physical_line_partitions()
-                * cache.coherency_line_size()
-                * cache.sets()) as u64;
+            let size = (cache.associativity() as u64)
+                .saturating_mul(cache.physical_line_partitions() as u64)
+                .saturating_mul(cache.coherency_line_size() as u64)
+                .saturating_mul(cache.sets() as u64);
 
             table2(
                 &skin,
-- 
2.43.0


From 85d9b7791a9c98643233153bf26bd1b93b4f3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 14/16] fix: CacheParameter::sets overflows where usize is 32
 bits wide

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 01d7689..b2148e2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2852,7 +2852,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        self.ecx as usize + 1
+        (self.ecx as usize).saturating_add(1)
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From 0d92045bc8195df561d9e3827ea4bc5e316e3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 15/16] fix: end the sub-leaf iterators after the last sub-leaf
 instead of overflowing

---
 src/extended.rs |  8 ++++++--
 src/lib.rs      | 21 ++++++++++++++-------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/extended.rs b/src/extended.rs
index 231a821..c48984e 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -1,5 +1,6 @@
 //! Data-structures / interpretation for extended leafs (>= 0x8000_0000)
 use bitflags::bitflags;
+use core::convert::TryFrom;
 use core::fmt::{self, Debug, Display, Formatter};
 use core::mem::size_of;
 use core::slice;
@@ -2404,7 +2405,8 @@ bitflags! {
 #[derive(Clone)]
 pub struct ExtendedCpuTopologyIter<R: CpuIdReader> {
     read: R,
-    level: u32,
+    // Wider than a sub-leaf index, which may go up to and including u32::MAX.
+    level: u64,
 }
 
 impl<R: CpuIdReader> ExtendedCpuTopologyIter<R> {
@@ -2506,7 +2508,9 @@ impl<R: CpuIdReader> Iterator for ExtendedCpuTopologyIter<R> {
     type Item = ExtendedCpuTopologyLevel;
 
     fn next(&mut self) -> Option<ExtendedCpuTopologyLevel> {
-        let res = self.read.cpuid2(EAX_EXTENDED_CPU_TOPOLOGY, self.level);
+        let res = self
+            .read
+            .cpuid2(EAX_EXTENDED_CPU_TOPOLOGY, u32::try_from(self.level).ok()?);
         self.level += 1;
 
         let ect = ExtendedCpuTopologyLevel::new(res);
diff --git a/src/lib.rs b/src/lib.rs
index b2148e2..3ab9d6e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -62,6 +62,7 @@ mod extended;
 mod tests;
 
 use bitflags::bitflags;
+use core::convert::TryFrom;
 use core::fmt::{self, Debug, Formatter};
 use core::mem::size_of;
 use core::slice;
@@ -2685,7 +2686,8 @@ bitflags! {
 pub struct CacheParametersIter<R: CpuIdReader> {
     read: R,
     leaf: u32,
-    current: u32,
+    // Wider than a sub-leaf index, which may go up to and including u32::MAX.
+    current: u64,
 }
 
 impl<R: CpuIdReader> Iterator for CacheParametersIter<R> {
@@ -2697,7 +2699,9 @@ impl<R: CpuIdReader> Iterator for CacheParametersIter<R> {
     /// cpuid is called every-time we advance the iterator to get information
     /// about the next cache.
     fn next(&mut self) -> Option<CacheParameter> {
-        let res = self.read.cpuid2(self.leaf, self.current);
+        let res = self
+            .read
+            .cpuid2(self.leaf, u32::try_from(self.current).ok()?);
         let cp = CacheParameter {
             eax: res.eax,
             ebx: res.ebx,
@@ -4405,7 +4409,8 @@ bitflags! {
 #[derive(Clone)]
 pub struct ExtendedTopologyIter<R: CpuIdReader> {
     read: R,
-    level: u32,
+    // Wider than a sub-leaf index, which may go up to and including u32::MAX.
+    level: u64,
     is_v2: bool,
 }
 
@@ -4500,10 +4505,11 @@ impl<R: CpuIdReader> Iterator for ExtendedTopologyIter<R> {
     type Item = ExtendedTopologyLevel;
 
     fn next(&mut self) -> Option<ExtendedTopologyLevel> {
+        let level = u32::try_from(self.level).ok()?;
         let res = if self.is_v2 {
-            self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO_V2, self.level)
+            self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO_V2, level)
         } else {
-            self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO, self.level)
+            self.read.cpuid2(EAX_EXTENDED_TOPOLOGY_INFO, level)
         };
         self.level += 1;
 
@@ -5350,14 +5356,15 @@ impl<R: CpuIdReader> Debug for SgxInfo<R> {
 #[derive(Clone)]
 pub struct SgxSectionIter<R: CpuIdReader> {
     read: R,
-    current: u32,
+    // Wider than a sub-leaf index, which may go up to and including u32::MAX.
+    current: u64,
 }
 
 impl<R: CpuIdReader> Iterator for SgxSectionIter<R> {
     type Item = SgxSectionInfo;
 
     fn next(&mut self) -> Option<SgxSectionInfo> {
-        let res = self.read.cpuid2(EAX_SGX, self.current);
+        let res = self.read.cpuid2(EAX_SGX, u32::try_from(self.current).ok()?);
         self.current += 1;
         match get_bits(res.eax, 0, 3) {
             0b0001 => Some(SgxSectionInfo::Epc(EpcSection {
-- 
2.43.0


From e938325a028d4c93426d761eb9488ad6ab6814e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 16/16] fix: read identification strings in the right byte
 order on big-endian hosts

---
 src/extended.rs |  4 +++-
 src/lib.rs      | 29 ++++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/extended.rs b/src/extended.rs
index c48984e..06cbd4a 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -448,7 +448,9 @@ pub struct ProcessorBrandString {
 
 impl ProcessorBrandString {
     pub(crate) fn new(data: [CpuIdResult; 3]) -> Self {
-        Self { data }
+        Self {
+            data: [data[0].to_le(), data[1].to_le(), data[2].to_le()],
+        }
     }
 
     /// Return the processor brand string as a rust string.
diff --git a/src/lib.rs b/src/lib.rs
index 3ab9d6e..f303f26 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -201,9 +201,9 @@ enum Vendor {
 impl Vendor {
     fn from_vendor_leaf(res: CpuIdResult) -> Self {
         let vi = VendorInfo {
-            ebx: res.ebx,
-            ecx: res.ecx,
-            edx: res.edx,
+            ebx: res.ebx.to_le(),
+            ecx: res.ecx.to_le(),
+            edx: res.edx.to_le(),
         };
 
         match vi.as_str() {
@@ -283,6 +283,19 @@ impl Debug for CpuIdResult {
     }
 }
 
+impl CpuIdResult {
+    /// The registers with their bytes in memory in little-endian order (as on
+    /// x86), for strings that are read from memory.
+    pub(crate) fn to_le(self) -> Self {
+        CpuIdResult {
+            eax: self.eax.to_le(),
+            ebx: self.ebx.to_le(),
+            ecx: self.ecx.to_le(),
+            edx: self.edx.to_le(),
+        }
+    }
+}
+
 //
 // Normal leafs:
 //
@@ -385,9 +398,9 @@ impl<R: CpuIdReader> CpuId<R> {
         if self.leaf_is_supported(EAX_VENDOR_INFO) {
             let res = self.read.cpuid1(EAX_VENDOR_INFO);
             Some(VendorInfo {
-                ebx: res.ebx,
-                ecx: res.ecx,
-                edx: res.edx,
+                ebx: res.ebx.to_le(),
+                ecx: res.ecx.to_le(),
+                edx: res.edx.to_le(),
             })
         } else {
             None
@@ -5869,7 +5882,9 @@ impl<R: CpuIdReader> SoCVendorInfo<R> {
             let r1 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 1);
             let r2 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 2);
             let r3 = self.read.cpuid2(EAX_SOC_VENDOR_INFO, 3);
-            Some(SoCVendorBrand { data: [r1, r2, r3] })
+            Some(SoCVendorBrand {
+                data: [r1.to_le(), r2.to_le(), r3.to_le()],
+            })
         } else {
             None
         }
-- 
2.43.0


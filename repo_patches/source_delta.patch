From 1c76cc648344babb3f59367b73fe6aae22e0d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 01/39] fix: compare the entry point length with the
 untruncated buffer length

A valid entry point was rejected when the length of the remaining buffer
modulo 256 was smaller than the entry point's own length.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b6db4b..d21024f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,7 +225,7 @@ impl EntryPoint {
                 );
 
                 lib_ensure!(
-                    sub_buffer.len() as u8 >= entry_point.len(),
+                    sub_buffer.len() >= entry_point.len() as usize,
                     InvalidEntryPointError::BadSize(sub_buffer.len() as u8)
                 );
 
-- 
2.43.0


From 87b08bb79d1c4f1b400edd073d48560a90ad5696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 02/39] fix: bound the table walk by the buffer given to
 structures()

A buffer shorter than the declared table length made the iterator read
headers out of bounds and panic while slicing.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d21024f..c20dab1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -164,7 +164,8 @@ impl EntryPoint {
     pub fn structures<'buffer>(&self, buffer: &'buffer [u8]) -> Structures<'buffer> {
         Structures {
             smbios_version: self.to_version(),
-            smbios_len: self.smbios_len(),
+            // never walk past the end of the buffer, however long the entry point says the table is
+            smbios_len: self.smbios_len().min(buffer.len().try_into().unwrap_or(u32::MAX)),
             idx: 0u32,
             buffer,
         }
-- 
2.43.0


From 2184781c5f42a3a60244eeb979289b4dc0c4f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 03/39] fix: report a structure shorter than its own header as
 BadSize

The slice of the formatted area panicked when the declared length was
less than the 4 header bytes.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c20dab1..f947aa4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -531,7 +531,7 @@ impl<'buffer> Structures<'buffer> {
         let_as_struct!(header, HeaderPacked, working);
 
         let strings_idx: u32 = self.idx + header.len as u32;
-        if strings_idx >= self.smbios_len {
+        if (header.len as usize) < mem::size_of::<HeaderPacked>() || strings_idx >= self.smbios_len {
             return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
         }
 
-- 
2.43.0


From 472e4830596df838e7a197a19e6eab808c19a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 04/39] fix: do not overflow in RawStructure::get and get_slice

Offsets inside the header, or close to usize::MAX, panicked instead of
reporting a value outside of the formatted area.
---
 src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f947aa4..fbd08a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -642,15 +642,14 @@ impl<'buffer> RawStructure<'buffer> {
     /// section* it may be ignored to return [None] value of structure field. In this case *Formatted
     /// section* length automatically hide non-existing values
     pub fn get<T: TryFromBytes<'buffer, T>>(&self, offset: usize) -> Result<T, MalformedStructureError> {
-        // Ignore header
-        let start = offset - 4;
-        let size = core::mem::size_of::<T>();
-        let slice = self.data.get(start..(start + size)).unwrap_or(&[]);
+        let slice = self.get_slice(offset, core::mem::size_of::<T>()).unwrap_or(&[]);
         TryFromBytes::try_from_bytes(slice).map_err(MalformedStructureError::InvalidSlice)
     }
     /// Wrapper to self.data.get(..) with header offset correction
     pub fn get_slice(&self, offset: usize, size: usize) -> Option<&'buffer [u8]> {
-        self.data.get(offset - 4..offset - 4 + size)
+        // Ignore header
+        let start = offset.checked_sub(4)?;
+        self.data.get(start..start.checked_add(size)?)
     }
     /// Get *STRING* by offset declared in SMBIOS Reference Specification
     pub fn get_string(&self, offset: usize) -> Result<&'buffer str, MalformedStructureError> {
-- 
2.43.0


From ce7823942cbf328a29e476934c0963500890d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:23 +0000
Subject: [PATCH 05/39] fix: resolve string numbers past a string that is not
 UTF-8

One undecodable string made every later string of the same structure be
reported as an invalid index although it is present in the strings table.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fbd08a7..1d4d5d4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -625,8 +625,11 @@ impl<'buffer> RawStructure<'buffer> {
         if idx == 0 {
             Ok("")
         } else {
-            self.strings()
+            self.strings
+                .split(|byte| *byte == 0)
+                .take_while(|slice| !slice.is_empty())
                 .nth((idx - 1) as usize)
+                .and_then(|slice| str::from_utf8(slice).ok())
                 .ok_or(MalformedStructureError::InvalidStringIndex(self.info, self.handle, idx))
         }
     }
-- 
2.43.0


From 5c54f988c52abebfa8ec3eab2128d735d48b456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:04 +0000
Subject: [PATCH 06/39] fix: do not read past the formatted area of a short
 BIOS structure

A structure shorter than the layout of its version was read out of bounds.
Use the newest layout that fits, as real firmware produces such structures,
and report one that is shorter than the 2.0 layout.
---
 src/structures/000_bios.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index c566d60..5c6423e 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -125,8 +125,18 @@ impl<'buffer> Bios<'buffer> {
             bios_characteristics: u64,
         }
 
+        lib_ensure!(
+            structure.data.len() >= core::mem::size_of::<BiosPacked2_0>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x12
+            )
+        );
+
         match structure.version {
-            v if v >= (3, 1).into() => {
+            v if v >= (3, 1).into() && structure.data.len() >= core::mem::size_of::<BiosPacked3_1>() => {
                 let_as_struct!(packed, BiosPacked3_1, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -155,7 +165,7 @@ impl<'buffer> Bios<'buffer> {
                     }),
                 })
             }
-            v if v >= (2, 4).into() => {
+            v if v >= (2, 4).into() && structure.data.len() >= core::mem::size_of::<BiosPacked2_4>() => {
                 let_as_struct!(packed, BiosPacked2_4, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
-- 
2.43.0


From 453b9b836a04e4ec0438e58703f67ff794d89041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:04 +0000
Subject: [PATCH 07/39] fix: report BIOS characteristics extension byte 1 from
 version 2.1 on

It was documented as available for 2.1 and later, but left out for 2.1 to 2.3.
---
 src/structures/000_bios.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index 5c6423e..e23d905 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -194,7 +194,7 @@ impl<'buffer> Bios<'buffer> {
                     }),
                 })
             }
-            _ => {
+            v => {
                 let_as_struct!(packed, BiosPacked2_0, structure.data);
                 Ok(Bios {
                     handle: structure.handle,
@@ -207,7 +207,11 @@ impl<'buffer> Bios<'buffer> {
                         extended: None,
                     },
                     bios_characteristics: Characteristics(packed.bios_characteristics),
-                    bios_characteristics_exttension_1: None,
+                    bios_characteristics_exttension_1: if v >= (2, 1).into() {
+                        structure.get::<u8>(0x12).ok().map(CharacteristicsExtension1)
+                    } else {
+                        None
+                    },
                     bios_characteristics_exttension_2: None,
                     bios_revision: None,
                     firmware_revision: None,
-- 
2.43.0


From 5f0751583d23fe6b579f90b0fa4b27347d45ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:04 +0000
Subject: [PATCH 08/39] fix: do not read past the formatted area of a short
 system structure

Use the newest layout that fits, and report a structure that is shorter than
the 2.0 layout.
---
 src/structures/001_system.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/structures/001_system.rs b/src/structures/001_system.rs
index 603bc16..143a6c0 100644
--- a/src/structures/001_system.rs
+++ b/src/structures/001_system.rs
@@ -107,7 +107,17 @@ impl<'buffer> System<'buffer> {
             family: u8,
         }
 
-        if structure.version < (2, 1).into() {
+        lib_ensure!(
+            structure.data.len() >= core::mem::size_of::<SystemPacked2_0>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x08
+            )
+        );
+
+        if structure.version < (2, 1).into() || structure.data.len() < core::mem::size_of::<SystemPacked2_1>() {
             let_as_struct!(packed, SystemPacked2_0, structure.data);
 
             Ok(System {
@@ -121,7 +131,7 @@ impl<'buffer> System<'buffer> {
                 sku: None,
                 family: None,
             })
-        } else if structure.version < (2, 4).into() {
+        } else if structure.version < (2, 4).into() || structure.data.len() < core::mem::size_of::<SystemPacked2_4>() {
             let_as_struct!(packed, SystemPacked2_1, structure.data);
 
             Ok(System {
-- 
2.43.0


From 1a8e4554c555fd9236fb9d8f826e754f8a5c33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:04 +0000
Subject: [PATCH 09/39] fix: do not read past the formatted area of a short
 processor structure

Use the newest layout that fits, and report a structure that is shorter than
the 2.0 layout.
---
 src/structures/004_processor.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 7489fd0..4b43cf2 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -615,7 +615,17 @@ impl<'buffer> Processor<'buffer> {
             thread_count_2: u16,
         }
 
-        if structure.version < (2, 1).into() {
+        lib_ensure!(
+            structure.data.len() >= core::mem::size_of::<ProcessorPacked2_0>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x1A
+            )
+        );
+
+        if structure.version < (2, 1).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked2_1>() {
             let_as_struct!(packed, ProcessorPacked2_0, structure.data);
 
             Ok(Processor {
@@ -643,7 +653,8 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 3).into() {
+        } else if structure.version < (2, 3).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked2_3>()
+        {
             let_as_struct!(packed, ProcessorPacked2_1, structure.data);
 
             Ok(Processor {
@@ -671,7 +682,8 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 5).into() {
+        } else if structure.version < (2, 5).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked2_5>()
+        {
             let_as_struct!(packed, ProcessorPacked2_3, structure.data);
 
             Ok(Processor {
@@ -699,7 +711,8 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: None,
                 processor_characteristics: None,
             })
-        } else if structure.version < (2, 6).into() {
+        } else if structure.version < (2, 6).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked2_6>()
+        {
             let_as_struct!(packed, ProcessorPacked2_5, structure.data);
 
             Ok(Processor {
@@ -727,7 +740,8 @@ impl<'buffer> Processor<'buffer> {
                 thread_count: Some(packed.thread_count as u16),
                 processor_characteristics: None,
             })
-        } else if structure.version < (3, 0).into() {
+        } else if structure.version < (3, 0).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked3_0>()
+        {
             let_as_struct!(packed, ProcessorPacked2_6, structure.data);
             // smbios spec specifies 0xFE as an indicator to obtain processor
             // family from the Processor Family 2 field.
-- 
2.43.0


From 75ba4233863a75056afc9da6ffd117c805d766e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:04 +0000
Subject: [PATCH 10/39] fix: report processor characteristics for SMBIOS 2.5

The field was read, as version 2.5 defines it, but left out of the result.
---
 src/structures/004_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/structures/004_processor.rs b/src/structures/004_processor.rs
index 4b43cf2..77b7f3a 100644
--- a/src/structures/004_processor.rs
+++ b/src/structures/004_processor.rs
@@ -738,7 +738,9 @@ impl<'buffer> Processor<'buffer> {
                 core_count: Some(packed.core_count as u16),
                 core_enabled: Some(packed.core_enabled as u16),
                 thread_count: Some(packed.thread_count as u16),
-                processor_characteristics: None,
+                processor_characteristics: Some(ProcessorCharacteristics::from_bits_truncate(
+                    packed.processor_characteristics,
+                )),
             })
         } else if structure.version < (3, 0).into() || structure.data.len() < core::mem::size_of::<ProcessorPacked3_0>()
         {
-- 
2.43.0


From 3fafb8ea0a553509cd6c9524a05252969ec46c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:04 +0000
Subject: [PATCH 11/39] fix: do not read past the formatted area of a short
 cache structure

Use the newest layout that fits, and report a structure that is shorter than
the 2.0 layout.
---
 src/structures/007_cache.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index 7b1c8b7..a6b4499 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -211,8 +211,18 @@ impl<'buffer> Cache<'buffer> {
             current_sram_type: u16,
         }
 
+        lib_ensure!(
+            structure.data.len() >= core::mem::size_of::<CachePacked2_0>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x0F
+            )
+        );
+
         match structure.version {
-            v if v > (3, 1).into() => {
+            v if v > (3, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked3_1>() => {
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -230,7 +240,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v > (2, 1).into() => {
+            v if v > (2, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked2_1>() => {
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
-- 
2.43.0


From 1b24db8aa823ea7cda5a8dba966d0e41ed373e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:18 +0000
Subject: [PATCH 12/39] fix: decode cache structures of SMBIOS 2.0, 2.1 and 3.1
 with their own layout

A cache structure in a 2.0 table panicked, and 2.1 and 3.1 tables lost the
fields these versions introduced.
---
 src/structures/007_cache.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/structures/007_cache.rs b/src/structures/007_cache.rs
index a6b4499..d6635a0 100644
--- a/src/structures/007_cache.rs
+++ b/src/structures/007_cache.rs
@@ -222,7 +222,7 @@ impl<'buffer> Cache<'buffer> {
         );
 
         match structure.version {
-            v if v > (3, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked3_1>() => {
+            v if v >= (3, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked3_1>() => {
                 let_as_struct!(packed, CachePacked3_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -240,7 +240,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: Some(packed.installed_size_2.into()),
                 })
             }
-            v if v > (2, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked2_1>() => {
+            v if v >= (2, 1).into() && structure.data.len() >= core::mem::size_of::<CachePacked2_1>() => {
                 let_as_struct!(packed, CachePacked2_1, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -258,7 +258,7 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            v if v > (2, 0).into() => {
+            _ => {
                 let_as_struct!(packed, CachePacked2_0, structure.data);
                 Ok(Cache {
                     handle: structure.handle,
@@ -276,7 +276,6 @@ impl<'buffer> Cache<'buffer> {
                     installed_size_2: None,
                 })
             }
-            _ => unreachable!(),
         }
     }
 }
-- 
2.43.0


From fa2c70f1f2390b861805b88148209a10c5e93f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:18 +0000
Subject: [PATCH 13/39] fix: report a short port connector structure instead of
 reading past it

---
 src/structures/008_port_connector.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/structures/008_port_connector.rs b/src/structures/008_port_connector.rs
index 07f2763..2dd1b74 100644
--- a/src/structures/008_port_connector.rs
+++ b/src/structures/008_port_connector.rs
@@ -136,6 +136,16 @@ impl<'a> PortConnector<'a> {
             external_connector_type: u8,
             port_type: u8,
         }
+        lib_ensure!(
+            structure.data.len() >= core::mem::size_of::<PortConnectorPacked>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x09
+            )
+        );
+
         let_as_struct!(packed, PortConnectorPacked, structure.data);
 
         Ok(PortConnector {
-- 
2.43.0


From 556d15e1fee80b889ad4e9e938b4645f0cfea630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:18 +0000
Subject: [PATCH 14/39] fix: report a short BIOS language structure instead of
 reading past it

---
 src/structures/013_bios_language.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index 4879e47..e61e8f3 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -50,6 +50,16 @@ impl<'a> BiosLanguage<'a> {
 
         match structure.version {
             v if v >= (2, 1).into() => {
+                lib_ensure!(
+                    structure.data.len() >= core::mem::size_of::<BiosLanguagePacked2_1>(),
+                    MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        0x16
+                    )
+                );
+
                 let_as_struct!(packed, BiosLanguagePacked2_1, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
@@ -59,6 +69,16 @@ impl<'a> BiosLanguage<'a> {
                 })
             }
             _ => {
+                lib_ensure!(
+                    structure.data.len() >= core::mem::size_of::<BiosLanguagePacked2_0>(),
+                    MalformedStructureError::InvalidFormattedSectionLength(
+                        structure.info,
+                        structure.handle,
+                        "minimum of ",
+                        0x15
+                    )
+                );
+
                 let_as_struct!(packed, BiosLanguagePacked2_0, structure.data);
                 Ok(BiosLanguage {
                     handle: structure.handle,
-- 
2.43.0


From c86e74ff4cb4983426def1cdeee6720ea4507702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 15/39] fix: do not read past the formatted area of a short
 baseboard structure

The whole layout was read before the length was looked at, and half a chassis
handle was reported when only its first byte was there.
---
 src/structures/002_baseboard.rs | 37 +++++++++++++--------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/structures/002_baseboard.rs b/src/structures/002_baseboard.rs
index df02bbd..e429a0a 100644
--- a/src/structures/002_baseboard.rs
+++ b/src/structures/002_baseboard.rs
@@ -110,40 +110,33 @@ impl<'buffer> BaseBoard<'buffer> {
             product: u8,
             version: u8,
             serial: u8,
-            asset: u8,
-            feature_flags: u8,
-            location_in_chassis: u8,
-            chassis_handle: u16,
-            board_type: u8,
         }
 
+        lib_ensure!(
+            structure.data.len() >= core::mem::size_of::<BaseBoardPacked>(),
+            MalformedStructureError::InvalidFormattedSectionLength(
+                structure.info,
+                structure.handle,
+                "minimum of ",
+                0x08
+            )
+        );
+
         let_as_struct!(packed, BaseBoardPacked, structure.data);
 
         let asset = if structure.data.len() > 4 {
-            Some(structure.find_string(packed.asset)?)
-        } else {
-            None
-        };
-        let feature_flags = if structure.data.len() > 5 {
-            Some(BaseBoardFlags::from_bits_truncate(packed.feature_flags))
+            Some(structure.get_string(0x08)?)
         } else {
             None
         };
+        let feature_flags = structure.get(0x09).ok().map(BaseBoardFlags::from_bits_truncate);
         let location_in_chassis = if structure.data.len() > 6 {
-            Some(structure.find_string(packed.location_in_chassis)?)
-        } else {
-            None
-        };
-        let chassis_handle = if structure.data.len() > 7 {
-            Some(packed.chassis_handle)
-        } else {
-            None
-        };
-        let board_type = if structure.data.len() > 9 {
-            Some(packed.board_type.into())
+            Some(structure.get_string(0x0A)?)
         } else {
             None
         };
+        let chassis_handle = structure.get(0x0B).ok();
+        let board_type = structure.get::<u8>(0x0D).ok().map(Into::into);
 
         Ok(BaseBoard {
             handle: structure.handle,
-- 
2.43.0


From 75e06091c19d03a59fc495110dfbcdc50942bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 16/39] fix: do not overflow computing the size of contained
 elements

More than 255 bytes of contained elements panicked, or were cut short.
---
 src/structures/003_enclosure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index a50ede4..6ba9b49 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -421,7 +421,7 @@ impl<'buffer> ContainedElements<'buffer> {
             });
         }
 
-        let length = (count * record_length) as usize;
+        let length = count as usize * record_length as usize;
         let chunks = data.get(0..length)?.chunks(record_length as usize);
         *data = &data[length..];
         Some(Self {
-- 
2.43.0


From 32f277f7ed800a82e9b7ae1b4785d2610f24c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 17/39] fix: do not read past a contained element record
 shorter than 3 bytes

---
 src/structures/003_enclosure.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index 6ba9b49..e371d52 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -468,7 +468,10 @@ impl From<&[u8]> for ContainedElement {
             minimum: u8,
             maximum: u8,
         }
-        let_as_struct!(packed, ContainedElement2_3, data);
+        // a record may be shorter than the elements defined for version 2.3
+        let mut bytes = [0; core::mem::size_of::<ContainedElement2_3>()];
+        bytes.iter_mut().zip(data).for_each(|(byte, value)| *byte = *value);
+        let_as_struct!(packed, ContainedElement2_3, bytes);
         ContainedElement {
             type_: packed.type_.into(),
             minimum: packed.minimum,
-- 
2.43.0


From c96cbbe181c4d11e07ec3a5fe537717f1cbcf4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 18/39] fix: do not read past a slice shorter than a slot
 device

Device and PeerDevices are made from any slice through the public From
implementations.
---
 src/structures/009_system_slots.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 3e32189..ee69d84 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -797,7 +797,10 @@ impl From<u8> for SlotCharacteristics2 {
 
 impl<'a> From<&'a [u8]> for Device {
     fn from(data: &'a [u8]) -> Device {
-        let_as_struct!(packed, DevicePacked, data);
+        // the slice may be shorter than a whole device
+        let mut bytes = [0; core::mem::size_of::<DevicePacked>()];
+        bytes.iter_mut().zip(data).for_each(|(byte, value)| *byte = *value);
+        let_as_struct!(packed, DevicePacked, bytes);
         Device {
             segment_group_number: packed.segment_group_number,
             bus_number: packed.bus_number,
-- 
2.43.0


From cb3770c20e10e3d0948b1cfba545518e45684324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 19/39] fix: print the slot pitch in units of 1/100 millimeter

A pitch of 1250, documented as 12.5 mm, was printed as 125.0 mm.
---
 src/structures/009_system_slots.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index ee69d84..31673a7 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -880,7 +880,7 @@ impl fmt::Display for SlotPitch {
         if self.0 == 0 {
             write!(f, "Not given or is unknown")
         } else {
-            write!(f, "{:.1} mm", (self.0 as f32) / 10.0)
+            write!(f, "{:.2} mm", (self.0 as f32) / 100.0)
         }
     }
 }
-- 
2.43.0


From 635809e97367d3351671225b99bcb0f15b374be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 20/39] fix: decode the U.2 slot types

SFF-8639 slots were reported as plain PCI Express slots.
---
 src/structures/009_system_slots.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/009_system_slots.rs b/src/structures/009_system_slots.rs
index 31673a7..8535ead 100644
--- a/src/structures/009_system_slots.rs
+++ b/src/structures/009_system_slots.rs
@@ -437,13 +437,13 @@ impl From<u8> for SlotType {
             0x1C => SlotType::MxmType4,
             0x1D => SlotType::Mxm3TypeA,
             0x1E => SlotType::Mxm3TypeB,
-            0x1F => SlotType::PciExpressGen2,
-            0x20 => SlotType::PciExpressGen3,
+            0x1F => SlotType::U2PciExpressGen2,
+            0x20 => SlotType::U2PciExpressGen3,
             0x21 => SlotType::PciExpressMini52pin1,
             0x22 => SlotType::PciExpressMini52pin2,
             0x23 => SlotType::PciExpressMini76pin,
-            0x24 => SlotType::PciExpressGen4,
-            0x25 => SlotType::PciExpressGen5,
+            0x24 => SlotType::U2PciExpressGen4,
+            0x25 => SlotType::U2PciExpressGen5,
             0x26 => SlotType::OcpNic3Small,
             0x27 => SlotType::OcpNic3Large,
             0x28 => SlotType::OcpNicPriorTo3,
-- 
2.43.0


From 61a6dc3991d4bc9073f5fffd9c381febd7c37c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 21/39] fix: report a group associations structure without a
 formatted area

The subtraction overflowed for a structure of just a header.
---
 src/structures/014_group_associations.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index e78e9f7..5eee4d7 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -41,15 +41,14 @@ pub struct GroupItem {
 impl<'a> GroupAssociations<'a> {
     pub(crate) fn try_from(structure: RawStructure<'a>) -> Result<Self, MalformedStructureError> {
         let handle = structure.handle;
-        let slice =
-            structure
-                .get_slice(0x05, structure.length as usize - 0x05)
-                .ok_or(InvalidFormattedSectionLength(
-                    InfoType::GroupAssociations,
-                    handle,
-                    "",
-                    structure.length,
-                ))?;
+        let slice = structure
+            .get_slice(0x05, (structure.length as usize).saturating_sub(0x05))
+            .ok_or(InvalidFormattedSectionLength(
+                InfoType::GroupAssociations,
+                handle,
+                "",
+                structure.length,
+            ))?;
         Ok(GroupAssociations {
             handle,
             group_name: structure.get_string(0x04)?,
-- 
2.43.0


From 599d1b3c69afbf719f0d88e5192a6366ff04e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 22/39] fix: stop after 255 installable languages

The string number overflowed.
---
 src/structures/013_bios_language.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/structures/013_bios_language.rs b/src/structures/013_bios_language.rs
index e61e8f3..1e3f684 100644
--- a/src/structures/013_bios_language.rs
+++ b/src/structures/013_bios_language.rs
@@ -100,9 +100,13 @@ impl<'a> InstallableLanguages<'a> {
 impl<'a> Iterator for InstallableLanguages<'a> {
     type Item = &'a str;
     fn next(&mut self) -> Option<Self::Item> {
-        let index = self.index;
-        self.index += 1;
-        self.structure.find_string(index).ok()
+        if self.index == 0 {
+            // went through all of 255 possible strings
+            return None;
+        }
+        let language = self.structure.find_string(self.index).ok()?;
+        self.index = self.index.wrapping_add(1);
+        Some(language)
     }
 }
 
-- 
2.43.0


From 39521df47b67dbd707314a922990c824900a5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 23/39] fix: accept a zero size of event log type descriptors

chunks() panics when the chunk size is zero.
---
 src/structures/015_system_event_log/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 0c8711b..786f067 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -356,7 +356,8 @@ impl fmt::Display for LogHeaderFormat {
 
 impl<'a> SupportedEventLogTypeDescriptors<'a> {
     fn new(data: &'a [u8], size: usize) -> Self {
-        Self(data.chunks(size))
+        // without descriptors their size may be zero
+        Self(data.chunks(size.max(1)))
     }
 }
 impl PartialEq for SupportedEventLogTypeDescriptors<'_> {
-- 
2.43.0


From 2b29ed09f7c3b61e08fdc9e7d5cd64ddf4264d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 24/39] fix: iterate over event log type descriptors longer
 than 2 bytes

They were all left out.
---
 src/structures/015_system_event_log/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index 786f067..f412cb1 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -376,7 +376,8 @@ impl Iterator for SupportedEventLogTypeDescriptors<'_> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let next = self.0.next()?;
-        next.try_into().ok().map(|a: [u8; 2]| EventLogTypeDescriptor {
+        // a descriptor may be longer than the 2 bytes defined so far
+        next.get(..2)?.try_into().ok().map(|a: [u8; 2]| EventLogTypeDescriptor {
             log_type: a[0].into(),
             variable_data_format_type: a[1].into(),
         })
-- 
2.43.0


From 1da7e4c04472526c6fca0e172ced1f0966daef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 25/39] fix: do not panic converting a ROM size without a
 usable extended size

The basic size FFh means 16MB or greater.
---
 src/structures/000_bios.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/000_bios.rs b/src/structures/000_bios.rs
index e23d905..f9aef69 100644
--- a/src/structures/000_bios.rs
+++ b/src/structures/000_bios.rs
@@ -339,10 +339,12 @@ impl From<RomSize> for u64 {
             match unit {
                 0b00 => size << 20,
                 0b01 => size << 30,
-                _ => unimplemented!(),
+                // reserved unit, the size is 16MB or greater
+                _ => 16 << 20,
             }
         } else {
-            unreachable!();
+            // 16MB or greater
+            16 << 20
         }
     }
 }
-- 
2.43.0


From 04abbca9e0e4635ef541b7e87ca442f76026bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 26/39] fix: do not overflow computing the design capacity of a
 battery

---
 src/structures/022_portable_battery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/022_portable_battery.rs b/src/structures/022_portable_battery.rs
index c1d4600..21676a5 100644
--- a/src/structures/022_portable_battery.rs
+++ b/src/structures/022_portable_battery.rs
@@ -236,7 +236,7 @@ impl From<DesignCapacity> for u64 {
     fn from(dc: DesignCapacity) -> Self {
         match dc {
             DesignCapacity::Unknown => 0,
-            DesignCapacity::Data { value, multiplier } => (value * multiplier as u16).into(),
+            DesignCapacity::Data { value, multiplier } => value as u64 * multiplier as u64,
         }
     }
 }
-- 
2.43.0


From 0ebaa42ef31ad869da00c1572724c427c7b3d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 27/39] fix: end a single reserved bit following another
 reserved range

The range of such a bit ended at bit 0.
---
 src/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 9272f3a..80b78b9 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -291,7 +291,7 @@ impl<'a, T> Reserved<'a, T> {
 impl<'a, T: Into<u128> + Copy + fmt::Debug> Iterator for Reserved<'a, T> {
     type Item = ReservedRange<'a>;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut end = 0;
+        let mut end = self.start;
         for Flag {
             position: Position(p),
             type_,
-- 
2.43.0


From ff88720bf38dace1e05d5d52fbafdb8bdb3fb1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 28/39] fix: decode memory form factors by their one-based
 values

Values below 9 were off by one.
---
 src/structures/017_memory_device.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 41cea72..1774b77 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -122,15 +122,14 @@ pub enum FormFactor {
 impl From<u8> for FormFactor {
     fn from(_type: u8) -> FormFactor {
         match _type {
-            0 => FormFactor::Other,
-            1 => FormFactor::Unknown,
-            2 => FormFactor::Simm,
-            3 => FormFactor::Sip,
-            4 => FormFactor::Chip,
-            5 => FormFactor::Dip,
-            6 => FormFactor::Zip,
-            7 => FormFactor::ProprietaryCard,
-            8 => FormFactor::Dimm,
+            1 => FormFactor::Other,
+            2 => FormFactor::Unknown,
+            3 => FormFactor::Simm,
+            4 => FormFactor::Sip,
+            5 => FormFactor::Chip,
+            6 => FormFactor::Dip,
+            7 => FormFactor::Zip,
+            8 => FormFactor::ProprietaryCard,
             9 => FormFactor::Dimm,
             10 => FormFactor::Tsop,
             11 => FormFactor::RowOfChips,
-- 
2.43.0


From fb9bf75967bb2cc5e52ee20daf7f33bb6d0c5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 29/39] fix: decode the PC-98 and CXL memory array locations

They are numbered from A0h on.
---
 src/structures/016_physical_memory_array.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index c446863..295d17c 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -42,11 +42,11 @@ impl From<u8> for MemoryArrayLocation {
             8 => Self::PcmciaAddOnCard,
             9 => Self::ProprietaryAddOnCard,
             10 => Self::NuBus,
-            11 => Self::Pc98c20AddOnCard,
-            12 => Self::Pc98c24AddOnCard,
-            13 => Self::Pc98eAddOnCard,
-            14 => Self::Pc98LocalBusAddOnCard,
-            15 => Self::CxlAddOnCard,
+            0xA0 => Self::Pc98c20AddOnCard,
+            0xA1 => Self::Pc98c24AddOnCard,
+            0xA2 => Self::Pc98eAddOnCard,
+            0xA3 => Self::Pc98LocalBusAddOnCard,
+            0xA4 => Self::CxlAddOnCard,
             t => Self::Undefined(t),
         }
     }
-- 
2.43.0


From 2b9ed1e499c934dd24bd8fef2a833e215945e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 30/39] fix: decode memory arrays of SMBIOS 2.1 and 2.7 with
 their own layout

All of the fields were left out for 2.1, and the extended capacity for 2.7.
---
 src/structures/016_physical_memory_array.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index 295d17c..b16f574 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -196,10 +196,12 @@ pub struct PhysicalMemoryArray {
 
 impl PhysicalMemoryArray {
     pub(crate) fn try_from(structure: RawStructure) -> Result<Self, MalformedStructureError> {
-        let mut pma = PhysicalMemoryArray::default();
+        let mut pma = PhysicalMemoryArray {
+            handle: structure.handle,
+            ..Default::default()
+        };
         let mut mem_pointer = 0;
-        if structure.version > (2, 1).into() {
-            pma.handle = structure.handle;
+        if structure.version >= (2, 1).into() {
             pma.location = MemoryArrayLocation::from(structure.data[mem_pointer]);
             mem_pointer += 1;
             pma.r#use = MemoryArrayUse::from(structure.data[mem_pointer]);
@@ -210,7 +212,7 @@ impl PhysicalMemoryArray {
             pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
             pma.number_of_memory_devices = get_word(&mut mem_pointer, structure.data)?;
         }
-        if structure.version > (2, 7).into() {
+        if structure.version >= (2, 7).into() {
             pma.extended_maximum_capacity = if pma.maximum_capacity.is_none() {
                 get_optional_qword(&mut mem_pointer, structure.data, 0)?
             } else {
-- 
2.43.0


From c29807d50de3acdda9342faf8588692d5f7e646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 31/39] fix: do not panic decoding a short memory array
 structure

Report a structure shorter than the 2.1 layout, and leave out an extended
capacity that is not there.
---
 src/structures/016_physical_memory_array.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/structures/016_physical_memory_array.rs b/src/structures/016_physical_memory_array.rs
index b16f574..0e1a8c8 100644
--- a/src/structures/016_physical_memory_array.rs
+++ b/src/structures/016_physical_memory_array.rs
@@ -202,11 +202,11 @@ impl PhysicalMemoryArray {
         };
         let mut mem_pointer = 0;
         if structure.version >= (2, 1).into() {
-            pma.location = MemoryArrayLocation::from(structure.data[mem_pointer]);
+            pma.location = MemoryArrayLocation::from(structure.get::<u8>(0x04)?);
             mem_pointer += 1;
-            pma.r#use = MemoryArrayUse::from(structure.data[mem_pointer]);
+            pma.r#use = MemoryArrayUse::from(structure.get::<u8>(0x05)?);
             mem_pointer += 1;
-            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.data[mem_pointer]);
+            pma.memory_error_correction = MemoryArrayErrorCorrectionTypes::from(structure.get::<u8>(0x06)?);
             mem_pointer += 1;
             pma.maximum_capacity = get_optional_dword(&mut mem_pointer, structure.data, 0x80000000)?;
             pma.memory_error_information_handle = get_optional_word(&mut mem_pointer, structure.data, 0xFFFE)?;
@@ -214,7 +214,7 @@ impl PhysicalMemoryArray {
         }
         if structure.version >= (2, 7).into() {
             pma.extended_maximum_capacity = if pma.maximum_capacity.is_none() {
-                get_optional_qword(&mut mem_pointer, structure.data, 0)?
+                get_optional_qword(&mut mem_pointer, structure.data, 0).unwrap_or(None)
             } else {
                 None
             };
@@ -252,7 +252,8 @@ fn get_optional_word(pointer: &mut usize, data: &[u8], none_val: u16) -> Result<
 
 fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureError> {
     let word = u16::from_le_bytes(
-        data[*pointer..(*pointer + 2)]
+        data.get(*pointer..(*pointer + 2))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -262,7 +263,8 @@ fn get_word(pointer: &mut usize, data: &[u8]) -> Result<u16, MalformedStructureE
 
 fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructureError> {
     let dword = u32::from_le_bytes(
-        data[*pointer..(*pointer + 4)]
+        data.get(*pointer..(*pointer + 4))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
@@ -272,7 +274,8 @@ fn get_dword(pointer: &mut usize, data: &[u8]) -> Result<u32, MalformedStructure
 
 fn get_qword(pointer: &mut usize, data: &[u8]) -> Result<u64, MalformedStructureError> {
     let qword = u64::from_le_bytes(
-        data[*pointer..(*pointer + 8)]
+        data.get(*pointer..(*pointer + 8))
+            .unwrap_or(&[])
             .try_into()
             .map_err(MalformedStructureError::InvalidSlice)?,
     );
-- 
2.43.0


From 32e1cc71e56dd1b1e1ea9e3bde1465a3eab77cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 32/39] fix: accept memory devices shorter than the 2.7 layout

Everything past the 2.1 layout was meant to be optional, but the structure was
reported as malformed without the fields of versions 2.3 to 2.7.
---
 src/structures/017_memory_device.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index 1774b77..d79eba0 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -403,12 +403,12 @@ impl<'a> MemoryDevice<'a> {
             memory_type: structure.get::<u8>(0x12)?.into(),
             type_detail: Detail::from_bits_truncate(structure.get::<u16>(0x13)?),
             speed: structure.get::<u16>(0x15).ok().filter(|v| v != &0x0000),
-            manufacturer: structure.get_string(0x17)?,
-            serial: structure.get_string(0x18)?,
-            asset_tag: structure.get_string(0x19)?,
-            part_number: structure.get_string(0x1A)?,
-            attributes: structure.get::<u8>(0x1B)?,
-            extended_size: structure.get::<u32>(0x1C)?,
+            manufacturer: structure.find_string(structure.get(0x17).unwrap_or(0))?,
+            serial: structure.find_string(structure.get(0x18).unwrap_or(0))?,
+            asset_tag: structure.find_string(structure.get(0x19).unwrap_or(0))?,
+            part_number: structure.find_string(structure.get(0x1A).unwrap_or(0))?,
+            attributes: structure.get::<u8>(0x1B).unwrap_or(0),
+            extended_size: structure.get::<u32>(0x1C).unwrap_or(0),
             configured_memory_speed: structure.get::<u16>(0x20).ok().filter(|v| v != &0x0000),
             minimum_voltage: structure.get::<u16>(0x22).ok().filter(|v| v != &0x0000),
             maximum_voltage: structure.get::<u16>(0x24).ok().filter(|v| v != &0x0000),
-- 
2.43.0


From 1ed50bad9cf4f758a2b4a439f5d16fa15f3ea72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:06 +0000
Subject: [PATCH 33/39] fix: report the minimum enclosure length with its
 header

---
 src/structures/003_enclosure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/003_enclosure.rs b/src/structures/003_enclosure.rs
index e371d52..ebe9393 100644
--- a/src/structures/003_enclosure.rs
+++ b/src/structures/003_enclosure.rs
@@ -197,7 +197,7 @@ impl<'buffer> Enclosure<'buffer> {
                 structure.info,
                 structure.handle,
                 "minimum of ",
-                core::mem::size_of::<EnclosurePacked2_0>() as u8,
+                (core::mem::size_of::<EnclosurePacked2_0>() + core::mem::size_of::<HeaderPacked>()) as u8,
             ));
         }
 
-- 
2.43.0


From 341d8318ca9b63539e5cf5f5f8ff6ec95d608780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:06 +0000
Subject: [PATCH 34/39] fix: report the minimum length of group associations,
 not the actual one

---
 src/structures/014_group_associations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structures/014_group_associations.rs b/src/structures/014_group_associations.rs
index 5eee4d7..dc89e85 100644
--- a/src/structures/014_group_associations.rs
+++ b/src/structures/014_group_associations.rs
@@ -46,8 +46,8 @@ impl<'a> GroupAssociations<'a> {
             .ok_or(InvalidFormattedSectionLength(
                 InfoType::GroupAssociations,
                 handle,
-                "",
-                structure.length,
+                "minimum of ",
+                0x05,
             ))?;
         Ok(GroupAssociations {
             handle,
-- 
2.43.0


From 08a8c4ff4693beb9cadeb351fa2efbe7b90df544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:06 +0000
Subject: [PATCH 35/39] fix: report the minimum event log length

---
 src/structures/015_system_event_log/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index f412cb1..ecdabdd 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -181,7 +181,7 @@ impl<'a> SystemEventLog<'a> {
                         InfoType::SystemEventLog,
                         handle,
                         "minimum of ",
-                        0,
+                        0x17,
                     ))
                 }
             }
-- 
2.43.0


From ccd517b8a7cd558b8ba62a92cd4a65d6c6f0fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:06 +0000
Subject: [PATCH 36/39] fix: do not truncate the event log length declared by
 its descriptors

---
 src/structures/015_system_event_log/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/structures/015_system_event_log/mod.rs b/src/structures/015_system_event_log/mod.rs
index ecdabdd..1ea0981 100644
--- a/src/structures/015_system_event_log/mod.rs
+++ b/src/structures/015_system_event_log/mod.rs
@@ -170,11 +170,16 @@ impl<'a> SystemEventLog<'a> {
             )),
             (v, l) if v >= (2, 1) && Some(l) != len_gt_2_1 => {
                 if let Some(len) = len_gt_2_1 {
+                    // a structure is never longer than 255 bytes
+                    let (spec, len) = match u8::try_from(len) {
+                        Ok(len) => ("17h+(x*y) = ", len),
+                        Err(_) => ("17h+(x*y), more than ", u8::MAX),
+                    };
                     Err(InvalidFormattedSectionLength(
                         InfoType::SystemEventLog,
                         handle,
-                        "17h+(x*y) = ",
-                        len as u8,
+                        spec,
+                        len,
                     ))
                 } else {
                     Err(InvalidFormattedSectionLength(
-- 
2.43.0


From 9e9d84e6b69282734c53ac0d1f4eb4325b564d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:06 +0000
Subject: [PATCH 37/39] fix: separate the number in the memory device length
 error

---
 src/structures/017_memory_device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structures/017_memory_device.rs b/src/structures/017_memory_device.rs
index d79eba0..83775fd 100644
--- a/src/structures/017_memory_device.rs
+++ b/src/structures/017_memory_device.rs
@@ -384,7 +384,7 @@ impl<'a> MemoryDevice<'a> {
             return Err(InvalidFormattedSectionLength(
                 InfoType::MemoryDevice,
                 handle,
-                "at least",
+                "at least ",
                 0x15,
             ));
         }
-- 
2.43.0


From 40d68eff5a685b891e75b8b0b132de6d6576638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:53 +0000
Subject: [PATCH 38/39] fix: iterate bit fields whose layout is shorter than
 the value

The trait's default layout is empty, and so is that of a default Iter:
iterating either panicked. Bits the layout does not describe are Unknown.
---
 src/bitfield.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bitfield.rs b/src/bitfield.rs
index 80b78b9..4092e83 100644
--- a/src/bitfield.rs
+++ b/src/bitfield.rs
@@ -188,7 +188,8 @@ impl<'a, T: Into<u128> + Copy> Iterator for Iter<'a, T> {
             Some(Flag {
                 position: Position(p),
                 is_set,
-                type_: self.layout[p],
+                // bits without description in the layout are unknown
+                type_: self.layout.get(p).copied().unwrap_or_default(),
             })
         }
     }
-- 
2.43.0


From 1bf7864f4eb66bba042c10119420f4a605ab3320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:08 +0000
Subject: [PATCH 39/39] fix: walk tables in buffers larger than 4 GiB

---
 src/lib.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1d4d5d4..0d40a64 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -165,8 +165,8 @@ impl EntryPoint {
         Structures {
             smbios_version: self.to_version(),
             // never walk past the end of the buffer, however long the entry point says the table is
-            smbios_len: self.smbios_len().min(buffer.len().try_into().unwrap_or(u32::MAX)),
-            idx: 0u32,
+            smbios_len: (self.smbios_len() as usize).min(buffer.len()),
+            idx: 0,
             buffer,
         }
     }
@@ -357,8 +357,8 @@ fn find_signature(buffer: &[u8]) -> Option<(EntryPointFormat, usize)> {
 #[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct Structures<'buffer> {
     smbios_version: SmbiosVersion,
-    smbios_len: u32,
-    idx: u32,
+    smbios_len: usize,
+    idx: usize,
     buffer: &'buffer [u8],
 }
 
@@ -523,23 +523,23 @@ impl<'buffer> Iterator for Structures<'buffer> {
 
 impl<'buffer> Structures<'buffer> {
     fn next_raw(&mut self) -> Option<Result<RawStructure<'buffer>, MalformedStructureError>> {
-        if (self.idx + mem::size_of::<HeaderPacked>() as u32) > self.smbios_len {
+        if (self.idx + mem::size_of::<HeaderPacked>()) > self.smbios_len {
             return None;
         }
 
-        let working = &self.buffer[(self.idx as usize)..];
+        let working = &self.buffer[self.idx..];
         let_as_struct!(header, HeaderPacked, working);
 
-        let strings_idx: u32 = self.idx + header.len as u32;
+        let strings_idx = self.idx + header.len as usize;
         if (header.len as usize) < mem::size_of::<HeaderPacked>() || strings_idx >= self.smbios_len {
-            return Some(Err(MalformedStructureError::BadSize(self.idx, header.len)));
+            return Some(Err(MalformedStructureError::BadSize(self.idx as u32, header.len)));
         }
 
-        let term = find_nulnul(&self.buffer[(strings_idx as usize)..]);
+        let term = find_nulnul(&self.buffer[strings_idx..]);
         let strings_len = match term {
-            Some(terminator) => (terminator + 1) as u32,
+            Some(terminator) => terminator + 1,
             None => {
-                return Some(Err(MalformedStructureError::UnterminatedStrings(self.idx)));
+                return Some(Err(MalformedStructureError::UnterminatedStrings(self.idx as u32)));
             }
         };
 
@@ -548,8 +548,8 @@ impl<'buffer> Structures<'buffer> {
             info: header.kind.into(),
             length: header.len,
             handle: header.handle,
-            data: &self.buffer[(self.idx + mem::size_of::<HeaderPacked>() as u32) as usize..strings_idx as usize],
-            strings: &self.buffer[strings_idx as usize..(strings_idx + strings_len) as usize],
+            data: &self.buffer[(self.idx + mem::size_of::<HeaderPacked>())..strings_idx],
+            strings: &self.buffer[strings_idx..(strings_idx + strings_len)],
         };
 
         self.idx = strings_idx + strings_len;
-- 
2.43.0


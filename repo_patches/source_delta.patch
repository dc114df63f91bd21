From d28a133552e3626bf4dff2fb0c4ac6403f11cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:59 +0000
Subject: [PATCH 01/26] fix: validate the extension data of an update buffer,
 not its header

---
 programs/asset/program/src/processor/update.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index ca6ccd8..b433e75 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -202,10 +202,12 @@ pub fn process_update(
             drop(extension_data);
 
             let start = offset + Extension::LEN;
+            // the extension data is located after the extension header
+            let buffer_start = Asset::LEN + Extension::LEN;
             // validate the extension data
             validate(
                 extension_type,
-                &mut buffer.try_borrow_mut_data()?[Asset::LEN..Asset::LEN + header_length],
+                &mut buffer.try_borrow_mut_data()?[buffer_start..buffer_start + header_length],
                 if update {
                     Some(&mut account_data[start..start + current_length])
                 } else {
-- 
2.43.0


From b3b1c1160eeb41c3cada2f2c9cd09b9048ca02b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 02/26] fix: validate inline updates that carry no extension
 data

---
 .../asset/program/src/processor/update.rs     | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index b433e75..c2fb486 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -221,25 +221,22 @@ pub fn process_update(
 
             (header_length, None)
         } else if let Some(args) = args.extension {
-            let length = if let Some(mut extension_data) = args.data {
-                let start = offset + Extension::LEN;
-                // validate the extension data
-                validate(
-                    extension_type,
-                    extension_data.as_mut_slice(),
-                    if update {
-                        Some(&mut account_data[start..start + current_length])
-                    } else {
-                        None
-                    },
-                    ctx.accounts.authority.key(),
-                )?;
+            // extension might not have any data
+            let mut extension_data = args.data.unwrap_or_default();
+            let start = offset + Extension::LEN;
+            // validate the extension data
+            validate(
+                extension_type,
+                extension_data.as_mut_slice(),
+                if update {
+                    Some(&mut account_data[start..start + current_length])
+                } else {
+                    None
+                },
+                ctx.accounts.authority.key(),
+            )?;
 
-                (extension_data.len(), Some(extension_data))
-            } else {
-                // extension does not have any data
-                (0, None)
-            };
+            let length = (extension_data.len(), Some(extension_data));
 
             #[cfg(feature = "logging")]
             msg!("Updating extension from instruction data");
-- 
2.43.0


From 19ab0097bebb9f9ea879679c69375633bb3771c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 03/26] fix: update of an asset with unused space after its
 extensions

---
 programs/asset/program/src/processor/update.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index c2fb486..58b832a 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -158,16 +158,16 @@ pub fn process_update(
         //   - update flag (false when creating the extension)
         let mut extension = None;
 
-        while offset < account_data.len() {
+        while offset + Extension::LEN <= account_data.len() {
             let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
             match current.try_extension_type() {
+                Ok(ExtensionType::None) => break,
                 Ok(t) if t == extension_type => {
                     extension =
                         Some((current.length() as usize, current.boundary() as usize, true));
                     break;
                 }
-                Ok(ExtensionType::None) => break,
                 _ => offset = current.boundary() as usize,
             }
         }
@@ -345,8 +345,14 @@ pub fn process_update(
         // updates the boundaries of any subsequent extensions
         let mut cursor = updated_boundary;
 
-        while cursor < account_data.len() {
+        while cursor + Extension::LEN <= account_data.len() {
             let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+
+            // the remaining account data does not have any extension
+            if matches!(extension.try_extension_type(), Ok(ExtensionType::None)) {
+                break;
+            }
+
             let boundary = extension.boundary().saturating_add_signed(delta);
             extension.set_boundary(boundary);
             cursor = boundary as usize;
-- 
2.43.0


From 756889b9f1d563e5db5e4ae786c5a4a91c558b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 04/26] fix: removal of an extension without data at the end of
 the account

---
 programs/asset/program/src/processor/remove.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 3cfbd62..0d0e5a7 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -71,15 +71,15 @@ pub fn process_remove(
     let mut offset = Asset::LEN;
     let mut boundary = None;
 
-    while offset + Extension::LEN < account_data.len() {
+    while offset + Extension::LEN <= account_data.len() {
         let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
         match current.try_extension_type() {
+            Ok(ExtensionType::None) => break,
             Ok(t) if t == extension_type => {
                 boundary = Some(current.boundary() as usize);
                 break;
             }
-            Ok(ExtensionType::None) => break,
             _ => offset = current.boundary() as usize,
         }
     }
-- 
2.43.0


From e8fe6f35d3bb764fa8f3789c74a1f8831c3bdd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 05/26] fix: adjust the boundaries of the extensions moved by a
 removal

---
 programs/asset/program/src/processor/remove.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 0d0e5a7..cdde185 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -136,5 +136,23 @@ pub fn process_remove(
         None,
     )?;
 
+    // updates the boundaries of the extensions that were moved
+
+    let mut account_data = ctx.accounts.asset.try_borrow_mut_data()?;
+    let mut cursor = offset;
+
+    while cursor + Extension::LEN <= account_data.len() {
+        let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+
+        // the remaining account data does not have any extension
+        if matches!(extension.try_extension_type(), Ok(ExtensionType::None)) {
+            break;
+        }
+
+        let boundary = extension.boundary().saturating_sub(bytes_to_remove as u32);
+        extension.set_boundary(boundary);
+        cursor = boundary as usize;
+    }
+
     Ok(())
 }
-- 
2.43.0


From a3e1dc064d9c32870085cdefca9271d9659ba79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 06/26] fix: total share of creators must not wrap around

---
 programs/asset/types/src/extensions/creators.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index c2b9c5a..236c85c 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -67,7 +67,7 @@ impl<'a> ExtensionDataMut<'a> for CreatorsMut<'a> {
 impl Lifecycle for CreatorsMut<'_> {
     /// Validates the creators' share added up to `100`.
     fn on_create(&mut self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u8;
 
         self.creators.iter_mut().for_each(|creator| {
             // creators are always initialized as unverified, unless it matches
@@ -77,7 +77,7 @@ impl Lifecycle for CreatorsMut<'_> {
             } else {
                 false.into()
             };
-            total += creator.share;
+            total = total.saturating_add(creator.share);
         });
 
         if total != TOTAL_SHARE {
@@ -88,7 +88,7 @@ impl Lifecycle for CreatorsMut<'_> {
     }
 
     fn on_update(&mut self, other: &mut Self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u8;
         other.creators.iter_mut().for_each(|creator| {
             if let Some(original) = self.get(&creator.address) {
                 // creators maintain their verified status
@@ -102,7 +102,7 @@ impl Lifecycle for CreatorsMut<'_> {
                     false.into()
                 };
             }
-            total += creator.share;
+            total = total.saturating_add(creator.share);
         });
 
         if total != 100 {
-- 
2.43.0


From fff5f611bd1fef8b166936a642044afb40f88c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 07/26] fix: authorize either the delegate of the holder or the
 manager

---
 programs/asset/program/src/utils.rs | 42 +++++++++++++----------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/programs/asset/program/src/utils.rs b/programs/asset/program/src/utils.rs
index f726f1c..38bf6e8 100644
--- a/programs/asset/program/src/utils.rs
+++ b/programs/asset/program/src/utils.rs
@@ -5,7 +5,7 @@ use nifty_asset_types::{
 use nitrate::program::AccountInfo;
 use solana_program::{entrypoint::ProgramResult, pubkey::Pubkey, system_program};
 
-use crate::{error::AssetError, require};
+use crate::{err, error::AssetError};
 
 #[inline(always)]
 pub fn close_program_account(account: &AccountInfo, recipient: &AccountInfo) -> ProgramResult {
@@ -26,36 +26,30 @@ pub fn close_program_account(account: &AccountInfo, recipient: &AccountInfo) ->
     Ok(())
 }
 
-#[allow(clippy::manual_try_fold)]
 #[inline(always)]
 pub fn assert_delegate(
     delegates: &[Option<&Delegate>],
     target: &Pubkey,
     role: DelegateRole,
 ) -> ProgramResult {
-    delegates.iter().fold(
-        Err(AssetError::DelegateNotFound.into()),
-        |result, delegate| {
-            if let Some(delegate) = delegate {
-                require!(
-                    *delegate.address == *target,
-                    AssetError::InvalidDelegate,
-                    "invalid delegate"
-                );
-
-                require!(
-                    delegate.is_active(role),
-                    AssetError::DelegateRoleNotActive,
-                    "missing \"{:?}\" role",
-                    role
-                );
+    let mut result = Err(AssetError::DelegateNotFound.into());
+
+    // any of the delegates with the required role can authorize
+    for delegate in delegates.iter().flatten() {
+        result = if *delegate.address != *target {
+            err!(AssetError::InvalidDelegate, "invalid delegate")
+        } else if !delegate.is_active(role) {
+            err!(
+                AssetError::DelegateRoleNotActive,
+                "missing \"{:?}\" role",
+                role
+            )
+        } else {
+            return Ok(());
+        };
+    }
 
-                Ok(())
-            } else {
-                result
-            }
-        },
-    )
+    result
 }
 
 #[macro_export]
-- 
2.43.0


From 3a207f856e83573439849e55f480499296f6e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 08/26] fix: do not allocate extensions without a type

---
 programs/asset/program/src/processor/allocate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/allocate.rs b/programs/asset/program/src/processor/allocate.rs
index fdc4e71..031857c 100644
--- a/programs/asset/program/src/processor/allocate.rs
+++ b/programs/asset/program/src/processor/allocate.rs
@@ -1,5 +1,5 @@
 use nifty_asset_types::{
-    extensions::Extension,
+    extensions::{Extension, ExtensionType},
     podded::ZeroCopy,
     state::{Asset, Discriminator},
 };
@@ -40,6 +40,12 @@ pub fn process_allocate(
         "asset"
     );
 
+    require!(
+        args.extension.extension_type != ExtensionType::None,
+        AssetError::ExtensionDataInvalid,
+        "extension type"
+    );
+
     // offset on the account data where the new extension will be written; this will
     // include any padding required to maintain the 8-bytes alignment
     let (exists, offset) = if ctx.accounts.asset.data_is_empty() {
-- 
2.43.0


From d1fa0fc956b4d600e61f9c93ee16feba79726455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 09/26] fix: refuse extensions whose boundary cannot be
 represented

---
 programs/asset/program/src/processor/allocate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/allocate.rs b/programs/asset/program/src/processor/allocate.rs
index 031857c..2091db6 100644
--- a/programs/asset/program/src/processor/allocate.rs
+++ b/programs/asset/program/src/processor/allocate.rs
@@ -200,6 +200,9 @@ fn save_extension_data(
     .map_err(|_| AssetError::InvalidAlignment)?
     .pad_to_align()
     .size();
+    // the boundary is stored on the extension header as a u32 value
+    let header_boundary =
+        u32::try_from(boundary).map_err(|_| AssetError::ExtensionLengthInvalid)?;
     // there are two aspects to consider when resizing the account:
     //
     //   1. if the instruction data length is the same as the extension length,
@@ -231,7 +234,7 @@ fn save_extension_data(
 
     extension.set_extension_type(args.extension_type);
     extension.set_length(args.length);
-    extension.set_boundary(boundary as u32);
+    extension.set_boundary(header_boundary);
 
     if !data.is_empty() {
         sol_memcpy(&mut asset_data[offset + Extension::LEN..], data, data.len());
-- 
2.43.0


From 7d0222583ce18315855eab96cfbbc46667d088fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 10/26] fix: keep written extension data within its announced
 length and alignment

---
 programs/asset/program/src/processor/write.rs | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 7a9d870..f0b372b 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -90,35 +90,35 @@ pub(crate) fn process_write(
         #[cfg(feature = "logging")]
         msg!("Overwriting extension data");
 
-        resize(
-            offset.saturating_add(data.bytes.len()),
-            ctx.accounts.asset,
-            Some(ctx.accounts.payer),
-            Some(ctx.accounts.system_program),
-        )?;
         // when overwriting, we start from the beginning of the offset
         offset
     } else {
         #[cfg(feature = "logging")]
         msg!("Appending extension data");
 
-        let offset = ctx.accounts.asset.data_len();
-        let mut extended = offset.saturating_add(data.bytes.len());
-
-        if extended == expected {
-            extended = boundary as usize;
-        }
-
-        resize(
-            extended,
-            ctx.accounts.asset,
-            Some(ctx.accounts.payer),
-            Some(ctx.accounts.system_program),
-        )?;
         // the offset is the end of the account
-        offset
+        ctx.accounts.asset.data_len()
     };
 
+    let mut extended = offset.saturating_add(data.bytes.len());
+    // the data must fit in the length of the extension
+    require!(
+        extended <= expected,
+        AssetError::ExtensionLengthInvalid,
+        "extension length mismatch"
+    );
+
+    if extended == expected {
+        extended = boundary as usize;
+    }
+
+    resize(
+        extended,
+        ctx.accounts.asset,
+        Some(ctx.accounts.payer),
+        Some(ctx.accounts.system_program),
+    )?;
+
     // copy the data to the buffer
 
     sol_memcpy(
-- 
2.43.0


From b7e23ae28199edb7983396d915fd0087cc7f8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:20 +0000
Subject: [PATCH 11/26] fix: refuse constraints over an unknown account

---
 programs/asset/types/src/constraints/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/programs/asset/types/src/constraints/mod.rs b/programs/asset/types/src/constraints/mod.rs
index 5caa944..86cc706 100644
--- a/programs/asset/types/src/constraints/mod.rs
+++ b/programs/asset/types/src/constraints/mod.rs
@@ -93,7 +93,17 @@ unsafe impl Pod for Account {}
 
 unsafe impl Zeroable for Account {}
 
-impl ZeroCopy<'_, Account> for Account {}
+impl<'a> ZeroCopy<'a, Account> for Account {
+    fn load(data: &'a [u8]) -> &'a Self {
+        let data = &data[..std::mem::size_of::<Account>()];
+
+        // only the values of the enum variants can be reinterpreted as an `Account`
+        match bytemuck::pod_read_unaligned::<u64>(data) {
+            0..=2 => bytemuck::from_bytes(data),
+            value => panic!("invalid account value: {value}"),
+        }
+    }
+}
 
 /// Helper macro to "extract" the account from a `Context` given its name.
 #[macro_export]
-- 
2.43.0


From fb336913ff84bb0fbe41013c9e60cfeb294c1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:20 +0000
Subject: [PATCH 12/26] fix: serialize the operator of a negated constraint
 once

---
 programs/asset/types/src/constraints/not.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/programs/asset/types/src/constraints/not.rs b/programs/asset/types/src/constraints/not.rs
index 126546f..96fabb9 100644
--- a/programs/asset/types/src/constraints/not.rs
+++ b/programs/asset/types/src/constraints/not.rs
@@ -29,10 +29,7 @@ impl Assertable for Not<'_> {
     }
 
     fn as_bytes(&self) -> Vec<u8> {
-        let mut bytes = Vec::with_capacity(self.constraint.size());
-        bytes.extend_from_slice(bytemuck::bytes_of(self.constraint.operator));
-        bytes.extend_from_slice(self.constraint.as_bytes().as_ref());
-        bytes
+        self.constraint.as_bytes()
     }
 }
 
-- 
2.43.0


From 1934380fea1cda67cae64b37c1f079bffd4c0d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:20 +0000
Subject: [PATCH 13/26] fix: read numbers and booleans of properties without
 reinterpreting their bytes

---
 .../asset/types/src/extensions/properties.rs  | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/programs/asset/types/src/extensions/properties.rs b/programs/asset/types/src/extensions/properties.rs
index 3d52fcc..827ae27 100644
--- a/programs/asset/types/src/extensions/properties.rs
+++ b/programs/asset/types/src/extensions/properties.rs
@@ -238,14 +238,21 @@ impl Deref for Text<'_> {
 /// A numeric value in a property.
 pub struct Number<'a> {
     pub value: &'a [u8; 8],
+
+    /// Value of the number (the bytes in the extension might not be aligned).
+    number: u64,
 }
 
 impl<'a> Number<'a> {
     fn from_bytes(bytes: &'a [u8]) -> Self {
         const START: usize = std::mem::size_of::<Type>();
-        let value = bytemuck::from_bytes(&bytes[START..START + std::mem::size_of::<u64>()]);
+        let value: &[u8; 8] =
+            bytemuck::from_bytes(&bytes[START..START + std::mem::size_of::<u64>()]);
 
-        Self { value }
+        Self {
+            value,
+            number: u64::from_le_bytes(*value),
+        }
     }
 }
 
@@ -265,20 +272,27 @@ impl Deref for Number<'_> {
     type Target = u64;
 
     fn deref(&self) -> &Self::Target {
-        unsafe { &*(self.value as *const u8 as *const u64) }
+        &self.number
     }
 }
 
 /// A boolean value in a property.
 pub struct Boolean<'a> {
     pub value: &'a u8,
+
+    /// Value of the boolean (any non-zero byte represents `true`).
+    boolean: bool,
 }
 
 impl<'a> Boolean<'a> {
     fn from_bytes(bytes: &'a [u8]) -> Self {
         const START: usize = std::mem::size_of::<Type>();
-        let value = bytemuck::from_bytes(&bytes[START..START + std::mem::size_of::<u8>()]);
-        Self { value }
+        let value: &u8 = bytemuck::from_bytes(&bytes[START..START + std::mem::size_of::<u8>()]);
+
+        Self {
+            value,
+            boolean: *value != 0,
+        }
     }
 }
 
@@ -298,7 +312,7 @@ impl Deref for Boolean<'_> {
     type Target = bool;
 
     fn deref(&self) -> &Self::Target {
-        unsafe { std::mem::transmute::<&u8, &bool>(self.value) }
+        &self.boolean
     }
 }
 
-- 
2.43.0


From f5ae46132a9373af59d61cf14dc335b427cad94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:20 +0000
Subject: [PATCH 14/26] fix: do not reinterpret a property as a value of
 another type

---
 .../asset/types/src/extensions/properties.rs  | 40 +++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/programs/asset/types/src/extensions/properties.rs b/programs/asset/types/src/extensions/properties.rs
index 827ae27..7c7b13f 100644
--- a/programs/asset/types/src/extensions/properties.rs
+++ b/programs/asset/types/src/extensions/properties.rs
@@ -19,12 +19,13 @@ pub struct Properties<'a> {
 impl Properties<'_> {
     /// Get the value of a property by name.
     ///
-    /// If no value is found under the `name`, returns `None`.
+    /// If no value of type `T` is found under the `name`, returns `None`.
     pub fn get<T: Value>(&self, name: &str) -> Option<&T> {
         if let Some(pointer) = self
             .values
             .iter()
             .find(|t| t.name.as_str() == name)
+            .filter(|p| p.value.value_type() == T::type_of())
             .map(|p| &*p.value as *const dyn Value as *const T)
         {
             unsafe { pointer.as_ref() }
@@ -78,12 +79,13 @@ pub struct PropertiesMut<'a> {
 impl PropertiesMut<'_> {
     /// Get the value of a property by name.
     ///
-    /// If no value is found under the `name`, returns `None`.
+    /// If no value of type `T` is found under the `name`, returns `None`.
     pub fn get<T: Value>(&self, name: &str) -> Option<&T> {
         if let Some(pointer) = self
             .values
             .iter()
             .find(|t| t.name.as_str() == name)
+            .filter(|p| p.value.value_type() == T::type_of())
             .map(|p| &*p.value as *const dyn Value as *const T)
         {
             unsafe { pointer.as_ref() }
@@ -161,6 +163,14 @@ impl Debug for Property<'_> {
 
 /// Trait representing a value in a property.
 pub trait Value: Debug {
+    /// Type represented by the `Self` type.
+    fn type_of() -> Type
+    where
+        Self: Sized;
+
+    /// Type of the value.
+    fn value_type(&self) -> Type;
+
     fn size(&self) -> usize;
 }
 
@@ -168,7 +178,7 @@ pub trait Value: Debug {
 ///
 /// This is used to "encode" the type on the serialized data.
 #[repr(u8)]
-#[derive(Clone, Copy)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum Type {
     Text,
     Number,
@@ -216,6 +226,14 @@ impl<'a> Text<'a> {
 }
 
 impl Value for Text<'_> {
+    fn type_of() -> Type {
+        Type::Text
+    }
+
+    fn value_type(&self) -> Type {
+        Self::type_of()
+    }
+
     fn size(&self) -> usize {
         std::mem::size_of::<Type>() + self.value.size()
     }
@@ -257,6 +275,14 @@ impl<'a> Number<'a> {
 }
 
 impl Value for Number<'_> {
+    fn type_of() -> Type {
+        Type::Number
+    }
+
+    fn value_type(&self) -> Type {
+        Self::type_of()
+    }
+
     fn size(&self) -> usize {
         std::mem::size_of::<Type>() + std::mem::size_of_val(self.value)
     }
@@ -297,6 +323,14 @@ impl<'a> Boolean<'a> {
 }
 
 impl Value for Boolean<'_> {
+    fn type_of() -> Type {
+        Type::Boolean
+    }
+
+    fn value_type(&self) -> Type {
+        Self::type_of()
+    }
+
     fn size(&self) -> usize {
         std::mem::size_of::<Type>() + std::mem::size_of_val(self.value)
     }
-- 
2.43.0


From 0604d91f8156480ab9c763c89fab82bf2e0607d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:20 +0000
Subject: [PATCH 15/26] fix: do not hand out mutable references to constants

---
 programs/asset/types/src/extensions/grouping.rs | 4 +++-
 programs/asset/types/src/extensions/metadata.rs | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/programs/asset/types/src/extensions/grouping.rs b/programs/asset/types/src/extensions/grouping.rs
index 11d28f8..a7c6563 100644
--- a/programs/asset/types/src/extensions/grouping.rs
+++ b/programs/asset/types/src/extensions/grouping.rs
@@ -89,7 +89,9 @@ impl<'a> ExtensionDataMut<'a> for GroupingMut<'a> {
             // backwards compatibility for grouping extension: if there are not enough
             // bytes to read the delegate, we assume it is empty
             delegate: bytemuck::from_bytes_mut(if delegate.len() < EMPTY.len() {
-                unsafe { (&EMPTY as *const [u8] as *mut [u8]).as_mut().unwrap() }
+                // there is no space in the extension to hold a value, so a (writable)
+                // temporary one is used
+                Box::leak(Box::new(EMPTY))
             } else {
                 delegate
             }),
diff --git a/programs/asset/types/src/extensions/metadata.rs b/programs/asset/types/src/extensions/metadata.rs
index a231dab..66a36a0 100644
--- a/programs/asset/types/src/extensions/metadata.rs
+++ b/programs/asset/types/src/extensions/metadata.rs
@@ -115,9 +115,10 @@ impl<'a> ExtensionDataMut<'a> for MetadataMut<'a> {
         let image_uri = if image_uri.is_empty() {
             // backwards compatibility for metadata extension: if there are not enough
             // bytes to read the image_uri, we assume it is empty
-            U8PrefixStrMut::from_bytes_mut(unsafe {
-                (&ZERO_STR as *const [u8] as *mut [u8]).as_mut().unwrap()
-            })
+            //
+            // there is no space in the extension to hold a value, so a (writable)
+            // temporary one is used
+            U8PrefixStrMut::from_bytes_mut(Box::leak(Box::new(ZERO_STR)))
         } else {
             U8PrefixStrMut::from_bytes_mut(image_uri)
         };
-- 
2.43.0


From d70c014eda5691bbb47a7461cb12ef409c1a9e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:37 +0000
Subject: [PATCH 16/26] fix: support more than 255 creators in the builder

---
 programs/asset/types/src/extensions/creators.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index 236c85c..5a06aa1 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -159,9 +159,6 @@ impl ZeroCopy<'_, Creator> for Creator {}
 /// Builder for a `Creators` extension.
 #[derive(Default)]
 pub struct CreatorsBuilder {
-    /// The current number of creators.
-    count: u8,
-
     /// The extension data.
     data: Vec<u8>,
 }
@@ -169,14 +166,12 @@ pub struct CreatorsBuilder {
 impl CreatorsBuilder {
     pub fn with_capacity(capacity: usize) -> Self {
         Self {
-            count: 0,
             data: Vec::with_capacity(capacity),
         }
     }
 
     pub fn with_buffer(buffer: Vec<u8>) -> Self {
         let mut s = Self {
-            count: 0,
             data: buffer,
         };
         s.data.clear();
@@ -186,17 +181,15 @@ impl CreatorsBuilder {
     /// Add a new creator to the extension.
     pub fn add(&mut self, addresss: &Pubkey, verified: bool, share: u8) -> &mut Self {
         // extends the data buffer
+        let offset = self.data.len();
         self.data
             .append(&mut vec![0u8; std::mem::size_of::<Creator>()]);
-        let offset = self.count as usize * std::mem::size_of::<Creator>();
 
         let creator = Creator::load_mut(&mut self.data[offset..]);
         creator.address = *addresss;
         creator.verified = verified.into();
         creator.share = share;
 
-        self.count += 1;
-
         self
     }
 }
-- 
2.43.0


From f664e5418fd876403545c8bb126a0c9bcfcc40bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:37 +0000
Subject: [PATCH 17/26] fix: type of the mutable proxy extension

---
 programs/asset/types/src/extensions/proxy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/types/src/extensions/proxy.rs b/programs/asset/types/src/extensions/proxy.rs
index abef803..0c46abd 100644
--- a/programs/asset/types/src/extensions/proxy.rs
+++ b/programs/asset/types/src/extensions/proxy.rs
@@ -82,7 +82,7 @@ pub struct ProxyMut<'a> {
 }
 
 impl<'a> ExtensionDataMut<'a> for ProxyMut<'a> {
-    const TYPE: ExtensionType = ExtensionType::Manager;
+    const TYPE: ExtensionType = ExtensionType::Proxy;
 
     fn from_bytes_mut(bytes: &'a mut [u8]) -> Self {
         let (program, remainder) = bytes.split_at_mut(std::mem::size_of::<Pubkey>());
-- 
2.43.0


From 8faa5f5b7e46be9c7961e51bf4b42a35be75de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:11 +0000
Subject: [PATCH 18/26] fix: recognize the resize instruction in the interface
 processor

---
 programs/asset/interface/src/processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/asset/interface/src/processor.rs b/programs/asset/interface/src/processor.rs
index 386a8b6..5f84013 100644
--- a/programs/asset/interface/src/processor.rs
+++ b/programs/asset/interface/src/processor.rs
@@ -78,6 +78,7 @@ macro_rules! log_instruction_name {
             14 => "Ungroup",
             15 => "Handover",
             16 => "Remove",
+            17 => "Resize",
             _ => return Err(solana_program::program_error::ProgramError::InvalidInstructionData),
         };
 
-- 
2.43.0


From 7397d707f03fa46502c686bc86523cd196a6d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:11 +0000
Subject: [PATCH 19/26] fix: do not lend the signature of a proxied asset to
 other accounts

---
 programs/asset/interface/src/processor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/programs/asset/interface/src/processor.rs b/programs/asset/interface/src/processor.rs
index 5f84013..6bf9e04 100644
--- a/programs/asset/interface/src/processor.rs
+++ b/programs/asset/interface/src/processor.rs
@@ -96,6 +96,13 @@ impl Interface {
         log_instruction_name!(instruction_data);
 
         let asset = accounts.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
+
+        // the asset signs the forwarded instruction, but its signature must not
+        // be used to authorize it in place of the authority, owner or delegate
+        if accounts[1..].iter().any(|account| account.key == asset.key) {
+            return Err(ProgramError::InvalidArgument);
+        }
+
         let data = (*asset.data).borrow();
         fetch_proxy_data!(&data, signer, _authority);
         // drop the data before invoking the CPI
-- 
2.43.0


From 5af27f6e404d4a5eecc08f423307f31b486854bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:58 +0000
Subject: [PATCH 20/26] fix: report damaged IDL sections instead of panicking

---
 include-idl/src/parse.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/include-idl/src/parse.rs b/include-idl/src/parse.rs
index 3c5889d..40ec35f 100644
--- a/include-idl/src/parse.rs
+++ b/include-idl/src/parse.rs
@@ -70,20 +70,21 @@ pub fn parse_idl_from_program_binary(buffer: &[u8]) -> goblin::error::Result<(Id
 
         match name {
             IDL_DATA_SECTION => {
-                let (location, size) = get_section_data_offset(buffer, sh.sh_offset as usize);
-
-                let slice = &buffer[location..location + size];
+                let slice = get_section_data(buffer, sh.sh_offset as usize)
+                    .ok_or_else(|| malformed("invalid location"))?;
                 let mut compressed_data = ZlibDecoder::new(slice);
                 let mut data = Vec::new();
-                compressed_data.read_to_end(&mut data).unwrap();
+                compressed_data.read_to_end(&mut data)?;
 
-                idl_json = Some(serde_json::from_slice(&data).unwrap());
+                idl_json = Some(serde_json::from_slice(&data).map_err(malformed)?);
             }
             IDL_TYPE_SECTION => {
-                let (location, size) = get_section_data_offset(buffer, sh.sh_offset as usize);
-                let slice = &buffer[location..location + size];
+                let slice = get_section_data(buffer, sh.sh_offset as usize)
+                    .ok_or_else(|| malformed("invalid location"))?;
 
-                idl_type = Some(IdlType::from_str(from_utf8(slice).unwrap()).unwrap());
+                idl_type = Some(
+                    IdlType::from_str(from_utf8(slice).map_err(malformed)?).map_err(malformed)?,
+                );
             }
             // Ignore other sections.
             _ => (),
@@ -101,15 +102,22 @@ pub fn parse_idl_from_program_binary(buffer: &[u8]) -> goblin::error::Result<(Id
     }
 }
 
-/// Retrieves the location and size of an ELF section data.
+/// Error for an IDL section with invalid contents.
+#[cfg(feature = "parse")]
+fn malformed<T: std::fmt::Display>(error: T) -> goblin::error::Error {
+    goblin::error::Error::Malformed(format!("Invalid .idl.* section: {error}"))
+}
+
+/// Retrieves the data of an ELF section.
+///
+/// Returns `None` when the location of the data is not within the buffer.
 #[cfg(feature = "parse")]
 #[inline(always)]
-fn get_section_data_offset(buffer: &[u8], offset: usize) -> (usize, usize) {
-    let slice = &buffer[offset + 4..offset + 8];
-    let location = u32::from_le_bytes(slice.try_into().unwrap());
+fn get_section_data(buffer: &[u8], offset: usize) -> Option<&[u8]> {
+    let header = buffer.get(offset..)?.get(..16)?;
 
-    let slice = &buffer[offset + 8..offset + 16];
-    let size = u64::from_le_bytes(slice.try_into().unwrap());
+    let location = u32::from_le_bytes(header[4..8].try_into().unwrap()) as usize;
+    let size = u64::from_le_bytes(header[8..16].try_into().unwrap()) as usize;
 
-    (location as usize, size as usize)
+    buffer.get(location..)?.get(..size)
 }
-- 
2.43.0


From 4a0adbea2b39d3675e6c200299a523d35a2c1e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:26 +0000
Subject: [PATCH 21/26] fix: keep the first constraint when an and/or builder
 is used again

Building takes the buffer; constraints added afterwards were written where
the operator header goes, so the next build overwrote the first of them.
---
 programs/asset/types/src/constraints/and.rs | 5 +++++
 programs/asset/types/src/constraints/or.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/programs/asset/types/src/constraints/and.rs b/programs/asset/types/src/constraints/and.rs
index a464422..5148aa0 100644
--- a/programs/asset/types/src/constraints/and.rs
+++ b/programs/asset/types/src/constraints/and.rs
@@ -60,6 +60,11 @@ impl Default for AndBuilder {
 impl AndBuilder {
     /// Add a new constraint.
     pub fn add(&mut self, constraint: &mut dyn ConstraintBuilder) {
+        // building takes the buffer: reserve the operator header again
+        if self.0.is_empty() {
+            self.0.resize(std::mem::size_of::<Operator>(), 0);
+        }
+
         self.0.extend_from_slice(constraint.build().as_ref());
     }
 }
diff --git a/programs/asset/types/src/constraints/or.rs b/programs/asset/types/src/constraints/or.rs
index 483054e..b194a2e 100644
--- a/programs/asset/types/src/constraints/or.rs
+++ b/programs/asset/types/src/constraints/or.rs
@@ -63,6 +63,11 @@ impl Default for OrBuilder {
 impl OrBuilder {
     /// Add a new constraint.
     pub fn add(&mut self, constraint: &mut dyn ConstraintBuilder) {
+        // building takes the buffer: reserve the operator header again
+        if self.0.is_empty() {
+            self.0.resize(std::mem::size_of::<Operator>(), 0);
+        }
+
         self.0.extend_from_slice(constraint.build().as_ref());
     }
 }
-- 
2.43.0


From 37b9120a87ca17609a822975c14172444089af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 22/26] fix: read assets with fewer spare bytes than an
 extension header

---
 clients/js/asset/src/hooked/internalAssetAccountData.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index bec5559..823c770 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -55,9 +55,11 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
     let finalOffset = assetOffset;
     const extensions: TypedExtension[] = [];
 
-    // Extensions.
-    while (finalOffset < buffer.length) {
-      const [header, headerOffset] = getExtensionHeaderSerializer().deserialize(
+    // Extensions; there might be fewer bytes than a header at the end of the account.
+    const headerSerializer = getExtensionHeaderSerializer();
+    const headerSize = headerSerializer.fixedSize ?? 0;
+    while (finalOffset + headerSize <= buffer.length) {
+      const [header, headerOffset] = headerSerializer.deserialize(
         buffer,
         finalOffset
       );
-- 
2.43.0


From 0b59b55dd3d860de8a60b9dacd8ac9b2826fc0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 23/26] fix: read metadata without image that needs no padding

---
 .../js/asset/src/hooked/internalAssetAccountData.ts | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index 823c770..b3e29e4 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -68,16 +68,15 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
       if (type === ExtensionType.None) {
         break;
       } else if (ExtensionType[type]) {
-        let endOffset = headerOffset + header.length;
+        let data = buffer.subarray(headerOffset, headerOffset + header.length);
         if (type === ExtensionType.Metadata) {
           // backwards compatibility for metadata extension: there is now an 'imageUrl'
-          // on the extension, so we use the extra padding to simulate having it for
-          // assets created before the change.
-          endOffset = header.boundary;
+          // on the extension, so we add an empty one to simulate having it for assets
+          // created before the change.
+          data = new Uint8Array([...data, 0]);
         }
-        const [extension] = getExtensionSerializerFromType(type).deserialize(
-          buffer.subarray(headerOffset, endOffset)
-        );
+        const [extension] =
+          getExtensionSerializerFromType(type).deserialize(data);
         extensions.push({ ...extension, type } as TypedExtension);
       }
 
-- 
2.43.0


From 494e1fce93b1cb4c3f6c25cae8742796699fa738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 24/26] fix: read groups created before the grouping delegate

---
 clients/js/asset/src/hooked/internalAssetAccountData.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index b3e29e4..cc311b0 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -74,6 +74,11 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
           // on the extension, so we add an empty one to simulate having it for assets
           // created before the change.
           data = new Uint8Array([...data, 0]);
+        } else if (type === ExtensionType.Grouping) {
+          // backwards compatibility for grouping extension: there is now a 'delegate'
+          // on the extension, so we add an empty one to simulate having it for groups
+          // created before the change.
+          data = new Uint8Array([...data, ...new Uint8Array(32)]);
         }
         const [extension] =
           getExtensionSerializerFromType(type).deserialize(data);
-- 
2.43.0


From d3b098b272830f356ddcfda017dd424f108a5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 25/26] fix: serialize delegate roles with no role

---
 clients/js/asset/src/hooked/delegateRoles.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clients/js/asset/src/hooked/delegateRoles.ts b/clients/js/asset/src/hooked/delegateRoles.ts
index 3d5f4c5..aeb9b5d 100644
--- a/clients/js/asset/src/hooked/delegateRoles.ts
+++ b/clients/js/asset/src/hooked/delegateRoles.ts
@@ -17,7 +17,9 @@ export function getDelegateRolesSerializer(): Serializer<
   return mapSerializer(
     u8(),
     (delegateRoles) =>
-      delegateRoles.map((role) => 1 << (role - 1)).reduce((a, b) => a | b, 0),
+      delegateRoles
+        .map((role) => (role === DelegateRole.None ? 0 : 1 << (role - 1)))
+        .reduce((a, b) => a | b, 0),
     (rolesMask) => {
       if (rolesMask === 0) {
         return [DelegateRole.None];
-- 
2.43.0


From 64fc8fe95f4227dfb17081e215d1fdad29c619f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:01 +0000
Subject: [PATCH 26/26] fix: address the buffer of a proxied update to the
 asset program

---
 clients/js/asset/src/updateWithBuffer.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clients/js/asset/src/updateWithBuffer.ts b/clients/js/asset/src/updateWithBuffer.ts
index d78ceee..c14fac8 100644
--- a/clients/js/asset/src/updateWithBuffer.ts
+++ b/clients/js/asset/src/updateWithBuffer.ts
@@ -32,16 +32,18 @@ export function updateWithBuffer(
   );
   const chunked = data.length > (input.chunkSize ?? DEFAULT_CHUNK_SIZE);
 
+  // only the update goes through the proxy: the buffer belongs to the asset program
+  let updateContext = context;
   if (input.proxy) {
     const proxied = context.programs.clone();
     proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
+    updateContext = { ...context, programs: proxied };
   }
 
   if (chunked) {
     const buffer = generateSigner(context);
 
-    let updateIx = update(context, {
+    let updateIx = update(updateContext, {
       ...input,
       buffer: buffer.publicKey,
       systemProgram: SYSTEM_PROGRAM_ID,
@@ -81,7 +83,7 @@ export function updateWithBuffer(
       );
   }
 
-  let updateIx = update(context, {
+  let updateIx = update(updateContext, {
     ...input,
     extension: {
       extensionType: input.extension.type,
-- 
2.43.0


From 872574174f357e107ad62e6dc76b3c120e19236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 1/4] fix: ignore unknown bits when deserializing
 array-serialized sets

With serialize_repr = "array" (explicit, or the default for enums whose
largest discriminant is 128 or more), the generated deserializer converted
the words it read with from_array, which panics if a bit that belongs to no
variant is set. Unknown bits are documented to be ignored unless
serialize_deny_unknown is given.
---
 enumset_derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 51c0e5a..90caa20 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -581,7 +581,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 )
             } else {
                 (quote! {}, quote! {
-                    #core::prelude::v1::Ok(#enumset::EnumSet::<#name>::from_array(accum))
+                    #core::prelude::v1::Ok(
+                        #enumset::EnumSet::<#name>::from_array_truncated(accum)
+                    )
                 })
             };
             quote! {
-- 
2.43.0


From b76e9b5647ab012be8e57418ee23d417576816ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 2/4] fix: make serialize_deny_unknown compile with
 serialize_repr = "array"

The generated visitor named the deserializer's type parameter, which is not
in scope there, and returned the bare set instead of a Result, so the derive
produced code that did not compile for this combination of options.
---
 enumset_derive/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 90caa20..3d7e0a7 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -566,15 +566,19 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             )
                         }
                     },
                     quote! {
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
-                            Some(x) => x,
-                            None => #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                            #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
+                            #core::prelude::v1::None => #core::prelude::v1::Err(
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             ),
                         }
                     },
-- 
2.43.0


From 3575fcfd245288890458eed9374aab7634a9c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 3/4] fix: make serialize_deny_unknown compile for array-backed
 sets serialized as integers

The unknown bit check masked the serialized integer with the constant of the
in-memory representation. That does not compile if the set is stored as an
array but serialized as an integer, which is the default for enums whose
largest discriminant is between 64 and 127.
---
 enumset_derive/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 3d7e0a7..31f8c72 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -441,8 +441,12 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 _ => unreachable!(),
             };
             let check_unknown = if info.serialize_deny_unknown {
+                // The mask must have the type of the serialized integer, not of the internal repr.
+                let known_bits = Literal::u128_unsuffixed(
+                    variant_map[0] as u128 | variant_map.get(1).map_or(0, |x| (*x as u128) << 64),
+                );
                 quote! {
-                    if value & !#all_variants != 0 {
+                    if value & !#known_bits != 0 {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
                             D::Error::custom("enumset contains unknown bits")
-- 
2.43.0


From c7ef7a399efb60866f96551b6ece0cad540bda31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 4/4] fix: do not poll a sequence again after its end when
 deserializing word arrays

The generated visitor called next_element once more after it had returned
None when the array was shorter than the receiver's. A format is free to fail
or to read on in that case (formats with indefinite-length sequences do).
---
 enumset_derive/src/lib.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 31f8c72..0469b3f 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -568,7 +568,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             let (check_extra, convert_array) = if info.serialize_deny_unknown {
                 (
                     quote! {
-                        if _val != 0 {
+                        if val != 0 {
                             return #core::prelude::v1::Err(
                                 <A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits"
@@ -633,16 +633,13 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
 
                             let mut i = 0;
                             while let #core::prelude::v1::Some(val) = seq.next_element::<u64>()? {
-                                accum[i] = val;
-                                i += 1;
-
-                                if i == accum.len() {
-                                    break;
+                                if i < accum.len() {
+                                    accum[i] = val;
+                                    i += 1;
+                                } else {
+                                    #check_extra
                                 }
                             }
-                            while let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {
-                                #check_extra
-                            }
 
                             #convert_array
                         }
-- 
2.43.0


From 8fe47b61d350b9d0f62fc9307ec9e5ca5b4c4ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 01/19] fix: key usage bits beyond the first were never
 assigned to their flags

The bit offset was doubled instead of incremented, so it stayed 0 and every
bit overwrote digital_signature.
---
 rx509/src/x509/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index f7a4e09..86a8b8b 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -185,7 +185,7 @@ impl KeyUsage {
                 8 => key_usage.decipher_only = bit,
                 _ => {}
             }
-            offset += offset;
+            offset += 1;
         }
         Ok(key_usage)
     }
-- 
2.43.0


From 524d5d0248183049ff145d7bf0f310e82bc08af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 02/19] fix: reject empty bit strings that claim unused bits

Their size underflowed, which panicked (or indexed out of bounds in release
builds) as soon as the bits were read.
---
 rx509/src/der/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 0d78e35..75376f1 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -154,6 +154,10 @@ fn parse_bit_string(contents: &[u8]) -> ASNResult {
     if unused_bits > 7 {
         return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
     }
+    if unused_bits > 0 && contents.len() == 1 {
+        // there is no last octet that could have unused bits
+        return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
+    }
 
     Ok(BitString::asn(ASNBitString::new(
         unused_bits,
-- 
2.43.0


From 0009b67bfc2a6fd2b9617d4bf2eee2c1cdf156c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 03/19] fix: decode the first two arcs of an object identifier
 per X.690

The first sub-identifier may span several octets and only arcs 0 and 1 are
limited to 39 children, e.g. 2.100.3 was decoded as 3.9.52.3.
---
 rx509/src/der/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 75376f1..6370a45 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -194,10 +194,12 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
 
     let mut items: Vec<u32> = Vec::new();
 
-    let first_byte = reader.read_byte()?;
+    // the first sub-identifier combines the first two arcs as 40 * arc1 + arc2, arc1 <= 2
+    let first = parse_one(&mut reader)?;
+    let first_arc = (first / 40).min(2);
 
-    items.push((first_byte / 40) as u32);
-    items.push((first_byte % 40) as u32);
+    items.push(first_arc);
+    items.push(first - first_arc * 40);
 
     while !reader.is_empty() {
         items.push(parse_one(&mut reader)?);
-- 
2.43.0


From 5f3eb818b409426c6d7ff9af70f4e2bb3ef22c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 04/19] fix: reject characters after the time zone of a time

---
 rx509/src/der/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 6370a45..cec963c 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -133,6 +133,9 @@ fn parse_time(contents: &[u8], time_type: TimeType) -> ASNResult {
     if time_zone != b'Z' {
         return Err(ASNErrorVariant::BadUTCTime);
     }
+    if !reader.is_empty() {
+        return Err(ASNErrorVariant::BadUTCTime);
+    }
 
     calendar::time_from_ymdhms_utc(year, month, day_of_month, hours, minutes, seconds)
         .map(ASNType::UTCTime)
-- 
2.43.0


From a4c813f7ad78f2108a53bf3a7c92e3c2bd106676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 05/19] fix: as_i32 supports four octet integers as documented

---
 rx509/src/der/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 63870dc..c8d47cf 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -53,7 +53,7 @@ impl Identifier {
 }
 
 impl<'a> ASNInteger<'a> {
-    const VALID_I32_LENGTHS: core::ops::Range<usize> = 1usize..4usize;
+    const VALID_I32_LENGTHS: core::ops::Range<usize> = 1usize..5usize;
 
     pub fn new(bytes: &'a [u8]) -> ASNInteger {
         ASNInteger { bytes }
-- 
2.43.0


From 377a8b82be3f00503a6457778f2cdee2a6e66380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 06/19] fix: as_i32 of negative integers

---
 rx509/src/der/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index c8d47cf..f48da03 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -65,7 +65,11 @@ impl<'a> ASNInteger<'a> {
             return None;
         }
 
-        let mut acc: i32 = 0;
+        // the contents are two's complement, extend the sign of the first byte
+        let mut acc: i32 = match self.bytes.first() {
+            Some(byte) if byte & 0x80 != 0 => -1,
+            _ => 0,
+        };
         for byte in self.bytes {
             acc <<= 8;
             acc |= *byte as i32;
-- 
2.43.0


From 90f24954565124bbe3e0931e4b755298d549051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 07/19] fix: a truncated element is not the end of a list

expect_or_end mistook every EndOfStream error inside an element for the end of
its container, silently dropping truncated trailing extensions, general names,
key purposes and name attributes.
---
 rx509/src/der/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index cec963c..8591ca6 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -441,11 +441,11 @@ impl<'a> Parser<'a> {
     pub(crate) fn expect_or_end<T: ASNWrapperType<'a>>(
         &mut self,
     ) -> Result<Option<T::Item>, ASNErrorVariant> {
-        match self.expect::<T>() {
-            Ok(value) => Ok(Some(value)),
-            Err(ASNErrorVariant::EndOfStream) => Ok(None),
-            Err(err) => Err(err),
+        if self.reader.is_empty() {
+            return Ok(None);
         }
+
+        self.expect::<T>().map(Some)
     }
 
     pub(crate) fn expect_any(&mut self) -> Result<ASNType<'a>, ASNErrorVariant> {
-- 
2.43.0


From cee455a7708210597e1f16e3e50a781cd6912bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 08/19] fix: reject context-specific identifiers with
 multi-octet tag numbers

They were taken for tag 31, and the octets of the tag number for the length.
---
 rx509/src/der/parser.rs | 2 +-
 rx509/src/der/types.rs  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 8591ca6..fd6a055 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -297,7 +297,7 @@ fn read_type(id: &Identifier) -> Option<(ASNTypeId, u8)> {
             class: TagClass::ContextSpecific,
             tag,
             ..
-        } => Some((ASNTypeId::ExplicitTag, *tag)),
+        } if *tag != Identifier::HIGH_TAG_NUMBER => Some((ASNTypeId::ExplicitTag, *tag)),
 
         _ => None,
     }
diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index f48da03..eb2443a 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -28,6 +28,9 @@ pub struct Identifier {
 }
 
 impl Identifier {
+    // tag value announcing that the tag number follows in additional octets
+    pub(crate) const HIGH_TAG_NUMBER: u8 = 0x1F;
+
     pub fn new(class: TagClass, pc: PC, tag: u8) -> Identifier {
         Identifier { class, pc, tag }
     }
-- 
2.43.0


From c6dcb9337223b93b16eba91d37f5953e401065f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 09/19] fix: reject trailing elements in algorithm identifiers

---
 rx509/src/x509/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 4a1d470..94d5449 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -394,12 +394,12 @@ impl<'a> Certificate<'a> {
 
 impl<'a> AlgorithmIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<AlgorithmIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-
-        Ok(AlgorithmIdentifier::new(
-            parser.expect::<ObjectIdentifier>()?,
-            parser.expect_any_or_end()?,
-        ))
+        Parser::parse_all(input, |parser| {
+            Ok(AlgorithmIdentifier::new(
+                parser.expect::<ObjectIdentifier>()?,
+                parser.expect_any_or_end()?,
+            ))
+        })
     }
 
     pub fn new(algorithm: ASNObjectIdentifier, parameters: Option<ASNType>) -> AlgorithmIdentifier {
-- 
2.43.0


From ea0f68af83a14d21a8fba6b1d2493432a9749ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 10/19] fix: reject trailing octets in subject key identifiers

---
 rx509/src/x509/ext.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 86a8b8b..c101f2d 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -124,8 +124,7 @@ pub struct SubjectKeyIdentifier<'a> {
 
 impl<'a> SubjectKeyIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<SubjectKeyIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let key_identifier = parser.expect::<OctetString>()?;
+        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;
         Ok(SubjectKeyIdentifier { key_identifier })
     }
 }
-- 
2.43.0


From 84223ce8f4ad35be3519f8d7ca98ecaa255de642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 11/19] fix: reject trailing octets in key usages

---
 rx509/src/x509/ext.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index c101f2d..4aafdfa 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -156,8 +156,7 @@ pub struct KeyUsage {
 
 impl KeyUsage {
     fn parse(input: &[u8]) -> Result<KeyUsage, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let bit_string = parser.expect::<BitString>()?;
+        let bit_string = Parser::parse_all(input, |parser| parser.expect::<BitString>())?;
 
         let mut key_usage = KeyUsage {
             digital_signature: false,
-- 
2.43.0


From 170084283fb0c637232c7aa633413f986c1b73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 12/19] fix: reject trailing elements in basic constraints

---
 rx509/src/x509/ext.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 4aafdfa..5ec7795 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -344,6 +344,7 @@ impl BasicConstraints {
             },
             None => Ok(None),
         }?;
+        parser.expect_end()?;
 
         Ok(BasicConstraints {
             ca,
-- 
2.43.0


From b08589efb9801901e94d462ede1d8db7ceca41a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 13/19] fix: reject trailing elements after the value of an
 explicit tag

---
 rx509/src/der/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index fd6a055..326986d 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -363,7 +363,9 @@ impl<'a> Parser<'a> {
         match self.get_optional_explicit_tag(tag)? {
             Some(tag) => {
                 let mut parser = Parser::new(tag.contents);
-                Ok(Some(parser.expect::<T>()?))
+                let value = parser.expect::<T>()?;
+                parser.expect_end()?;
+                Ok(Some(value))
             }
             None => Ok(None),
         }
-- 
2.43.0


From ef4560afef72cfba3753f58f2631c86ed6745a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 14/19] fix: issuer and subject unique identifiers are
 implicitly tagged

---
 rx509/src/x509/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 94d5449..0c5e528 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -460,7 +460,8 @@ impl<'a> TBSCertificate<'a> {
             // TODO: check minimum version
             match parser.get_optional_explicit_tag(tag)? {
                 Some(tag) => Parser::parse_all(tag.contents, |parser| {
-                    Ok(Some(parser.expect::<BitString>()?))
+                    // [1] and [2] are IMPLICIT in RFC 5280
+                    Ok(Some(parser.parse_implicit::<BitString>()?))
                 }),
                 None => Ok(None),
             }
-- 
2.43.0


From 774b6d67a30011e2beca21391983454970072ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 15/19] fix: decode deeply nested input without recursion

A few ten thousand nested sequences (less than 100 kB) overflowed the stack and
aborted the process.
---
 rx509/src/der/parse_all.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/rx509/src/der/parse_all.rs b/rx509/src/der/parse_all.rs
index b57017a..fa66441 100644
--- a/rx509/src/der/parse_all.rs
+++ b/rx509/src/der/parse_all.rs
@@ -1,3 +1,5 @@
+use core::mem::replace;
+
 use crate::der::parser::Parser;
 use crate::der::types::{ASNError, ASNType};
 
@@ -9,7 +11,24 @@ pub trait ParseHandler {
 }
 
 pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASNError> {
-    for result in Parser::new(input) {
+    // parsers of the containers around the current one, kept off the call stack
+    // so that the nesting depth of the input can't exhaust it
+    let mut parents: Vec<Parser> = Vec::new();
+    let mut parser = Parser::new(input);
+
+    loop {
+        let result = match parser.next() {
+            Some(result) => result,
+            None => match parents.pop() {
+                Some(parent) => {
+                    handler.end_constructed();
+                    parser = parent;
+                    continue;
+                }
+                None => return Ok(()),
+            },
+        };
+
         match result {
             Err(err) => {
                 let err = err.into();
@@ -21,26 +40,21 @@ pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASN
                 match asn {
                     ASNType::Sequence(wrapper) => {
                         handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
+                        parents.push(replace(&mut parser, Parser::new(wrapper.value)));
                     }
                     ASNType::ExplicitTag(wrapper) => {
                         handler.begin_constructed();
-                        parse_all(wrapper.value.contents, handler)?;
-                        handler.end_constructed();
+                        parents.push(replace(&mut parser, Parser::new(wrapper.value.contents)));
                     }
                     ASNType::Set(wrapper) => {
                         handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
+                        parents.push(replace(&mut parser, Parser::new(wrapper.value)));
                     }
                     _ => (),
                 }
             }
         }
     }
-
-    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 734c522fc94c3dcc2e745c6db1f1bb69477fd5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 16/19] fix: the decoder panicked on arguments that are not
 valid Unicode

---
 decoder/src/main.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/decoder/src/main.rs b/decoder/src/main.rs
index 2027dcc..a41f210 100644
--- a/decoder/src/main.rs
+++ b/decoder/src/main.rs
@@ -1,6 +1,7 @@
 mod der_printer;
 
 use std::env;
+use std::ffi::{OsStr, OsString};
 use std::fs::File;
 use std::io::prelude::*;
 use std::process;
@@ -9,7 +10,7 @@ use rx509::der::parse_all;
 use rx509::x509::printer::{ConsoleLinePrinter, Printable};
 use rx509::x509::Certificate;
 
-fn get_bytes(file: &str) -> Result<Vec<u8>, std::io::Error> {
+fn get_bytes(file: &OsStr) -> Result<Vec<u8>, std::io::Error> {
     let mut f = File::open(file)?;
     let mut vec: Vec<u8> = Vec::new();
     f.read_to_end(&mut vec)?;
@@ -33,18 +34,18 @@ pub fn main() -> Result<(), std::io::Error> {
         Ok(())
     }
 
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<OsString> = env::args_os().collect();
 
     if args.len() != 3 {
         eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
         process::exit(-1);
     }
 
-    match args[1].as_str() {
-        "--der" => parse_der(&get_bytes(&args[2])?),
-        "--certs" => parse_x509(&get_bytes(&args[2])?),
-        unknown => {
-            eprintln!("Unknown flag: {}", unknown);
+    match args[1].to_str() {
+        Some("--der") => parse_der(&get_bytes(&args[2])?),
+        Some("--certs") => parse_x509(&get_bytes(&args[2])?),
+        _ => {
+            eprintln!("Unknown flag: {}", args[1].to_string_lossy());
             process::exit(-1);
         }
     }
-- 
2.43.0


From 86165ead50cb6e1ab5f6fc88355e399d23df68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 17/19] fix: indent the line reporting undecodable extensions

---
 rx509/src/x509/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 0c5e528..a57d771 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -144,6 +144,7 @@ impl<'a> Printable for TBSCertificate<'a> {
                     }
                 }
                 Err(err) => {
+                    printer.begin_line();
                     printer.println_fmt(&format_args!("**Error** parsing extensions: {}", err));
                 }
             }
-- 
2.43.0


From dd0b1e54bb89b3a154ecdadac6876ef706acea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 18/19] fix: indent IP addresses among alternative names only
 once

---
 rx509/src/x509/ext.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 5ec7795..b96f309 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -262,7 +262,13 @@ impl<'a> Printable for GeneralName<'a> {
             GeneralName::UniformResourceIdentifier(value) => {
                 printer.println_fmt(&format_args!("Uniform Resource Identifier: {}", value))
             }
-            GeneralName::IpAddress(value) => print_type("IP Address", value, printer),
+            GeneralName::IpAddress(value) => {
+                // the line has already begun
+                printer.println_str("IP Address:");
+                printer.begin_type();
+                value.print(printer);
+                printer.end_type();
+            }
             GeneralName::RegisteredId(value) => {
                 printer.println_fmt(&format_args!("Registered ID: {}", value))
             }
-- 
2.43.0


From 7a75052beb4bd845810be6d35f2466ce8af4fef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 19/19] fix: indent raw names only once

---
 rx509/src/x509/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index a57d771..1a2e987 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -326,9 +326,7 @@ impl<'a> Name<'a> {
 
 impl<'a> Printable for Name<'a> {
     fn print(&self, printer: &mut dyn LinePrinter) {
-        printer.begin_type();
         self.inner.print(printer);
-        printer.end_type();
     }
 }
 
-- 
2.43.0


From 9e79ca503b2206c8458771977f007eb28e0e9f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 1/5] fix: do not panic in find_list_end when the tag ends
 before the list

The accessors look for the next list one byte after the end of the
previous one. When the tag stops there the offset is one past the end of
the string and slicing panicked, e.g. for the script of "en".
---
 src/normal/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 6b310f3..1dc311e 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -180,6 +180,12 @@ impl Hash for NormalLangTag {
 /// subtag is part of the list.
 fn find_list_end(string: &str, mut offset: usize, mut f: impl FnMut(usize, &str) -> bool) -> usize {
 	let bytes = string.as_bytes();
+
+	if offset > bytes.len() {
+		// Nothing left after the previous list.
+		return offset;
+	}
+
 	let mut i = offset;
 	let mut end = i;
 	while i < bytes.len() {
-- 
2.43.0


From 7cb8d43ede46c73316b69ec5d21a732a66d96089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 2/5] fix: private use subtags start after the extensions

NormalLangTag::private_use started right after the variants, so it
included the extensions, and returned them as private use subtags of a
tag that has none.
---
 src/normal/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 1dc311e..d7b7cc5 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -127,10 +127,10 @@ impl NormalLangTag {
 	}
 
 	fn private_use_offset(&self) -> Option<usize> {
-		let variants_end = self.variants_range().end;
+		let extensions_end = self.extensions_range().end;
 
-		if variants_end < self.0.len() {
-			Some(variants_end + 1)
+		if extensions_end < self.0.len() {
+			Some(extensions_end + 1)
 		} else {
 			None
 		}
-- 
2.43.0


From ff4ea0abb87cda5ee7490730123f1c47d05d3056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 3/5] fix: reject overlong UTF-8 encodings when validating
 bytes

decode_utf8_char decodes overlong sequences, so bytes that are not UTF-8
(such as C1 A1 C1 A1, an overlong "aa") were accepted and then exposed
as a str.
---
 src/grammar.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index d828ecd..5e7ba6c 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -1085,7 +1085,7 @@ impl LanguageTag {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -1175,7 +1175,7 @@ impl Privateuse {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -1246,7 +1246,7 @@ impl PrivateuseSubtag {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -1673,7 +1673,7 @@ impl Langtag {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -1790,7 +1790,7 @@ impl Language {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -1838,7 +1838,7 @@ impl Primary {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -1918,7 +1918,7 @@ impl Extlang {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -1966,7 +1966,7 @@ impl ExtlangTag {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -2018,7 +2018,7 @@ impl Script {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -2071,7 +2071,7 @@ impl Region {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -2156,7 +2156,7 @@ impl Variant {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -2254,7 +2254,7 @@ impl Variants {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -2340,7 +2340,7 @@ impl Extension {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -2408,7 +2408,7 @@ impl ExtensionSubtag {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
@@ -2507,7 +2507,7 @@ impl Extensions {
 		while i < bytes.len() {
 			match ::static_automata::decode_utf8_char(bytes, i) {
 				Ok((c, len)) => {
-					if !automaton.push(c) {
+					if len != c.len_utf8() || !automaton.push(c) {
 						return false;
 					}
 					i += len;
-- 
2.43.0


From c444c78c1231a4e849cec7286de87e017f6d4177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 4/5] fix: look extensions up case-insensitively

Subtags are case-insensitive and so is the rest of the API, but
Extensions::get compared the singleton byte for byte, so that the
extension of "en-U-co-phonebk" could not be found with 'u'.
---
 src/normal/extension.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 4c52dd1..81cb07d 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -217,7 +217,9 @@ impl Extensions {
 		let mut starting = true;
 		while i + 1 < self.0.len() {
 			if starting {
-				if bytes[i] == singleton.0 && bytes[i + 1] == b'-' {
+				if utils::into_smallcase(bytes[i]) == utils::into_smallcase(singleton.0)
+					&& bytes[i + 1] == b'-'
+				{
 					let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);
 
 					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
-- 
2.43.0


From aabad25f479a6d4686d8577dea9789fe2dbb49ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 5/5] fix: accept every primary language subtag as a
 PrimaryLanguage

Language::primary returns the first subtag, which may have 2 to 8
letters, but the grammar of PrimaryLanguage only accepted 2 or 3, so the
value returned for "abcd" was not equal to "abcd" and could not be
deserialized.
---
 src/grammar.abnf |  4 ++--
 src/grammar.rs   | 22 +++++++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/grammar.abnf b/src/grammar.abnf
index 0a8c609..193de89 100644
--- a/src/grammar.abnf
+++ b/src/grammar.abnf
@@ -9,13 +9,13 @@ langtag       = language
                *("-" extension)
                ["-" privateuse]
 
-language      = primary             ; shortest ISO 639 code
+language      = 2*3ALPHA            ; shortest ISO 639 code
                ["-" extlang]        ; sometimes followed by
                                     ; extended language subtags
               / 4ALPHA              ; or reserved for future use
               / 5*8ALPHA            ; or registered language subtag
 
-primary       = 2*3ALPHA
+primary       = 2*8ALPHA            ; first subtag of a language
 
 extlang       = extlang-tag         ; selected ISO 639 codes
                 *2("-" extlang-tag) ; permanently reserved
diff --git a/src/grammar.rs b/src/grammar.rs
index 5e7ba6c..b60886a 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -1822,12 +1822,32 @@ impl Primary {
 				'A'..='Z' | 'a'..='z' => 3u32,
 				_ => return false,
 			},
+			3u32 => match token {
+				'A'..='Z' | 'a'..='z' => 4u32,
+				_ => return false,
+			},
+			4u32 => match token {
+				'A'..='Z' | 'a'..='z' => 5u32,
+				_ => return false,
+			},
+			5u32 => match token {
+				'A'..='Z' | 'a'..='z' => 6u32,
+				_ => return false,
+			},
+			6u32 => match token {
+				'A'..='Z' | 'a'..='z' => 7u32,
+				_ => return false,
+			},
+			7u32 => match token {
+				'A'..='Z' | 'a'..='z' => 8u32,
+				_ => return false,
+			},
 			_ => return false,
 		};
 		true
 	}
 	pub const fn is_accepting(&self) -> bool {
-		matches!(self.state, 2u32 | 3u32)
+		matches!(self.state, 2u32..=8u32)
 	}
 	pub const fn validate_str(s: &str) -> bool {
 		Self::validate_bytes(s.as_bytes())
-- 
2.43.0


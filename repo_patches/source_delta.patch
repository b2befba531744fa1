From ebee9dfef6e780e23bcc5c50d0ddabe0305cdd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 01/23] fix: count error columns in characters instead of bytes

The caret is aligned and the excerpt is cut by characters, so a byte
column pointed at the wrong place on non-ASCII lines, and panicked on
long ones.
---
 src/parser/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/error.rs b/src/parser/error.rs
index 74bce1d..e8e1846 100644
--- a/src/parser/error.rs
+++ b/src/parser/error.rs
@@ -98,7 +98,7 @@ impl<'a> LocatedLine<'a> {
 
         let line_start_offset = input_before.rfind('\n').map(|n| n + 1).unwrap_or(0);
         let line_number = input_before.split('\n').count();
-        let column_number = offset - line_start_offset + 1;
+        let column_number = input_before[line_start_offset..].chars().count() + 1;
 
         LocatedLine {
             line: input[line_start_offset..].lines().next().unwrap_or(""),
-- 
2.43.0


From ef659148dda53097742aeb1b212dcc1ae0e39631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 02/23] fix: do not silently discard unparseable content in
 INCLUDE sections

When parsing the content of an INCLUDE section stopped early, everything
up to the next `]]>` was skipped without an error.
---
 src/parser/events.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 029db1f..38c8b71 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -143,7 +143,7 @@ where
                     recognize(|input| {
                         content(input, config, MarkedSectionEndHandling::StopParsing)
                     }),
-                    raw::marked_section_end,
+                    cut(raw::marked_section_end),
                 )(input),
             }?;
             Ok((
@@ -175,7 +175,7 @@ where
                     |input| content(input, config, MarkedSectionEndHandling::StopParsing),
                     EventIter::from_iter,
                 ),
-                raw::marked_section_body_character_data,
+                cut(raw::marked_section_end),
             )(input),
         },
     }
-- 
2.43.0


From 155c296664fab9392e8f55bbc3d5e04e21a8d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 03/23] fix: accept INCLUDE sections that are empty or start
 with a comment

---
 src/parser/events.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 38c8b71..61ce253 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -8,7 +8,7 @@ use nom::branch::alt;
 use nom::combinator::{all_consuming, cut, map, recognize, value};
 use nom::error::{context, ContextError, ErrorKind, FromExternalError, ParseError};
 use nom::multi::{many0, many0_count, many1};
-use nom::sequence::{terminated, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 
 use crate::marked_sections::MarkedSectionStatus;
@@ -140,9 +140,7 @@ where
                 MarkedSectionStatus::CData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::RcData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::Include => terminated(
-                    recognize(|input| {
-                        content(input, config, MarkedSectionEndHandling::StopParsing)
-                    }),
+                    recognize(|input| include_section_content(input, config)),
                     cut(raw::marked_section_end),
                 )(input),
             }?;
@@ -172,7 +170,7 @@ where
             }
             MarkedSectionStatus::Include => terminated(
                 map(
-                    |input| content(input, config, MarkedSectionEndHandling::StopParsing),
+                    |input| include_section_content(input, config),
                     EventIter::from_iter,
                 ),
                 cut(raw::marked_section_end),
@@ -213,6 +211,26 @@ where
     )(input)
 }
 
+/// Matches the content of an `INCLUDE` marked section, which may be empty.
+fn include_section_content<'a, E>(
+    input: &'a str,
+    config: &ParserConfig,
+) -> IResult<&'a str, impl Iterator<Item = SgmlEvent<'a>>, E>
+where
+    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
+{
+    map(
+        preceded(
+            many0_count(comment_declaration),
+            many0(terminated(
+                |input| content_item(input, config, MarkedSectionEndHandling::StopParsing),
+                many0_count(comment_declaration),
+            )),
+        ),
+        |items| items.into_iter().flatten(),
+    )(input)
+}
+
 /// Matches a single unit of content --- a tag, text data, processing instruction, or section declaration.
 pub fn content_item<'a, E>(
     input: &'a str,
-- 
2.43.0


From 840f3212d39eec782da63a6a3a30465fb8df476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 04/23] fix: normalize the case of names with title-case
 letters

---
 src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 15e0f87..78adccd 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -157,11 +157,13 @@ impl Default for NameNormalization {
 
 impl NameNormalization {
     pub fn normalize<'a>(&self, name: Cow<'a, str>) -> Cow<'a, str> {
+        // Testing for changes, rather than with `char::is_uppercase` and `char::is_lowercase`,
+        // also covers letters that are neither, like those in title case (e.g. `ǅ`)
         match self {
-            NameNormalization::ToLowercase if name.chars().any(char::is_uppercase) => {
+            NameNormalization::ToLowercase if name.chars().any(|c| !c.to_lowercase().eq([c])) => {
                 name.to_lowercase().into()
             }
-            NameNormalization::ToUppercase if name.chars().any(char::is_lowercase) => {
+            NameNormalization::ToUppercase if name.chars().any(|c| !c.to_uppercase().eq([c])) => {
                 name.to_uppercase().into()
             }
             _ => name,
-- 
2.43.0


From e6513ac9bdcfd8e98610cc751c40fe831ad4f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 05/23] fix: do not overflow the stack on IGNORE sections with
 many nested pairs

---
 src/parser/raw.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 31c6ece..e777189 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -130,20 +130,27 @@ where
     E: ParseError<&'a str> + ContextError<&'a str>,
 {
     use nom::{FindSubstring, Slice};
-    let (close_suffix, close_match) = marked_section_body_character_data(input)?;
-    match close_match.find_substring(MARKED_SECTION_START) {
-        Some(n) => {
-            let (suffix_after_matched_pair, _) =
-                context("nested marked section pair", marked_section_body_ignore)(
-                    input.slice(n + MARKED_SECTION_START.len()..),
-                )?;
-            let (final_suffix, _) = marked_section_body_ignore(suffix_after_matched_pair)?;
-            Ok((
-                final_suffix,
-                input.slice(..input.len() - final_suffix.len() - MARKED_SECTION_END.len()),
-            ))
+    // Tracking the open pairs, instead of recursing, as sections may have any number of them
+    let mut open_pairs = vec![];
+    let (mut suffix, mut before_close) = marked_section_body_character_data(input)?;
+    loop {
+        if let Some(n) = before_close.find_substring(MARKED_SECTION_START) {
+            before_close = before_close.slice(n + MARKED_SECTION_START.len()..);
+            open_pairs.push(before_close);
+        } else if open_pairs.pop().is_some() {
+            let next_close = marked_section_body_character_data(suffix);
+            (suffix, before_close) = match open_pairs.last() {
+                Some(pair) => next_close.map_err(|err: nom::Err<E>| {
+                    err.map(|err| E::add_context(pair, "nested marked section pair", err))
+                }),
+                None => next_close,
+            }?;
+        } else {
+            return Ok((
+                suffix,
+                input.slice(..input.len() - suffix.len() - MARKED_SECTION_END.len()),
+            ));
         }
-        _ => Ok((close_suffix, close_match)),
     }
 }
 
-- 
2.43.0


From 131664d3b12391ef7ad33fc28834c70ee895472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:28 +0000
Subject: [PATCH 06/23] fix: report undefined references in text at the
 reference itself

The error used to be recoverable, so it was replaced with a generic one
pointing to the start of the text.
---
 src/parser/events.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 61ce253..5defeb7 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -94,7 +94,9 @@ where
 {
     context("marked section declaration", |input| {
         let (rest, raw_status_keywords) = raw::marked_section_start_and_keywords(input)?;
-        let status_keywords = config.parse_markup_declaration_text(raw_status_keywords)?;
+        let status_keywords = config
+            .parse_markup_declaration_text(raw_status_keywords)
+            .map_err(into_failure)?;
 
         let status = match config
             .marked_section_handling
@@ -164,7 +166,9 @@ where
                 Ok((
                     rest,
                     EventIter::once(SgmlEvent::Character(
-                        config.parse_rcdata(config.trim(content))?,
+                        config
+                            .parse_rcdata(config.trim(content))
+                            .map_err(into_failure)?,
                     )),
                 ))
             }
@@ -361,10 +365,20 @@ where
     }
     Ok((
         rest,
-        EventIter::once(SgmlEvent::Character(config.parse_rcdata(s)?)),
+        EventIter::once(SgmlEvent::Character(
+            config.parse_rcdata(s).map_err(into_failure)?,
+        )),
     ))
 }
 
+/// Prevents recovery from an error, so that it is the one reported.
+fn into_failure<E>(err: nom::Err<E>) -> nom::Err<E> {
+    match err {
+        nom::Err::Error(err) => nom::Err::Failure(err),
+        err => err,
+    }
+}
+
 /// An iterator over a sequence of events.
 ///
 /// This struct exists to minimize the number of allocations during the
-- 
2.43.0


From b415f58aaf1a8c621fabcc9f54afa0ae4b6604d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 07/23] fix: do not overflow the stack when skipping deeply
 nested elements

---
 src/de/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 387547e..4dae0f8 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -232,7 +232,7 @@ impl<'de> SgmlDeserializer<'de> {
             stack_size - 1,
             &self.stack[stack_size - 1]
         );
-        loop {
+        while self.stack.len() >= stack_size {
             match self
                 .events
                 .next()
@@ -240,10 +240,8 @@ impl<'de> SgmlDeserializer<'de> {
             {
                 SgmlEvent::XmlCloseEmptyElement => {
                     self.stack.pop();
-                    return Ok(());
                 }
                 SgmlEvent::EndTag { name } => {
-                    self.check_stack_size(stack_size);
                     let expected = self.stack.pop().unwrap();
                     if name != expected {
                         return Err(DeserializationError::MismatchedCloseTag {
@@ -251,16 +249,15 @@ impl<'de> SgmlDeserializer<'de> {
                             found: name.to_string(),
                         });
                     }
-                    debug!("popped({}): {:?}", stack_size - 1, name);
-                    return Ok(());
+                    debug!("popped({}): {:?}", self.stack.len(), name);
                 }
                 SgmlEvent::OpenStartTag { name } => {
                     self.stack.push(name);
-                    self.pop_elt()?;
                 }
                 _ => {}
             };
         }
+        Ok(())
     }
 
     /// Skips attributes and CloseStartTag, going to the main content.
-- 
2.43.0


From 7a1db044da48be3e5c4e5052ee837c365cda5b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 08/23] fix: report unsupported events that follow a child
 element

They used to cause a panic, or to be skipped.
---
 src/de/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 4dae0f8..b58911c 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -257,6 +257,10 @@ impl<'de> SgmlDeserializer<'de> {
                 _ => {}
             };
         }
+        // Anything that follows the root element is not part of the content
+        if !self.stack.is_empty() {
+            self.normalize_at_cursor()?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 987836573dbed269d2667fdb34052d2f1ccf9960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 09/23] fix: reject attributes where sequences are expected

The attribute was never consumed, causing an infinite loop on maps.
---
 src/de/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index b58911c..ddea526 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -524,6 +524,12 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         V: de::Visitor<'de>,
     {
         trace!("deserialize_seq (tag: {:?})", self.map_key);
+
+        // An attribute cannot hold a sequence, and would never be consumed by `SeqAccess`
+        if let Ok(SgmlEvent::Attribute { .. }) = self.peek() {
+            return Err(DeserializationError::ExpectedStartTag);
+        }
+
         let stack_size = self.stack.len();
 
         let tag_name = self.map_key.take().map(Into::into);
-- 
2.43.0


From dbb2ec1862aa0028970ba03d2f51a1e6d94a49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 10/23] fix: reject types that consume no content as map or
 sequence items

They were offered the same item over and over, in an infinite loop.
---
 src/de/mod.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index ddea526..9f0e1b4 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -340,6 +340,21 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(value)
     }
 
+    /// Deserializes a map or sequence item, ensuring it moves past at least one event.
+    ///
+    /// Types that consume nothing, like `[T; 0]`, would be handed the same item forever.
+    fn deserialize_consuming<T: de::DeserializeSeed<'de>>(
+        &mut self,
+        seed: T,
+    ) -> Result<T::Value, DeserializationError> {
+        let remaining = self.events.len();
+        let value = seed.deserialize(&mut *self)?;
+        if self.events.len() == remaining {
+            return Err(de::Error::custom("expected type has no content"));
+        }
+        Ok(value)
+    }
+
     #[track_caller]
     fn check_stack_size(&self, expected_size: usize) {
         let stack = &self.stack;
@@ -796,10 +811,10 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
             self.de.accumulated_text = None;
             Ok(value)
         } else if let Ok(SgmlEvent::Attribute { .. }) = self.de.peek() {
-            seed.deserialize(&mut *self.de)
+            self.de.deserialize_consuming(seed)
         } else {
             self.de.map_key = self.map_key.take();
-            let value = seed.deserialize(&mut *self.de)?;
+            let value = self.de.deserialize_consuming(seed)?;
             self.de.map_key = None;
             Ok(value)
         }
@@ -842,7 +857,7 @@ impl<'de, 'r> de::SeqAccess<'de> for SeqAccess<'de, 'r> {
                         if self.de.map_key != self.tag_name {
                             self.de.map_key = self.tag_name.clone();
                         }
-                        return Ok(Some(seed.deserialize(&mut *self.de)?));
+                        return Ok(Some(self.de.deserialize_consuming(seed)?));
                     }
                 },
                 SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,
-- 
2.43.0


From 9c7647415656a35c9125f6b943e3ca3e177f5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 11/23] fix: read enums from attributes and from $value text

---
 src/de/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 9f0e1b4..616a9c2 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -608,6 +608,12 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
     {
         trace!("deserialize_enum({})", name);
 
+        // Attribute values and text captured as `$value` can only name a variant
+        if self.accumulated_text.is_some() || matches!(self.peek()?, SgmlEvent::Attribute { .. }) {
+            trace!("enum as plain text");
+            return visitor.visit_enum(EnumAccess::new(self, false));
+        }
+
         let stack_size = self.stack.len();
 
         // If true, we have a <map-key>(enum-value)</map-key> case;
-- 
2.43.0


From 4a67d83ece7ea0e9790c4bf499b03b35e8d41d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:57 +0000
Subject: [PATCH 12/23] fix: never read the data of a variant named by text
 from what follows it

---
 src/de/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 616a9c2..66db7c3 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -885,6 +885,16 @@ impl<'de, 'r> EnumAccess<'de, 'r> {
             use_tag_name_for_variant,
         }
     }
+
+    /// Rejects variants that carry data when there is only text to tell which one it is,
+    /// as what follows that text is not part of the enum.
+    fn expect_data(&self, expected: &dyn de::Expected) -> Result<(), DeserializationError> {
+        if self.use_tag_name_for_variant {
+            Ok(())
+        } else {
+            Err(de::Error::invalid_type(Unexpected::UnitVariant, expected))
+        }
+    }
 }
 
 impl<'de, 'r> de::EnumAccess<'de> for EnumAccess<'de, 'r> {
@@ -925,10 +935,10 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         seed: T,
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
-        // If we just used the current tag name as a variant, we need to push the tag into the stack,
+        self.expect_data(&"newtype variant")?;
+        // As we just used the current tag name as a variant, we need to push the tag into the stack,
         // or else we might get stuck in a loop
-        let push =
-            self.use_tag_name_for_variant && self.de.peek_content_type()?.contains_child_elements;
+        let push = self.de.peek_content_type()?.contains_child_elements;
         if push {
             self.de.push_elt()?;
             self.de.advance_to_content()?;
@@ -945,9 +955,8 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("tuple_variant({} items)", len);
-        if self.use_tag_name_for_variant {
-            self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
-        }
+        self.expect_data(&"tuple variant")?;
+        self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         self.de.deserialize_seq(visitor)
     }
 
@@ -960,6 +969,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("struct_variant");
+        self.expect_data(&"struct variant")?;
         self.de.do_map(visitor, fields.contains(&"$value"))
     }
 }
-- 
2.43.0


From a201a09b778eae33218dd25b260acdf775710686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 13/23] fix: recognize empty comment declarations inside text

`<!>` was already accepted between tags, but treated as text elsewhere.
---
 src/parser/raw.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index e777189..7347b93 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -189,6 +189,7 @@ where
                 not(alt((
                     tag("?"),
                     tag("!-"),
+                    tag("!>"),
                     tag("!["),
                     preceded(tag("!"), name_start),
                     // Minimally matching start/end tags: "<>", "</>", "<x", or "</x"
-- 
2.43.0


From 1cc1ad7a70c5032aab6158492209fdf3cde9e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 14/23] fix: don't panic in take_until_terminated on non-ASCII
 delimiters

---
 src/parser/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/util.rs b/src/parser/util.rs
index f059097..592d8fc 100644
--- a/src/parser/util.rs
+++ b/src/parser/util.rs
@@ -24,6 +24,7 @@ pub fn take_until_terminated<'a, E: ParseError<&'a str> + ContextError<&'a str>>
         // (for example the input ends in "]]"), try to identify the largest partial match
         let partial_delimiter_len = (1..delimiter.len())
             .rev()
+            .filter(|&prefix_len| delimiter.is_char_boundary(prefix_len))
             .find(|&prefix_len| input.ends_with(&delimiter[..prefix_len]))
             .unwrap_or(0);
         Err(nom::Err::Failure(E::add_context(
@@ -31,7 +32,7 @@ pub fn take_until_terminated<'a, E: ParseError<&'a str> + ContextError<&'a str>>
             ctx,
             E::from_char(
                 &input[input.len()..],
-                delimiter.chars().nth(partial_delimiter_len).unwrap(),
+                delimiter[partial_delimiter_len..].chars().next().unwrap(),
             ),
         )))
     };
-- 
2.43.0


From 6078984ee2a3e5e1aad225f74e9ebf9345af3d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 15/23] fix: do not mistake a nested enum's variant for its
 containing field

---
 src/de/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 66db7c3..acd9230 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -620,11 +620,11 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         // if false, it's (enum-value) directly
         let enum_within_element = self
             .map_key
-            .as_deref()
+            .take()
             .and_then(|map_key| {
                 self.expect_start_tag()
                     .ok()
-                    .map(|start_tag| start_tag == map_key)
+                    .map(|start_tag| *start_tag == *map_key)
             })
             .unwrap_or(false);
 
-- 
2.43.0


From 84f64dc8447c84b5e65d0b49950202187470235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 16/23] fix: read an enum in a newtype variant from the
 variant's text

---
 src/de/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index acd9230..7c08237 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -942,6 +942,9 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         if push {
             self.de.push_elt()?;
             self.de.advance_to_content()?;
+        } else {
+            // An enum in it can only be text, and not this same tag again
+            self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         }
         let value = seed.deserialize(self.de.borrow_mut())?;
         if push {
-- 
2.43.0


From cca7bf9060e922f5e9cb0a961c8a058fac2b5b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 17/23] fix: parse long INCLUDE sections in linear time

Every piece of text in an INCLUDE section searched the whole remaining input
for the section end, even when the next tag came first, so that parsing time
grew with the square of the section's length.
---
 src/parser/raw.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 7347b93..d334150 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -213,10 +213,10 @@ where
     use nom::{FindSubstring, InputTake};
     let next_tag = input.find_substring("<").unwrap_or(input.len());
     let split_pos = match mse {
-        MarkedSectionEndHandling::StopParsing => input
+        // Looking no further than the next tag, as the section may be arbitrarily long
+        MarkedSectionEndHandling::StopParsing => (&input[..next_tag])
             .find_substring("]]>")
-            .unwrap_or(next_tag)
-            .min(next_tag),
+            .unwrap_or(next_tag),
         MarkedSectionEndHandling::TreatAsText => next_tag,
     };
     if split_pos == 0 {
-- 
2.43.0


From 1b3b3a215a816470770cb1ab3fa50d06da427078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 18/23] fix: name the invalid keyword of a marked section, not
 all of them

---
 src/parser/events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 5defeb7..bf54431 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -113,7 +113,7 @@ where
                 return Err(nom::Err::Failure(E::from_external_error(
                     pos,
                     ErrorKind::Tag,
-                    Error::InvalidMarkedSectionKeyword(status_keywords.into_owned()),
+                    Error::InvalidMarkedSectionKeyword(keyword.to_owned()),
                 )));
             }
         };
-- 
2.43.0


From 4fdbb39a65c0ff31abbcd4b004c16f560aefeffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 19/23] fix: locate an invalid marked section keyword at that
 keyword itself

---
 src/parser/events.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index bf54431..a52aa96 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -104,11 +104,14 @@ where
         {
             Ok(status) => status,
             Err(keyword) => {
-                use nom::{FindSubstring, Slice};
-                let pos = raw_status_keywords
-                    .find_substring(keyword)
-                    .map(|pos| raw_status_keywords.slice(pos..))
+                use nom::{FindSubstring, Offset, Slice};
+                let pos = match status_keywords {
+                    Cow::Borrowed(_) => Some(raw_status_keywords.offset(keyword)),
                     // There's no match if the keyword came from a parameter entity expansion
+                    Cow::Owned(_) => raw_status_keywords.find_substring(keyword),
+                };
+                let pos = pos
+                    .map(|pos| raw_status_keywords.slice(pos..))
                     .unwrap_or(raw_status_keywords);
                 return Err(nom::Err::Failure(E::from_external_error(
                     pos,
-- 
2.43.0


From 0a6bd5606bf29eea579184e741f849253faf16a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 20/23] fix: an element closed by /> was read on to the next
 end tag when deserialized

Without end-tag normalization, the text and the kind of content of an element
written as <x/> were taken from whatever follows it: a string field took the
text after the element, or reported the end tag of its parent as mismatched.
---
 src/de/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 7c08237..468ae66 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -157,14 +157,16 @@ impl<'de> SgmlDeserializer<'de> {
     fn peek_content_type(&self) -> Result<PeekContentType, DeserializationError> {
         let mut contains_attributes = false;
         let mut contains_text = false;
-        let contains_child_elements = self
-            .events
-            .as_slice()
+        // The start tag may have been consumed already
+        let content = match self.events.as_slice() {
+            [SgmlEvent::OpenStartTag { .. }, content @ ..] => content,
+            content => content,
+        };
+        let contains_child_elements = content
             .iter()
-            .skip(1)
             .find_map(|event| match event {
                 SgmlEvent::OpenStartTag { .. } => Some(true),
-                SgmlEvent::EndTag { .. } => Some(false),
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => Some(false),
                 SgmlEvent::Attribute { .. } => {
                     contains_attributes = true;
                     None
@@ -303,7 +305,7 @@ impl<'de> SgmlDeserializer<'de> {
                 SgmlEvent::OpenStartTag { .. } => {
                     self.push_elt()?;
                 }
-                SgmlEvent::EndTag { .. } => {
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => {
                     self.pop_elt()?;
                     if self.stack.len() == starting_stack_size {
                         break;
-- 
2.43.0


From d7008b2251ea26611c8f4f1d802ac16dd351738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 21/23] fix: an empty text before the element of an enum's
 variant made it unreadable

An enum or newtype variant holding an element could not be read when an
empty text came first, as left by an empty marked section or a reference
expanding to nothing.
---
 src/de/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 468ae66..d3fec6c 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -266,13 +266,16 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(())
     }
 
-    /// Skips attributes and CloseStartTag, going to the main content.
+    /// Skips attributes, CloseStartTag and empty text, going to the main content.
     ///
     /// Should only be used immediately after `push_elt`.
     fn advance_to_content(&mut self) -> Result<(), DeserializationError> {
         while let SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag = self.peek()? {
             self.advance()?;
         }
+        while matches!(self.peek()?, SgmlEvent::Character(text) if text.is_empty()) {
+            self.advance()?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 23ebd499fc5d2c68d901c8df0fd3bc838f23f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 22/23] fix: a second root element of the same name was misread
 after a variant

When an SgmlDeserializer is used to read several values in turn, the name
left over from a newtype or tuple variant made the next element, if of the
same name, be read as that variant's content.
---
 src/de/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index d3fec6c..8033e3a 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -554,6 +554,7 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         let tag_name = self.map_key.take().map(Into::into);
         let value = visitor.visit_seq(SeqAccess::new(self, tag_name))?;
+        self.map_key = None;
 
         self.check_stack_size(stack_size);
 
@@ -955,6 +956,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         if push {
             self.de.pop_elt()?;
         }
+        self.de.map_key = None;
         Ok(value)
     }
 
-- 
2.43.0


From 3eded3c127c478929f9c4a2ea0ea124007adaddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 23/23] fix: a target that gets over an error made
 deserialization panic or misread what follows

---
 src/de/mod.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 8033e3a..80896db 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -191,7 +191,7 @@ impl<'de> SgmlDeserializer<'de> {
     /// Rejects unsupported events (like empty start tags), ignores markup declarations and processing instructions,
     /// and ensures any `Data` is expanded
     fn normalize_at_cursor(&mut self) -> Result<(), DeserializationError> {
-        let event = match self.events.as_mut_slice().get_mut(0) {
+        let event = match self.events.as_slice().get(0) {
             Some(event) => event,
             None => return Ok(()),
         };
@@ -202,8 +202,9 @@ impl<'de> SgmlDeserializer<'de> {
             SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } if name.is_empty() => {}
             _ => return Ok(()),
         }
+        // It stays there, for a target that ignores the error to meet it again
         Err(DeserializationError::Unsupported(
-            self.events.next().unwrap().into_owned(),
+            event.clone().into_owned(),
         ))
     }
 
@@ -216,6 +217,10 @@ impl<'de> SgmlDeserializer<'de> {
 
     /// Consumes the current event, asserting it is an open tag, and pushes it to the stack.
     fn push_elt(&mut self) -> Result<&str, DeserializationError> {
+        // A failed attempt must not consume the end of the parent
+        if let Ok(SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement) = self.peek() {
+            return Err(DeserializationError::ExpectedStartTag);
+        }
         let stag = match self.events.next() {
             Some(SgmlEvent::OpenStartTag { name }) => name,
             _ => return Err(DeserializationError::ExpectedStartTag),
@@ -266,6 +271,19 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(())
     }
 
+    /// Closes elements that were left open when the target type got over an error inside of them.
+    fn pop_down_to(&mut self, stack_size: usize) -> Result<(), DeserializationError> {
+        let mut result = Ok(());
+        while self.stack.len() > stack_size {
+            let remaining = self.events.len();
+            result = result.and(self.pop_elt());
+            if remaining == 0 {
+                self.stack.truncate(stack_size);
+            }
+        }
+        result
+    }
+
     /// Skips attributes, CloseStartTag and empty text, going to the main content.
     ///
     /// Should only be used immediately after `push_elt`.
@@ -353,7 +371,11 @@ impl<'de> SgmlDeserializer<'de> {
         seed: T,
     ) -> Result<T::Value, DeserializationError> {
         let remaining = self.events.len();
-        let value = seed.deserialize(&mut *self)?;
+        let stack_size = self.stack.len();
+        let result = seed.deserialize(&mut *self);
+        let closed = self.pop_down_to(stack_size);
+        let value = result?;
+        closed?;
         if self.events.len() == remaining {
             return Err(de::Error::custom("expected type has no content"));
         }
@@ -658,8 +680,10 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
 
         let value = visitor.visit_enum(EnumAccess::new(self, use_tag_name_for_variant))?;
         if enum_within_element && use_tag_name_for_variant {
+            self.pop_down_to(stack_size + 1)?;
             self.pop_elt()?;
         }
+        self.pop_down_to(stack_size)?;
 
         self.check_stack_size(stack_size);
         Ok(value)
@@ -805,7 +829,10 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
                 }
                 SgmlEvent::ProcessingInstruction(_)
                 | SgmlEvent::MarkupDeclaration { .. }
-                | SgmlEvent::MarkedSection { .. } => unreachable!(),
+                | SgmlEvent::MarkedSection { .. } => {
+                    self.de.normalize_at_cursor()?;
+                    continue;
+                }
             };
         }
     }
@@ -819,9 +846,9 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
 
         if self.next_entry_is_dollarvalue {
             self.de.accumulated_text = Some(self.text_content.take().unwrap().into_cow());
-            let value = seed.deserialize(&mut *self.de)?;
+            let value = seed.deserialize(&mut *self.de);
             self.de.accumulated_text = None;
-            Ok(value)
+            value
         } else if let Ok(SgmlEvent::Attribute { .. }) = self.de.peek() {
             self.de.deserialize_consuming(seed)
         } else {
-- 
2.43.0


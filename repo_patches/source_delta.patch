From 7d67160f4f0179561cbaf059c8e1ef5f9d9f4d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 01/13] fix: fold_line must always make progress

Stepping back over whitespace inside the char boundary search could move
the fold position back to (or before) the previous one, so lines with
multi-byte whitespace looped forever or underflowed.
---
 src/properties.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 07cae81..2b6bfa9 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -407,9 +407,6 @@ pub(crate) fn fold_line(line: &str) -> String {
 
         while !line.is_char_boundary(next_pos) {
             next_pos -= 1;
-            if pos_is_whitespace(line, next_pos) {
-                next_pos -= 1;
-            }
         }
         ret.push_str(&line[pos..next_pos]);
         ret.push_str("\r\n ");
-- 
2.43.0


From d48bfcb00d62cd35ef084843550f23665eb8a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 02/13] fix: unescape TEXT values in a single pass

Replacing one escape sequence after the other reinterprets what an
earlier replacement produced: `C:\\\\new` was read as `C:<newline>ew`.
---
 src/parser/parsed_string.rs | 42 ++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/parser/parsed_string.rs b/src/parser/parsed_string.rs
index f7af4b5..1a3d955 100644
--- a/src/parser/parsed_string.rs
+++ b/src/parser/parsed_string.rs
@@ -36,24 +36,32 @@ impl<'a> ParseString<'a> {
     }
 
     pub fn unescape_text(self) -> ParseString<'a> {
-        if self.0.contains(r#"\\"#)
-            || self.0.contains(r#"\,"#)
-            || self.0.contains(r#"\;"#)
-            || self.0.contains(r#"\:"#)
-            || self.0.contains(r#"\N"#)
-            || self.0.contains(r#"\n"#)
-        {
-            self.0
-                .replace(r#"\\"#, r#"\"#)
-                .replace(r#"\,"#, ",")
-                .replace(r#"\;"#, ";")
-                .replace(r#"\:"#, ":")
-                .replace(r#"\N"#, "\n")
-                .replace(r#"\n"#, "\n")
-                .into()
-        } else {
-            self
+        if !self.0.contains('\\') {
+            return self;
         }
+
+        let mut unescaped = String::with_capacity(self.0.len());
+        let mut chars = self.0.chars();
+        while let Some(c) = chars.next() {
+            if c != '\\' {
+                unescaped.push(c);
+                continue;
+            }
+            match chars.next() {
+                Some('n') | Some('N') => unescaped.push('\n'),
+                Some('\\') => unescaped.push('\\'),
+                Some(',') => unescaped.push(','),
+                Some(';') => unescaped.push(';'),
+                Some(':') => unescaped.push(':'),
+                // not an escape sequence, keep it as it is
+                Some(other) => {
+                    unescaped.push('\\');
+                    unescaped.push(other);
+                }
+                None => unescaped.push('\\'),
+            }
+        }
+        unescaped.into()
     }
 }
 
-- 
2.43.0


From c22b6dfe65c3a6c1ffab08839f1caae6e355d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 03/13] fix: escape and quote again when reserializing a parsed
 property

Parsing unescapes TEXT values and unquotes parameters, writing them back
verbatim produced broken content lines (e.g. raw line breaks).
---
 src/parser/properties.rs | 14 ++++++++++++--
 src/properties.rs        |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index c39bd16..8445309 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -69,12 +69,22 @@ impl Property<'_> {
         write!(line, "{}", self.name.as_str())?;
         for Parameter { key, val } in &self.params {
             if let Some(val) = val {
-                write!(line, ";{}={}", key.as_str(), val.as_str())?;
+                write!(
+                    line,
+                    ";{}={}",
+                    key.as_str(),
+                    crate::Property::quote_if_contains_colon(val.as_str())
+                )?;
             } else {
                 write!(line, ";{}", key.as_str())?;
             }
         }
-        write!(line, ":{}", self.val.as_str())?;
+        match determin_value_type(&self.name, &self.params) {
+            Some(ValueType::Text) => {
+                write!(line, ":{}", crate::Property::escape_text(self.val.as_str()))?
+            }
+            _ => write!(line, ":{}", self.val.as_str())?,
+        }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
     }
diff --git a/src/properties.rs b/src/properties.rs
index 2b6bfa9..3cc85b4 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -154,7 +154,7 @@ impl Property {
     }
 
     /// <https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.11>
-    fn escape_text(input: &str) -> String {
+    pub(crate) fn escape_text(input: &str) -> String {
         input
             .replace('\\', r#"\\"#)
             .replace(',', r#"\,"#)
@@ -162,7 +162,7 @@ impl Property {
             .replace('\n', r#"\N"#)
     }
 
-    fn quote_if_contains_colon(input: &str) -> String {
+    pub(crate) fn quote_if_contains_colon(input: &str) -> String {
         if input.contains([':', ';']) {
             let mut quoted = String::with_capacity(input.len() + 2);
             quoted.push('"');
-- 
2.43.0


From 1dc30dc7e6f758d4a72ad2ebc30edbd195bc2dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 04/13] fix: read all root components

all_consuming() rejected every component that was not the last one, so a
document with more than one root was silently read as empty.
---
 src/parser/components.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 292841f..b1168f4 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,7 +4,7 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{all_consuming, complete, cut},
+    combinator::{complete, cut},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
     Finish, IResult, Parser,
@@ -515,5 +515,5 @@ fn test_faulty_component() {
 pub fn components<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Vec<Component<'a>>, E> {
-    complete(many0(all_consuming(component)))(input)
+    complete(many0(component))(input)
 }
-- 
2.43.0


From da0f1c5b6d0e5bc7274b71a6021c1648e3ec2f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 05/13] fix: only reject the property names END and BEGIN
 themselves

not every name that starts with them, such as ENDPOINT.
---
 src/parser/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index d04c886..c689937 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -16,13 +16,14 @@ use super::parsed_string::ParseString;
 pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    if input.get(0..=2) == Some("END") || input.get(0..=4) == Some("BEGIN") {
+    let (rest, key) = valid_key_sequence(input)?;
+    if key == "END" || key == "BEGIN" {
         IResult::Err(Err::Error(nom::error::make_error(
             input,
             nom::error::ErrorKind::Satisfy,
         )))
     } else {
-        valid_key_sequence(input)
+        Ok((rest, key))
     }
 }
 
-- 
2.43.0


From bf72e829e4a2085c0e295dd5bf0ba5874ae1eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 06/13] fix: compare the whole name in an END line

END:VEVENTX closed a VEVENT and left the rest of the line to be read as
a property.
---
 src/parser/components.rs | 14 +++++++++++---
 src/parser/utils.rs      |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index b1168f4..4f895eb 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,9 +4,11 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{complete, cut},
+    character::complete::satisfy,
+    combinator::{complete, cut, not},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
+    sequence::terminated,
     Finish, IResult, Parser,
 };
 
@@ -20,7 +22,7 @@ use super::{
     parsed_string::ParseString,
     properties::property,
     unfold,
-    utils::{line, line_separated, valid_key_sequence_cow},
+    utils::{is_key_char, line, line_separated, valid_key_sequence_cow},
     Property,
 };
 
@@ -257,7 +259,13 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 line_separated(property).map(ComponentChild::Property),
             )),
         )),
-        line("END:", cut(context("mismatching end", tag(name.as_str())))),
+        line(
+            "END:",
+            cut(context(
+                "mismatching end",
+                terminated(tag(name.as_str()), not(satisfy(is_key_char))),
+            )),
+        ),
     )
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index c689937..4582b90 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -27,6 +27,10 @@ pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     }
 }
 
+pub fn is_key_char(c: char) -> bool {
+    c == '.' || c == ',' || c == '/' || c == '_' || c == '-' || c.is_alphanumeric()
+}
+
 pub fn valid_key_sequence<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-- 
2.43.0


From a775d2067e7cd31dd66035d37e43af195f1325dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 07/13] fix: parse negative durations

Trigger::before_start() and before_end() write them, reading them back
failed.
---
 src/components/date_time.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/date_time.rs b/src/components/date_time.rs
index 67b6c68..6e56af7 100644
--- a/src/components/date_time.rs
+++ b/src/components/date_time.rs
@@ -22,9 +22,15 @@ pub(crate) fn format_utc_date_time(utc_dt: DateTime<Utc>) -> String {
 }
 
 pub(crate) fn parse_duration(s: &str) -> Option<Duration> {
-    iso8601::duration(s)
+    // iso8601 does not know about the sign, which rfc5545 3.3.6 allows in front
+    let (negative, s) = match s.strip_prefix('-') {
+        Some(s) => (true, s),
+        None => (false, s.strip_prefix('+').unwrap_or(s)),
+    };
+    let duration = iso8601::duration(s)
         .ok()
-        .and_then(|iso| Duration::from_std(iso.into()).ok())
+        .and_then(|iso| Duration::from_std(iso.into()).ok())?;
+    Some(if negative { -duration } else { duration })
 }
 
 pub(crate) fn naive_date_to_property(date: NaiveDate, key: &str) -> Property {
-- 
2.43.0


From f18271cb64f0d7171dfd449fe10fe148839722e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 08/13] fix: keep the TZID of an absolute trigger

---
 src/components/alarm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/components/alarm.rs b/src/components/alarm.rs
index 3b45d89..006e48c 100644
--- a/src/components/alarm.rs
+++ b/src/components/alarm.rs
@@ -519,7 +519,9 @@ pub mod properties {
             match (prop.key(), prop.params().get("VALUE").map(Parameter::value)) {
                 ("TRIGGER", Some("DATE-TIME")) => {
                     // date-time needs to be qualified "VALUE=DATE-TIME"
-                    CalendarDateTime::from_str(prop.value()).map(Trigger::from)
+                    CalendarDateTime::from_property(prop)
+                        .map(Trigger::from)
+                        .ok_or(())
                 }
                 ("TRIGGER", Some("DURATION") | None) => {
                     // duration is the assumed default or "VALUE=DURATION"
-- 
2.43.0


From 57460e0f1b30ca186c3fd848aa006def08f64271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 09/13] fix: read the timezone from the property that
 timezone() writes

---
 src/calendar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index 118142c..e1aa9af 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -177,9 +177,9 @@ impl Calendar {
         self
     }
 
-    /// Gets the value of the `TIMEZONE_ID` or `X-WR-TIMEZONE` property.
+    /// Gets the value of the `TIMEZONE-ID` or `X-WR-TIMEZONE` property.
     pub fn get_timezone(&self) -> Option<&str> {
-        self.property_value("TIMEZONE_ID")
+        self.property_value("TIMEZONE-ID")
             .or_else(|| self.property_value("X-WR-TIMEZONE"))
     }
 
-- 
2.43.0


From 387b8642ce365b190b202802f12e886328649907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 10/13] fix: the property is called LAST-MODIFIED

last_modified() wrote LAST_MODIFIED, which no other application reads,
and get_last_modified() did not find the LAST-MODIFIED others write.
---
 src/components.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 117fbf8..0de7e77 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -283,16 +283,16 @@ pub trait Component {
         self.property_value("URL")
     }
 
-    /// Set the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
+    /// Set the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
     ///
     /// This must be a UTC date-time value.
     fn last_modified(&mut self, dt: DateTime<Utc>) -> &mut Self {
-        self.add_property("LAST_MODIFIED", format_utc_date_time(dt))
+        self.add_property("LAST-MODIFIED", format_utc_date_time(dt))
     }
 
-    /// Gets the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
+    /// Gets the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
     fn get_last_modified(&self) -> Option<DateTime<Utc>> {
-        parse_utc_date_time(self.property_value("LAST_MODIFIED")?)
+        parse_utc_date_time(self.property_value("LAST-MODIFIED")?)
     }
 
     /// Set the [`CREATED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.1) [`Property`]
-- 
2.43.0


From caa61727e770b6dd33a9fbf630e5c152280fdef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 11/13] fix: keep repeated RELATED-TO and REQUEST-STATUS
 properties

MULTIS listed their ABNF rule names, so all but the last were dropped.
---
 src/parser/properties.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 8445309..15e5e00 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -36,9 +36,9 @@ const MULTIS: [&str; 13] = [
     "FREEBUSY",
     "IANA-PROP",
     "RDATE",
-    "RELATED",
+    "RELATED-TO",
     "RESOURCES",
-    "RSTATUS",
+    "REQUEST-STATUS",
     "X-PROP",
 ];
 
-- 
2.43.0


From 95bbb8790ea1a830407e9e57acd8004440d65be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 12/13] fix: the last line of a folded content line may be 74
 octets long

Its leading space counts, so a rest of 75 octets gave a line of 76.
---
 src/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.rs b/src/properties.rs
index 3cc85b4..6f2a9ae 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -394,7 +394,7 @@ pub(crate) fn fold_line(line: &str) -> String {
     let mut pos = 0;
     let mut next_pos = LIMIT;
 
-    while bytes_remaining > LIMIT {
+    while len > next_pos {
         let pos_is_whitespace = |line: &str, next_pos| {
             line.chars()
                 .nth(next_pos)
-- 
2.43.0


From 649ac9193acf9ce9a2fc94e6dd7eb433055e4d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 13/13] fix: fold BEGIN and END lines of components with long
 names

---
 src/components.rs        | 12 ++++++++++--
 src/parser/components.rs |  5 +++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 0de7e77..b3ccf86 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -92,7 +92,11 @@ pub trait Component {
 
     /// Writes [`Component`] using [`std::fmt`].
     fn fmt_write<W: fmt::Write>(&self, out: &mut W) -> Result<(), fmt::Error> {
-        write_crlf!(out, "BEGIN:{}", self.component_kind())?;
+        write_crlf!(
+            out,
+            "{}",
+            fold_line(&format!("BEGIN:{}", self.component_kind()))
+        )?;
 
         if !self.properties().contains_key("DTSTAMP") {
             let now = Utc::now();
@@ -115,7 +119,11 @@ pub trait Component {
             component.fmt_write(out)?;
         }
 
-        write_crlf!(out, "END:{}", self.component_kind())?;
+        write_crlf!(
+            out,
+            "{}",
+            fold_line(&format!("END:{}", self.component_kind()))
+        )?;
         Ok(())
     }
 
diff --git a/src/parser/components.rs b/src/parser/components.rs
index 4f895eb..9520ea8 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -32,6 +32,7 @@ use pretty_assertions::assert_eq;
 use crate::{
     calendar::CalendarComponent,
     components::{date_time::format_utc_date_time, InnerComponent, Other},
+    properties::fold_line,
 };
 
 /// The parsing equivalent of [`crate::components::Component`]
@@ -69,7 +70,7 @@ pub(crate) trait LikeComponent<'a> {
 
     /// Writes `Component` into a `Writer` using `std::fmt`.
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
-        write_crlf!(out, "BEGIN:{}", self.name())?;
+        write_crlf!(out, "{}", fold_line(&format!("BEGIN:{}", self.name())))?;
 
         if self.name().to_lowercase() == "calendar" {
             if !self
@@ -97,7 +98,7 @@ pub(crate) trait LikeComponent<'a> {
             component.fmt_write(out)?;
         }
 
-        write_crlf!(out, "END:{}", self.name())?;
+        write_crlf!(out, "{}", fold_line(&format!("END:{}", self.name())))?;
         Ok(())
     }
 }
-- 
2.43.0


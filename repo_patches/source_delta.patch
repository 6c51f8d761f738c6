From a5660e2f10352a4622c7711cbcbfc1e023f5b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:45 +0000
Subject: [PATCH 01/58] fix: restricted mode panicked on URLs containing an
 ampersand

---
 src/htmltools.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/htmltools.rs b/src/htmltools.rs
index e9582ef..12537a5 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -52,6 +52,7 @@ pub(crate) fn reverse_encode_html(text: &str) -> Cow<str> {
     ENTITY_RE.replace_all(text, |cap: &Captures| {
         let entity = &cap[1];
         match entity {
+            "&amp;" => "&",
             "&lt;" => "<",
             "&gt;" => ">",
             "&quot;" => "\"",
-- 
2.43.0


From de636bfd6b752ba8665dab0fb557a89c840e71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:45 +0000
Subject: [PATCH 02/58] fix: endless loop when looking for the start of a link
 with unbalanced quotes

---
 src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cfb3a80..02c4d28 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -686,9 +686,9 @@ impl <'t> ParserState<'t> {
                     if END_NOSPACE_RE.find(possibility).unwrap_or(None).is_some() {
                         balanced += 1;
                     }
-                    if let Some(p) = possible_start_quotes.pop() {
-                        possibility = p;
-                    }
+                    // When out of possible starting segments, continue with
+                    // an empty one: this ends the search below.
+                    possibility = possible_start_quotes.pop().unwrap_or_default();
                 } else {
                     // If quotes occur next to each other, we get zero
                     // length strings.  eg. ...""Open the door,
-- 
2.43.0


From 0cebdaf61a6f6af622d08c8b1a4fe00c22cb42f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:45 +0000
Subject: [PATCH 03/58] fix: panic or corrupted text on line breaks after
 non-ASCII text in lists and table cells

---
 src/parser.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 02c4d28..6ba25a3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1003,12 +1003,11 @@ impl <'t> ParserState<'t> {
     /// unless it is inappropriate (like when a <br> is already there).
     pub(crate) fn do_tag_br<'a>(&mut self, tag: &'static str, input: &'a str) -> Cow<'a, str> {
 
-        fn eq_ignore_ascii_case(a: &str, b: &str) -> bool {
-            if a.len() == b.len() {
-                a.chars().zip(b.chars()).all(|(a_c, b_c)| a_c.eq_ignore_ascii_case(&b_c))
-            } else {
-                false
-            }
+        fn ends_with_ignore_ascii_case(text: &str, suffix: &str) -> bool {
+            // Compares bytes, as the suffix may start in the middle of a character
+            let (text, suffix) = (text.as_bytes(), suffix.as_bytes());
+            text.len() >= suffix.len()
+                && text[text.len() - suffix.len()..].eq_ignore_ascii_case(suffix)
         }
         // Performs an equivalent of
         // `replace_all`with a regular expression
@@ -1025,20 +1024,17 @@ impl <'t> ParserState<'t> {
             // The <br> is not appropriate to insert after the following prefixes
             const STOP_PREFIXES: [&str; 6] = ["</dd>", "</dt>", "</li>", "<br/>", "<br>", "<br />"];
             let mut output = String::with_capacity(text.len() + num_newlines * br.len());
-            let lc_text = text.to_lowercase();
             let mut next_start = 0;
-            while let Some(rel_newline_pos) = lc_text[next_start..].find('\n') {
+            while let Some(rel_newline_pos) = text[next_start..].find('\n') {
                 let abs_newline_pos = next_start + rel_newline_pos;
                 output += &text[next_start..abs_newline_pos];
                 // Make sure the following characters do not make <br> inappropriate
-                let is_next_good = !lc_text[abs_newline_pos + 1..]
+                let is_next_good = !text[abs_newline_pos + 1..]
                     .starts_with(|c| char::is_whitespace(c) || c == '|');
                 if is_next_good {
                     // The preceding sequence should also be appropriate for <br>
                     let is_prefix_good = !STOP_PREFIXES.iter().any(|p| {
-                        let prefix_start = abs_newline_pos - p.len().min(abs_newline_pos);
-                        let prefix = &lc_text[prefix_start..abs_newline_pos];
-                        eq_ignore_ascii_case(prefix, *p)
+                        ends_with_ignore_ascii_case(&text[..abs_newline_pos], p)
                     });
                     if is_prefix_good {
                         output += br;
-- 
2.43.0


From 9b6dee268331e7597f8bcf2642117c32cd0ac7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:45 +0000
Subject: [PATCH 04/58] fix: arithmetic overflow on an ordered list starting at
 the largest number

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6ba25a3..38aa63a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -941,7 +941,7 @@ impl <'t> ParserState<'t> {
                     }
 
                     if show_item {
-                        *start_value += 1;
+                        *start_value = start_value.saturating_add(1);
                     }
                 }
 
-- 
2.43.0


From 59ae429e760b38dd2e83efd25496a93777c82d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:56 +0000
Subject: [PATCH 05/58] fix: "$" links let raw HTML through in restricted mode

---
 src/parser.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 38aa63a..58e8357 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -500,6 +500,15 @@ impl <'t> ParserState<'t> {
         }
     }
 
+    /// Encodes again a text that was decoded by `unrestrict_url`.
+    fn restrict_text<'u>(&self, text: &'u str) -> Cow<'u, str> {
+        if self.textile.restricted {
+            encode_html(text, false, false).into()
+        } else {
+            text.into()
+        }
+    }
+
     /// Capture and store URL references in `self.urlrefs`.
     fn get_refs<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
@@ -1442,11 +1451,11 @@ impl <'t> ParserState<'t> {
 
             let text: Cow<str> = if text == "$" {
                 if scheme_in_list {
-                    make_url_readable(&url).into()
+                    self.restrict_text(make_url_readable(&url)).into_owned().into()
                 } else if let Some(rurl) = self.urlrefs.get(url.as_ref()) {
                     encode_html(make_url_readable(rurl.source()), true, true).into()
                 } else {
-                    url
+                    self.restrict_text(&url).into_owned().into()
                 }
             } else {
                 text.into()
-- 
2.43.0


From a9108c8863e8c08ec0b43c111d6374db608c9cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:56 +0000
Subject: [PATCH 06/58] fix: image links accepted URL schemes which are not
 allowed

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 58e8357..fc983f6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -561,6 +561,11 @@ impl <'t> ParserState<'t> {
             if !self.is_valid_url(url) {
                 return cap[0].to_owned();
             }
+            if let Some(href) = cap.get(5) {
+                if !self.is_valid_url(href.as_str()) {
+                    return cap[0].to_owned();
+                }
+            }
             let mut atts = if let Some(attributes) = cap.get(2) {
                 BlockAttributes::parse(attributes.as_str(), None, true, self.textile.restricted).html_attrs()
             } else {
-- 
2.43.0


From b9ca606f9f5f9c9d32c1da3016049f65f2653bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:56 +0000
Subject: [PATCH 07/58] fix: citations accepted URL schemes which are not
 allowed

---
 src/block.rs  | 2 +-
 src/parser.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 3e4d568..aa7e325 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -385,7 +385,7 @@ impl Block {
         match new_tag {
             "bq" => {
                 let mut html_attributes = attributes.html_attrs();
-                if let Some(ref cite) = cite {
+                if let Some(cite) = cite.filter(|url| ps.is_valid_url(url)) {
                     let shelved_url = ps.shelve_url(
                         ps.unrestrict_url(cite.as_str()).into());
                     html_attributes.insert("cite", shelved_url);
diff --git a/src/parser.rs b/src/parser.rs
index fc983f6..cb05e54 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1508,7 +1508,7 @@ impl <'t> ParserState<'t> {
         prev_text
     }
 
-    fn is_valid_url(&self, url: &str) -> bool {
+    pub(crate) fn is_valid_url(&self, url: &str) -> bool {
         let uri_parts = UrlBits::parse(url);
         if uri_parts.scheme().is_empty() {
             true
@@ -1570,7 +1570,7 @@ impl <'t> ParserState<'t> {
             };
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
-            if let Some(cite) = cap.get(4) {
+            if let Some(cite) = cap.get(4).filter(|m| self.is_valid_url(m.as_str().trim())) {
                 html_atts.insert("cite", cite.as_str().trim().to_owned());
             }
             let content = &cap[5];
-- 
2.43.0


From 93673253dc66adf8afcf2618408b96dd7763fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:56 +0000
Subject: [PATCH 08/58] fix: link aliases accepted URL schemes which are not
 allowed

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cb05e54..f059b13 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -526,13 +526,16 @@ impl <'t> ParserState<'t> {
         } else {
             &UNRESTRICTED_URLREF_RE
         };
-        urlref_re.replace_all(text, |cap: &Captures| -> &str {
+        urlref_re.replace_all(text, |cap: &Captures| -> String {
             let flag = &cap[1];
+            if !self.is_valid_url(&cap[2]) {
+                return cap[0].to_owned();
+            }
             let url = self.unrestrict_url(&cap[2]).into_owned();
             self.urlrefs.insert(
                 flag.to_string(),
                 url.into());
-            ""
+            String::new()
         })
     }
 
-- 
2.43.0


From 1a19a082ecb75946db2d7cfb929c16d30c56f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:35 +0000
Subject: [PATCH 09/58] fix: a note defined before its first reference lost its
 definition

---
 src/parser.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f059b13..abc29ba 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1170,16 +1170,15 @@ impl <'t> ParserState<'t> {
                 num.clone()
             } else {
                 let num = self.note_index.to_string();
-                self.notes.insert(
-                    label.to_string(),
-                    NoteInfo {
-                        seq: Some(num.clone()),
+                self.notes.entry(label.to_string()).or_insert_with(
+                    || NoteInfo {
+                        seq: None,
                         id: "".to_owned(),
                         refids: Default::default(),
                         attrs: None,
                         content: None,
                         link: None,
-                    });
+                    }).seq = Some(num.clone());
                 self.note_index += 1;
                 num
             };
-- 
2.43.0


From cde8f2680c7d7dbdb962f7872b331468ba6b549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:35 +0000
Subject: [PATCH 10/58] fix: repeated note lists disappeared from the document

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index abc29ba..88068d2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -366,6 +366,8 @@ impl <'t> ParserState<'t> {
                 }
                 result = o.join("\n");
                 self.notelist_cache.insert(index, result.clone());
+            } else {
+                result.push_str(&self.notelist_cache[&index]);
             }
             if result.is_empty() {
                 result
-- 
2.43.0


From ba47db94329121de90e7836efdf3424add25b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:35 +0000
Subject: [PATCH 11/58] fix: lists of ten or more notes were sorted
 alphabetically

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 88068d2..687e659 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -313,7 +313,8 @@ impl <'t> ParserState<'t> {
                 let mut info_clone = info.clone();
                 if let Some(ref i) = info.seq {
                     info_clone.seq = Some(label.clone());
-                    o.insert(i.clone(), info_clone);
+                    // zero-padded to sort the numbers by their value
+                    o.insert(format!("{:0>10}", i), info_clone);
                 } else {
                     self.unreferenced_notes.insert(label.clone(), info_clone);
                 }
-- 
2.43.0


From 07283d6aaa5440edfa58bb35599f14945d3af761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:35 +0000
Subject: [PATCH 12/58] fix: repeated note definitions replaced the first one

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 687e659..24566da 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -249,7 +249,7 @@ impl <'t> ParserState<'t> {
         if self.notes.contains_key(label) {
             let note_content = self.graf(content).into_owned();
             if let Some(mut note) = self.notes.get_mut(label) {
-                if note.link.is_none() {
+                if note.content.is_none() {
                     note.link = if link.is_empty() { None } else { Some(link.into()) };
                     note.attrs = Some(
                         BlockAttributes
-- 
2.43.0


From fa2c4efea55e5881b2b97ac266f4838d3998cfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:35 +0000
Subject: [PATCH 13/58] fix: image links ignored the "rel" setting

---
 src/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 24566da..f05f639 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -622,10 +622,12 @@ impl <'t> ParserState<'t> {
                 let shelved_href = self.shelve_url(
                     self.unrestrict_url(href.as_str()).into());
                 if !shelved_href.is_empty() {
-                    generate_tag(
-                        "a",
-                        Some(&img),
-                        &[("href".into(), shelved_href)])
+                    let mut link_atts = BlockHtmlAttributes::default();
+                    link_atts.insert("href", shelved_href);
+                    if let Some(ref rel) = self.textile.rel {
+                        link_atts.insert("rel", rel.clone());
+                    }
+                    generate_tag("a", Some(&img), &link_atts)
                 } else {
                     img
                 }
-- 
2.43.0


From bb6afe9aefc9ab37f7a9278f92effd1c514823a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:35 +0000
Subject: [PATCH 14/58] fix: set_align_class consumed the parser, so its
 setting could never be used

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f05f639..2620258 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2072,8 +2072,9 @@ impl Textile {
     ///
     /// If not set, for XHTML the "align" attribute is going to be used,
     /// and for HTML5 the `align-...` class will be added instead.
-    pub fn set_align_class(mut self, value: bool) {
+    pub fn set_align_class(mut self, value: bool) -> Self {
         self.align_class_enabled = Some(value);
+        self
     }
 
     /// Enables and disables raw blocks.
-- 
2.43.0


From 90270db6b08c0835dee7c55172dcbdd349f39ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:35 +0000
Subject: [PATCH 15/58] fix: set_uid broke a parser that was already used for
 parsing

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2620258..979a576 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2137,6 +2137,8 @@ impl Textile {
     /// is to guarantee stable outputs in automated tests.
     pub fn set_uid(mut self, base_id: &str) -> Self {
         self.uid = format!("textileRef:{0}:", base_id);
+        // the cached expressions depend on the uid
+        self.regex_cache = Default::default();
         self.link_prefix = format!("{0}-", base_id);
         let dyn_3plus_replacement = format!(
             r#"$1<span class="caps">{0}:glyph:$2</span>$3"#,
-- 
2.43.0


From f4215dfb905c0533e09f9d7dc935027139f3fad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:35 +0000
Subject: [PATCH 16/58] fix: set_uid panicked or misbehaved with special
 characters in the uid

---
 src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 979a576..eabd064 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -417,7 +417,7 @@ impl <'t> ParserState<'t> {
             .or_default()
             .entry("")
             .or_insert_with(
-                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", self.textile.uid)));
+                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", fancy_regex::escape(&self.textile.uid))));
 
         let retrieve_url = |cap: &Captures| -> String {
             let token = &cap["token"];
@@ -1298,7 +1298,7 @@ impl <'t> ParserState<'t> {
                             "\":",
                             // url upto a stopchar
                             r"(?P<urlx>[^{1}]*)"),
-                        needle, STOPCHARS)));
+                        fancy_regex::escape(&needle), STOPCHARS)));
 
         let mut f_link = |cap: &Captures| -> String {
             let in_ = &cap[0];
@@ -1626,7 +1626,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", self.textile.uid)));
+                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", fancy_regex::escape(&self.textile.uid))));
             open_tag_re.replace_all(text, f_retrieve_tags)
         };
         let result = {
@@ -1637,7 +1637,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", self.textile.uid)));
+                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", fancy_regex::escape(&self.textile.uid))));
             close_tag_re.replace_all(&result, f_retrieve_tags)
         };
         result.into_owned()
@@ -2142,7 +2142,7 @@ impl Textile {
         self.link_prefix = format!("{0}-", base_id);
         let dyn_3plus_replacement = format!(
             r#"$1<span class="caps">{0}:glyph:$2</span>$3"#,
-            &self.uid);
+            self.uid.replace('$', "$$"));
         self.dyn_glyph_replacers = [
             // 3+ uppercase
             (DYN_3PLUS_RE.clone(), dyn_3plus_replacement),
-- 
2.43.0


From 6d77880dfda8bf05cb25c86126372e0a24a743f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:20 +0000
Subject: [PATCH 17/58] fix: internal placeholders leaked into URLs

---
 src/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index eabd064..fc39627 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1446,7 +1446,12 @@ impl <'t> ParserState<'t> {
                 }
             }
 
-            let url: String = url_chars.iter().collect();
+            let mut url: String = url_chars.iter().collect();
+            // A piece of already processed text can't be a part of the url
+            if let Some(pos) = url.find(&self.textile.uid) {
+                pop.insert_str(0, &url[pos..]);
+                url.truncate(pos);
+            }
 
             let url = self.unrestrict_url(&url);
             let uri_parts = UrlBits::parse(&url);
@@ -1517,7 +1522,10 @@ impl <'t> ParserState<'t> {
 
     pub(crate) fn is_valid_url(&self, url: &str) -> bool {
         let uri_parts = UrlBits::parse(url);
-        if uri_parts.scheme().is_empty() {
+        if url.contains(&self.textile.uid) {
+            // a piece of already processed text can't be a part of the url
+            false
+        } else if uri_parts.scheme().is_empty() {
             true
         } else {
             let allowed_schemes = if self.textile.restricted {
-- 
2.43.0


From b51fedb5772b61fda1439454cfc8a08a3d7e795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:20 +0000
Subject: [PATCH 18/58] fix: internal placeholders could be forged by nesting
 them

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index fc39627..025a999 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1953,8 +1953,10 @@ impl Textile {
         };
 
         let mut state = ParserState::new(self);
-        let text = normalize_newlines(&text)
-            .replace(&state.textile.uid, "");
+        let mut text = normalize_newlines(&text);
+        while text.contains(&state.textile.uid) {
+            text = text.replace(&state.textile.uid, "");
+        }
 
         let text = if self.block_tags {
             let text = state.block(&text);
-- 
2.43.0


From c0bf1f7557d9df60c1cbd2c38add9e1418ef9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:20 +0000
Subject: [PATCH 19/58] fix: already processed text could break out of the
 attributes it was used in

---
 src/parser.rs | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 025a999..01f9fda 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -170,6 +170,27 @@ fn get_special_options<'a,'b>(pre: &'a str, tail: &'b str) -> (&'a str, &'b str)
     (pre, tail)
 }
 
+/// Prepares a piece of already processed HTML for being restored right after
+/// the given text. When that is within the attributes of some tag (for example,
+/// as a part of an image's title), it must not be able to change the tag.
+fn restore_after<'v>(text: &str, value: &'v str) -> Cow<'v, str> {
+    let within_tag = match text.rfind(|c| c == '<' || c == '>') {
+        Some(pos) => text[pos..].starts_with('<')
+            && text[pos + 1..].starts_with(|c: char| c.is_ascii_alphabetic()),
+        None => false,
+    };
+    if within_tag {
+        value
+            .replace('<', "&lt;")
+            .replace('>', "&gt;")
+            .replace('"', "&quot;")
+            .replace('\'', "&#39;")
+            .into()
+    } else {
+        value.into()
+    }
+}
+
 fn make_url_readable(url: &str) -> &str {
     for pattern in ["://", ":"] {
         if let Some(pos) = url.find(pattern) {
@@ -401,7 +422,15 @@ impl <'t> ParserState<'t> {
         loop {
             let old = new_text.clone();
             for (k, v) in self.shelf.iter() {
-                new_text = new_text.replace(k, v);
+                if new_text.contains(k) {
+                    let mut pieces = new_text.split(k.as_str());
+                    let mut restored = pieces.next().unwrap_or_default().to_owned();
+                    for piece in pieces {
+                        restored += &restore_after(&restored, v);
+                        restored += piece;
+                    }
+                    new_text = restored;
+                }
             }
             if new_text == old {
                 break;
@@ -1622,9 +1651,11 @@ impl <'t> ParserState<'t> {
     }
 
     fn retrieve_tags(&self, text: &str) -> String {
-        let f_retrieve_tags = |cap: &Captures| -> String {
+        let f_retrieve_tags = |text: &str, cap: &Captures| -> String {
             let tag_id = cap[1].parse::<u32>().expect("must be an integer");
-            self.ref_cache.get(&tag_id).cloned().unwrap_or_default()
+            let tag = self.ref_cache.get(&tag_id).map(String::as_str).unwrap_or_default();
+            let start = cap.get(0).map(|m| m.start()).unwrap_or_default();
+            restore_after(&text[..start], tag).into_owned()
         };
         let result = {
             let mut regex_cache = self.textile.regex_cache.borrow_mut();
@@ -1635,7 +1666,7 @@ impl <'t> ParserState<'t> {
                 .entry("")
                 .or_insert_with(
                     || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", fancy_regex::escape(&self.textile.uid))));
-            open_tag_re.replace_all(text, f_retrieve_tags)
+            open_tag_re.replace_all(text, |cap: &Captures| f_retrieve_tags(text, cap))
         };
         let result = {
             let mut regex_cache = self.textile.regex_cache.borrow_mut();
@@ -1646,9 +1677,9 @@ impl <'t> ParserState<'t> {
                 .entry("")
                 .or_insert_with(
                     || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", fancy_regex::escape(&self.textile.uid))));
-            close_tag_re.replace_all(&result, f_retrieve_tags)
+            close_tag_re.replace_all(&result, |cap: &Captures| f_retrieve_tags(&result, cap)).into_owned()
         };
-        result.into_owned()
+        result
     }
 
     pub fn block<'b>(&mut self, text: &'b str) -> String {
-- 
2.43.0


From 7d9b209c6342786a0b95acce6c34f42ea6c36d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:20 +0000
Subject: [PATCH 20/58] fix: code was escaped twice in restricted mode

---
 src/block.rs  | 4 ++--
 src/parser.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index aa7e325..ab8563c 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -396,7 +396,7 @@ impl Block {
                 outer_closing = "\n</blockquote>".into();
             },
             "bc" => {
-                new_content = ps.shelve(encode_html(&new_content, true, false)).into();
+                new_content = ps.shelve(encode_html(&ps.unrestrict_url(&new_content), true, false)).into();
                 let mut inner_atts = BlockHtmlAttributes::default();
                 if let Some(lang) = attributes.lang.clone() {
                     attributes.lang = None;
@@ -413,7 +413,7 @@ impl Block {
                 outer_closing = "</code></pre>".into();
             }
             "pre" => {
-                new_content = ps.shelve(encode_html(&new_content, true, false)).into();
+                new_content = ps.shelve(encode_html(&ps.unrestrict_url(&new_content), true, false)).into();
                 outer_opening = format!("<pre{}>", attributes.html_attrs().to_string());
                 outer_closing = "</pre>".into();
             },
diff --git a/src/parser.rs b/src/parser.rs
index 01f9fda..08c2830 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -487,7 +487,7 @@ impl <'t> ParserState<'t> {
             let (before, text) = (&cap[1], &cap[2]);
             let after = unwrap_or_empty(cap.get(3));
             let (before, after) = get_special_options(before, after);
-            let text = encode_html(text, false, false);
+            let text = encode_html(&parser.unrestrict_url(text), false, false);
             String::from(before) + &parser.shelve(format!("<code>{0}</code>", text)) + after
         }
 
@@ -496,7 +496,7 @@ impl <'t> ParserState<'t> {
             let after = unwrap_or_empty(cap.get(3));
             let (before, after) = get_special_options(before, after);
             // text needs to be escaped
-            let text = encode_html(text, true, false);
+            let text = encode_html(&parser.unrestrict_url(text), true, false);
             String::from(before) + "<pre>" + &parser.shelve(text) + "</pre>" + after
         }
 
-- 
2.43.0


From 7152ac6b71de0c22d5377954379a90e7a4c0005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:20 +0000
Subject: [PATCH 21/58] fix: titles of links and images were escaped twice in
 restricted mode

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 08c2830..972cc9e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -629,8 +629,8 @@ impl <'t> ParserState<'t> {
                 }
             }
 
-            let optional_title = cap.get(4).map(|m| m.as_str());
-            atts.insert("alt", optional_title.unwrap_or_default().to_owned());
+            let optional_title = cap.get(4).map(|m| self.unrestrict_url(m.as_str()));
+            atts.insert("alt", optional_title.as_deref().unwrap_or_default().to_owned());
 
             if !UrlBits::parse(url).is_relative() && self.textile.get_sizes {
                 if let Some((width, height)) = get_image_size(url) {
@@ -643,7 +643,7 @@ impl <'t> ParserState<'t> {
             atts.insert("src", url_id);
 
             if let Some(title) = optional_title {
-                atts.insert("title", title.to_owned());
+                atts.insert("title", title.into_owned());
             }
 
             let img = generate_tag("img", None, &atts);
@@ -1508,7 +1508,7 @@ impl <'t> ParserState<'t> {
             };
 
             let text = text.trim();
-            let title = encode_html(title, false, false);
+            let title = encode_html(&self.unrestrict_url(title), false, false);
 
             let text = if !self.textile.noimage {
                 self.image(text)
-- 
2.43.0


From dc26e7c5318be05b43778034aa9576e385143648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:53 +0000
Subject: [PATCH 22/58] fix: set_raw_blocks had no effect

---
 src/htmltools.rs | 37 +++++++++++++++++++++++++------------
 src/parser.rs    |  5 +++--
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/htmltools.rs b/src/htmltools.rs
index 12537a5..41397e8 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -270,24 +270,37 @@ pub(crate) fn unescape(s: &str) -> Cow<str> {
 }
 
 
+const PHRASING_CONTENT: &str = concat!(
+    "abbr|acronym|area|audio|a|bdo|br|button|b|canvas|cite|code|command|",
+    "data|datalist|del|dfn|em|embed|iframe|img|input|ins|i|kbd|keygen|",
+    "label|link|map|mark|math|meta|meter|noscript|object|output|progress|",
+    "q|ruby|samp|script|select|small|span|strong|sub|sup|svg|textarea|",
+    "time|var|video|wbr",
+);
+lazy_static! {
+    static ref WRAPPED_RE: Regex = fregex!(
+        r"(?si)^</?([^\s<>/]+)[^<>]*?>(?:.*</\1\s*?>)?$");
+    static ref PHRASING_RE: Regex = fregex!(
+        &format!(r"(?i)^(?:{0})$", PHRASING_CONTENT));
+}
+
+/// Tells if the text is wrapped in a tag which is neither a block nor a phrasing one.
+pub(crate) fn is_raw_block(text: &str) -> bool {
+    lazy_static! {
+        static ref BLOCK_RE: Regex = fregex!(&format!(r"(?i)^(?:{0})$", BLOCK_CONTENT));
+    }
+    WRAPPED_RE.captures(text).unwrap_or_default().map_or(false, |m| {
+        !PHRASING_RE.is_match(&m[1]).unwrap_or_default()
+            && !BLOCK_RE.is_match(&m[1]).unwrap_or_default()
+    })
+}
+
 pub(crate) fn has_raw_text(text: &str) -> bool {
-    const PHRASING_CONTENT: &str = concat!(
-        "abbr|acronym|area|audio|a|bdo|br|button|b|canvas|cite|code|command|",
-        "data|datalist|del|dfn|em|embed|iframe|img|input|ins|i|kbd|keygen|",
-        "label|link|map|mark|math|meta|meter|noscript|object|output|progress|",
-        "q|ruby|samp|script|select|small|span|strong|sub|sup|svg|textarea|",
-        "time|var|video|wbr",
-    );
     lazy_static! {
         static ref UNWRAPPABLE_RE: Regex = fregex!(
             &format!(r"(?si)</?(?:{0})(?:\s[^<>]*?|/?)>", BLOCK_CONTENT));
-        static ref WRAPPED_RE: Regex = fregex!(
-            r"(?si)^</?([^\s<>/]+)[^<>]*?>(?:.*</\1\s*?>)?$");
-        static ref PHRASING_RE: Regex = fregex!(
-            &format!(r"(?i)^(?:{0})$", PHRASING_CONTENT));
     }
 
-
     if UNWRAPPABLE_RE.is_match(text).unwrap_or_default()
             || DIVIDER_RE.is_match(text).unwrap_or_default() {
         false
diff --git a/src/parser.rs b/src/parser.rs
index 972cc9e..e51d042 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,7 @@ use fancy_regex::{Regex, Captures, Replacer, Match};
 
 use crate::charcounter::CharCounter;
 use crate::regextra::{split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
-use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, reverse_encode_html};
+use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, is_raw_block, reverse_encode_html};
 use crate::table::{process_table, TABLE_SPAN_RE_S};
 use crate::urlutils::{UrlBits, UrlString};
 use crate::block::{Block, BlockAttributes, BlockHtmlAttributes};
@@ -1753,7 +1753,8 @@ impl <'t> ParserState<'t> {
                     + &bdata.inner_closing
                     + if ext.is_empty() { &bdata.outer_closing } else { "" }
             } else {
-                let raw_block = DIVIDER_RE.is_match(block).unwrap_or_default();
+                let raw_block = DIVIDER_RE.is_match(block).unwrap_or_default()
+                    || (self.textile.raw_block_enabled && is_raw_block(block));
                 if !ext.is_empty() || (!block.starts_with(' ') && !raw_block) {
                     let bdata =  Block::new(tag, atts, cite, block, self);
                     eat = bdata.eat;
-- 
2.43.0


From 41deabed79496072a6542545888987c23151be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:28 +0000
Subject: [PATCH 23/58] fix: text of a footnote could break the markup of its
 number

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index ab8563c..7eac6fb 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -376,7 +376,7 @@ impl Block {
                     &[("href".to_owned(), format!("#fnrev{}", fnid))]);
                 generate_tag("sup", Some(&fnrev), &sup_html_attrs)
             };
-            new_content = format!("{} {}", sup, &new_content).into();
+            new_content = format!("{} {}", ps.shelve(sup), &new_content).into();
             "p"
         } else {
             tag
-- 
2.43.0


From 636a62c48c51534f5d45bf30115bb674408f3063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:49 +0000
Subject: [PATCH 24/58] fix: the first reference to an already defined note
 linked to nowhere

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e51d042..da4fa3e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1225,6 +1225,9 @@ impl <'t> ParserState<'t> {
             let new_id: Cow<str> = if is_note_id_empty {
                 let new_index = self.increment_link_index();
                 format!("{0}{1}", self.textile.link_prefix, new_index).into()
+            } else if self.notes[label].refids.is_empty() {
+                // the note has been defined before its first reference
+                self.notes[label].id.clone().into()
             } else {
                 "".into()
             };
-- 
2.43.0


From 4064adeeec6007258a8909fb31a1c25611fca84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:58 +0000
Subject: [PATCH 25/58] fix: text preceding a table within the same block was
 lost

---
 src/parser.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index da4fa3e..4c10142 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -806,11 +806,15 @@ impl <'t> ParserState<'t> {
         }
         let text = format!("{0}\n\n", text);
         match PATTERN.captures(&text) {
-            Ok(Some(cap)) => process_table(
-                self,
-                unwrap_or_empty(cap.name("tatts")),
-                &cap["rows"],
-                cap.name("summary").map(|m| m.as_str())).into(),
+            Ok(Some(cap)) => {
+                let table = process_table(
+                    self,
+                    unwrap_or_empty(cap.name("tatts")),
+                    &cap["rows"],
+                    cap.name("summary").map(|m| m.as_str()));
+                // keep the text around the table
+                text.replacen(&cap[0], &table, 1).into()
+            },
             _ => text.into()
         }
     }
-- 
2.43.0


From 8b287c35e0a04998caf7d57efbd3d354596bc604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:32 +0000
Subject: [PATCH 26/58] fix: multi-line cells of a row with attributes were cut
 off

---
 src/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.rs b/src/table.rs
index abfc29f..96d9c9d 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -85,7 +85,7 @@ pub(crate) fn process_table<'t>(
 
 
         static ref RMTCH_RE: Regex = fregex!(
-            &format!(r"^(?P<ratts>{0}{1}\. )(?P<row>.*)",
+            &format!(r"(?s)^(?P<ratts>{0}{1}\. )(?P<row>.*)",
                      *ALIGN_RE_S, *CLS_RE_S));
 
         static ref CMTCH_RE: Regex = fregex!(
-- 
2.43.0


From ef27ae8a126c76622dbc2935427e8027ffdb66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:44 +0000
Subject: [PATCH 27/58] fix: styles dropped in restricted mode still affected
 other attributes

---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 7eac6fb..1a7c55d 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -147,14 +147,14 @@ impl BlockAttributes {
             }
         }
 
-        if !restricted {
-            if let Ok(Some(m)) = ATTR_STYLE_RE.captures(&matched) {
+        if let Ok(Some(m)) = ATTR_STYLE_RE.captures(&matched) {
+            if !restricted {
                 style.extend(
                     m[1].trim_end_matches(';')
                         .split(';')
                         .map(|n| n.trim().to_owned()));
-                matched = matched.replace(&m[0], "");
             }
+            matched = matched.replace(&m[0], "");
         }
 
         let lang = match ATTR_LANG_RE.captures(&matched) {
-- 
2.43.0


From 1f9c9bfb0c3a408b3c0825ce185abf6ef00dfa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:20 +0000
Subject: [PATCH 28/58] fix: phrases before the final punctuation of a text
 were not recognised in lite mode and in link texts

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4c10142..b6ff93a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -39,7 +39,7 @@ fn span_re(tag: &str) -> Regex {
                 r"(?P<content>[^{space}{tag}]+|\S.*?[^\s{tag}\n])",
                 r"(?P<end>[{pnct}]*)",
                 r"{tag}",
-                r"(?P<tail>$|[\[\]}}<]|(?=[{pnct}]{{1,2}}[^0-9]|\s|\)))"),
+                r"(?P<tail>$|[\[\]}}<]|(?=[{pnct}]{{1,2}}(?:[^0-9]|$)|\s|\)))"),
             tag=tag, cls=*CLS_RE_S, pnct=PNCT, space=SNIP_SPACE))
 }
 
-- 
2.43.0


From 767b6f06a12d6d6f4377aa36f82dfa1018a0d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:08 +0000
Subject: [PATCH 29/58] fix: lists of mixed kinds, with skipped levels or empty
 items had unbalanced tags

---
 src/parser.rs | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b6ff93a..a5e7da2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5,7 +5,7 @@ use std::time::{SystemTime, UNIX_EPOCH};
 use std::collections::hash_map::DefaultHasher;
 use std::hash::Hasher;
 
-use indexmap::IndexMap;
+use indexmap::{IndexMap, IndexSet};
 use lazy_static::lazy_static;
 use fancy_regex::{Regex, Captures, Replacer, Match};
 
@@ -959,7 +959,9 @@ impl <'t> ParserState<'t> {
             }
             let mut prev: Option<&ListItem> = None;
 
-            let mut lists = IndexMap::<&str, usize>::new();
+            let mut lists = IndexSet::<&str>::new();
+            // The lists and items which are yet to be closed, with their levels
+            let mut open_lists_and_items = Vec::<(usize, &str, bool)>::new();
             let mut out = Vec::<String>::new();
             let mut litem = "";
             for (index, item) in list_items.iter().enumerate() {
@@ -1001,13 +1003,14 @@ impl <'t> ParserState<'t> {
                 }
 
                 if let Some(p) = prev {
-                    if p.tl.contains(';') && item.tl.contains(':') {
-                        lists.insert(item.tl, 2);
+                    // A definition belongs to the list of the term before it
+                    if p.tl.contains(';') && item.tl.contains(':') && item.level <= p.level {
+                        lists.insert(item.tl);
                     }
                 }
                 let tabs = "\t".repeat(item.level - 1);
-                let mut line = if !lists.contains_key(item.tl) {
-                    lists.insert(item.tl, 1);
+                let mut line = if lists.insert(item.tl) {
+                    open_lists_and_items.push((item.level, ltype, true));
                     if show_item {
                         format!(
                             "{0}<{1}{2}>\n{0}\t<{3}>{4}",
@@ -1026,24 +1029,22 @@ impl <'t> ParserState<'t> {
                     String::new()
                 };
 
-                if show_item && next.map(|n| n.level <= item.level).unwrap_or(true) {
-                    line += &format!("</{0}>", litem);
+                if show_item {
+                    open_lists_and_items.push((item.level, litem, false));
                 }
 
-                for (k, v) in lists.clone().iter().rev() {
-                    let indent = k.len();
-                    if next.map(|n| indent > n.level).unwrap_or(true) {
-                        if *v != 2 {
-                            line += &format!("\n{0}</{1}>", tabs, list_type(k));
-                            if indent > 1 {
-                                line += "</";
-                                line += litem;
-                                line += ">";
-                            }
-                        }
-                        lists.shift_remove(k);
+                while let Some((level, tag, is_list)) = open_lists_and_items.last().copied() {
+                    if next.map(|n| n.level > level || (is_list && n.level == level)).unwrap_or(false) {
+                        break;
                     }
+                    line += &if is_list {
+                        format!("\n{0}</{1}>", tabs, tag)
+                    } else {
+                        format!("</{0}>", tag)
+                    };
+                    open_lists_and_items.pop();
                 }
+                lists.retain(|k| next.map(|n| k.len() <= n.level).unwrap_or(false));
                 prev = Some(item);
                 out.push(line);
             }
-- 
2.43.0


From 26bf9b95913cdd0976773dad5776a504589a0167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:37 +0000
Subject: [PATCH 30/58] fix: labels of note references swallowed tags of lists
 and phrases

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a5e7da2..bdf8b54 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1190,7 +1190,8 @@ impl <'t> ParserState<'t> {
                         r"\[",          // start
                         r"({0})",      // !atts
                         r"\#",
-                        r"([^\]!]+)",  // !label
+                        // !label, which can't take in the tags made so far
+                        r"((?:(?!:[oc]span)[^\]!<])+)",
                         r"([!]?)",     // !nolink
                         r"\]"),
                     *CLS_RE_S));
-- 
2.43.0


From a6a7d098cad52fbb82edb7715616e0737b17297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:37 +0000
Subject: [PATCH 31/58] fix: titles of acronyms swallowed tags of phrases and
 line breaks

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index bdf8b54..f887735 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -140,8 +140,9 @@ fn make_glyph_replacers(is_html5: bool) -> [(Regex, &'static str); 22] {
         (fregex!(r"[(\[]o[\])]"), r"&#176;"),
         // plus/minus
         (fregex!(r"[(\[]\+\/-[\])]"), r"&#177;"),
-        // 3+ uppercase acronym
-        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]([^)]*)[)])", SNIP_ABR, SNIP_ACR)),
+        // 3+ uppercase acronym. Its title can't contain phrases or line breaks,
+        // as these become tags
+        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]((?:(?!:[oc]span)[^)\n])*)[)])", SNIP_ABR, SNIP_ACR)),
          if is_html5 {r#"<abbr title="$2">$1</abbr>"#} else {r#"<acronym title="$2">$1</acronym>"#}),
     ]
 }
-- 
2.43.0


From b0ed44c988296d4fee87b3c2b17661f6235d7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:37 +0000
Subject: [PATCH 32/58] fix: overlapping phrases made improperly nested tags

---
 src/parser.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index f887735..94521f0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -43,6 +43,24 @@ fn span_re(tag: &str) -> Regex {
             tag=tag, cls=*CLS_RE_S, pnct=PNCT, space=SNIP_SPACE))
 }
 
+/// Tells whether each of the already processed phrases which are present
+/// in the text is present there from its beginning to its end.
+fn has_whole_spans(text: &str, uid: &str) -> bool {
+    let mut depth = 0usize;
+    for (pos, _) in text.match_indices(uid) {
+        let kind = text[pos + uid.len()..].trim_start_matches(|c: char| c.is_ascii_digit());
+        if kind.starts_with(":ospan") {
+            depth += 1;
+        } else if kind.starts_with(":cspan") {
+            if depth == 0 {
+                return false;
+            }
+            depth -= 1;
+        }
+    }
+    depth == 0
+}
+
 fn do_special<'t, R>(text: &'t str, start: &str, end: &str, method: R) -> Cow<'t, str>
     where R: Replacer
 {
@@ -1608,6 +1626,10 @@ impl <'t> ParserState<'t> {
         let can_replace = self.span_depth <= self.textile.max_span_depth;
 
         let f_span = |cap: &Captures| -> String {
+            if !has_whole_spans(&cap[0], &self.textile.uid) {
+                // The phrase would overlap with another one
+                return cap[0].to_owned();
+            }
             // pre, tag, atts, cite, content, end, tail = match.groups()
             let tag = match &cap[2] {
                 "*" => "strong",
-- 
2.43.0


From 7a675e85f9b78c19fa294bbea0859baa2351aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:50 +0000
Subject: [PATCH 33/58] fix: lines of a definition starting with a dash were
 lost

---
 src/parser.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 94521f0..9fcb60d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -857,9 +857,21 @@ impl <'t> ParserState<'t> {
         }
 
         let f_rc_list = |cap: &Captures| -> String {
-            let mut out = Vec::<Cow<str>>::new();
+            let mut items = Vec::<Cow<str>>::new();
             for line in split_with_capture(&SPLITTER, &cap[0]) {
-                if let Ok(Some(m)) = ATTR_CONTENT_RE.captures(line) {
+                match items.last_mut() {
+                    Some(last_item) if !matches!(ATTR_CONTENT_RE.is_match(line), Ok(true)) => {
+                        // just a continuation of the previous item
+                        let last_item = last_item.to_mut();
+                        last_item.push('\n');
+                        last_item.push_str(line);
+                    },
+                    _ => items.push(line.into()),
+                }
+            }
+            let mut out = Vec::<Cow<str>>::new();
+            for item in items.iter() {
+                if let Ok(Some(m)) = ATTR_CONTENT_RE.captures(item) {
                     let atts = &m[1];
                     let content = m[2].trim();
                     let html_atts_str: String = BlockAttributes
-- 
2.43.0


From 888862f4b036abe2ee1dfa8918db16f5a19e8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:50 +0000
Subject: [PATCH 34/58] fix: lines of table cells were taken for items of the
 list around the table

---
 src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9fcb60d..fe2bdf5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -61,6 +61,11 @@ fn has_whole_spans(text: &str, uid: &str) -> bool {
     depth == 0
 }
 
+/// Tells whether the text ends in the middle of an already processed table.
+fn is_within_table(text: &str) -> bool {
+    text.matches("<table").count() > text.matches("</table>").count()
+}
+
 fn do_special<'t, R>(text: &'t str, start: &str, end: &str, method: R) -> Cow<'t, str>
     where R: Replacer
 {
@@ -860,7 +865,8 @@ impl <'t> ParserState<'t> {
             let mut items = Vec::<Cow<str>>::new();
             for line in split_with_capture(&SPLITTER, &cap[0]) {
                 match items.last_mut() {
-                    Some(last_item) if !matches!(ATTR_CONTENT_RE.is_match(line), Ok(true)) => {
+                    Some(last_item) if is_within_table(last_item)
+                        || !matches!(ATTR_CONTENT_RE.is_match(line), Ok(true)) => {
                         // just a continuation of the previous item
                         let last_item = last_item.to_mut();
                         last_item.push('\n');
@@ -966,7 +972,8 @@ impl <'t> ParserState<'t> {
             let lines = split_with_capture(&SPLITTER, text);
             let mut list_items = Vec::<ListItem>::new();
             for line in lines {
-                if let Ok(Some(m)) = LINE_PARSER.captures(line) {
+                let within_table = list_items.last().map(|i| is_within_table(&i.content)).unwrap_or(false);
+                if let (false, Ok(Some(m))) = (within_table, LINE_PARSER.captures(line)) {
                     // A new list item starts here
                     let tl = unwrap_or_empty(m.name("tl"));
                     list_items.push(
-- 
2.43.0


From b69b0f0efc1fc71d3b2b8a8c19f82807ec5e025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:25 +0000
Subject: [PATCH 35/58] fix: attributes of tables within definitions were
 processed as text

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index fe2bdf5..34affd5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -913,7 +913,12 @@ impl <'t> ParserState<'t> {
                         let term = term.replace('\n', self.textile.proper_br_tag());
 
                         let term = self.graf(&term);
-                        let definition = self.graf(&definition);
+                        // The tags of a table which is already there are not a text to process
+                        let definition = if definition.contains("</table>") {
+                            definition.into()
+                        } else {
+                            self.graf(&definition)
+                        };
 
                         out.push(format!("\t<dt{0}>{1}</dt>", html_atts_str, term).into());
                         if !definition.is_empty() {
-- 
2.43.0


From 8c7acefd7c9e2f2b4fc753bfa292abb5630b4db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:32 +0000
Subject: [PATCH 36/58] fix: attributes of phrases swallowed other phrases

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 34affd5..36e5839 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1650,8 +1650,10 @@ impl <'t> ParserState<'t> {
         let can_replace = self.span_depth <= self.textile.max_span_depth;
 
         let f_span = |cap: &Captures| -> String {
-            if !has_whole_spans(&cap[0], &self.textile.uid) {
-                // The phrase would overlap with another one
+            let uid = self.textile.uid.as_str();
+            if !has_whole_spans(&cap[0], uid)
+                || cap[3].contains(uid) || unwrap_or_empty(cap.get(4)).contains(uid) {
+                // The phrase or its attributes would overlap with another one
                 return cap[0].to_owned();
             }
             // pre, tag, atts, cite, content, end, tail = match.groups()
-- 
2.43.0


From 85fda949d1745a371dd9ba2888e77cb3322989a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:48 +0000
Subject: [PATCH 37/58] fix: texts too complex for a regular expression caused
 a panic

---
 src/block.rs     |  4 ++--
 src/htmltools.rs |  6 +++---
 src/parser.rs    | 42 +++++++++++++++++++++---------------------
 src/regextra.rs  | 36 +++++++++++++++++++++++++++++++++---
 4 files changed, 59 insertions(+), 29 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 1a7c55d..25e7d8a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -3,7 +3,7 @@ use std::borrow::Cow;
 use lazy_static::lazy_static;
 use fancy_regex::{Regex, Captures};
 
-use crate::regextra::fregex;
+use crate::regextra::{fregex, ReplaceAll};
 use crate::htmltools::quoteattr;
 use crate::regex_snips::{SNIP_SPACE, SNIP_DIGIT, CLS_RE_S, VALIGN_RE_S, HALIGN_RE_S};
 use crate::htmltools::{generate_tag, encode_html};
@@ -326,7 +326,7 @@ impl Block {
                         ),
                         space=SNIP_SPACE, cls=*CLS_RE_S));
             };
-            let notedef = NOTEDEF_RE.replace_all(
+            let notedef = NOTEDEF_RE.try_replace_all(
                 &new_content,
                 |matches: &Captures| { ps.parse_note_defs(matches) });
             if notedef.is_empty() {
diff --git a/src/htmltools.rs b/src/htmltools.rs
index 41397e8..4503c1a 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -6,7 +6,7 @@ use lazy_static::lazy_static;
 use fancy_regex::{Regex, Captures};
 
 use crate::html::HTML5;
-use crate::regextra::fregex;
+use crate::regextra::{fregex, ReplaceAll};
 use crate::regex_snips::{BLOCK_CONTENT, DIVIDER_RE};
 
 pub(crate) fn encode_html(text: &str, quotes: bool, line_spacers: bool) -> String {
@@ -49,7 +49,7 @@ pub(crate) fn reverse_encode_html(text: &str) -> Cow<str> {
         static ref ENTITY_RE: Regex = fregex!(
             "(&(?:amp|lt|gt|quot|#39|#13|#10|#9);)");
     }
-    ENTITY_RE.replace_all(text, |cap: &Captures| {
+    ENTITY_RE.try_replace_all(text, |cap: &Captures| {
         let entity = &cap[1];
         match entity {
             "&amp;" => "&",
@@ -265,7 +265,7 @@ pub(crate) fn unescape(s: &str) -> Cow<str> {
                         r"|#[xX][0-9a-fA-F]+;?",
                         r"|[^\t\n\f <&#;]{1,32};?)"));
         }
-        CHARREF.replace_all(s, replace_charref)
+        CHARREF.try_replace_all(s, replace_charref)
     }
 }
 
diff --git a/src/parser.rs b/src/parser.rs
index 36e5839..3bb1b58 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -10,7 +10,7 @@ use lazy_static::lazy_static;
 use fancy_regex::{Regex, Captures, Replacer, Match};
 
 use crate::charcounter::CharCounter;
-use crate::regextra::{split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
+use crate::regextra::{split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty, ReplaceAll};
 use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, is_raw_block, reverse_encode_html};
 use crate::table::{process_table, TABLE_SPAN_RE_S};
 use crate::urlutils::{UrlBits, UrlString};
@@ -75,7 +75,7 @@ fn do_special<'t, R>(text: &'t str, start: &str, end: &str, method: R) -> Cow<'t
                 fancy_regex::escape(end)))
         .expect("A valid expression");
 
-    pattern.replace_all(text, method)
+    pattern.try_replace_all(text, method)
 }
 
 fn get_image_size(url: &str) -> Option<(i64, i64)> {
@@ -424,7 +424,7 @@ impl <'t> ParserState<'t> {
                 format!("<ol{0}>\n{1}\n\t</ol>", list_atts, result)
             }
         };
-        TEXT_RE.replace_all(text, f_note_lists)
+        TEXT_RE.try_replace_all(text, f_note_lists)
     }
 
     pub fn shelve(&mut self, text: String) -> String {
@@ -490,7 +490,7 @@ impl <'t> ParserState<'t> {
                 },
             }
         };
-        pattern.replace_all(text, retrieve_url)
+        pattern.try_replace_all(text, retrieve_url)
     }
 
     fn f_textile(&mut self, cap: &Captures) -> String {
@@ -582,7 +582,7 @@ impl <'t> ParserState<'t> {
         } else {
             &UNRESTRICTED_URLREF_RE
         };
-        urlref_re.replace_all(text, |cap: &Captures| -> String {
+        urlref_re.try_replace_all(text, |cap: &Captures| -> String {
             let flag = &cap[1];
             if !self.is_valid_url(&cap[2]) {
                 return cap[0].to_owned();
@@ -689,7 +689,7 @@ impl <'t> ParserState<'t> {
             };
             self.shelve(out)
         };
-        PATTERN.replace_all(text, f_image)
+        PATTERN.try_replace_all(text, f_image)
     }
 
 
@@ -936,7 +936,7 @@ impl <'t> ParserState<'t> {
             out.join("\n")
         };
 
-        PATTERN.replace_all(text, f_rc_list)
+        PATTERN.try_replace_all(text, f_rc_list)
     }
 
     pub(crate) fn textile_lists<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
@@ -1095,7 +1095,7 @@ impl <'t> ParserState<'t> {
             self.do_tag_br(litem, &merged_out).into_owned()
         };
 
-        PATTERN.replace_all(text, f_textile_list)
+        PATTERN.try_replace_all(text, f_textile_list)
     }
 
     /// Inserts <br> before each newline within a specified HTML tag,
@@ -1161,7 +1161,7 @@ impl <'t> ParserState<'t> {
                              fancy_regex::escape(tag))));
 
         let br_tag = self.textile.proper_br_tag();
-        pattern.replace_all(input, |cap: &Captures| -> String {
+        pattern.try_replace_all(input, |cap: &Captures| -> String {
             let content = insert_brs(&cap[2], br_tag);
             format!("<{0}{1}>{2}</{0}>", tag, &cap[1], content)
         })
@@ -1177,13 +1177,13 @@ impl <'t> ParserState<'t> {
 
         let f_do_p_br = |cap: &Captures| -> String {
             let text = &cap[3];
-            let text = BR_RE.replace_all(text, "\n");
-            let text = NEWLINE_RE.replace_all(
+            let text = BR_RE.try_replace_all(text, "\n");
+            let text = NEWLINE_RE.try_replace_all(
                 &text,
                 self.textile.proper_br_tag());
             format!("<{0}{1}>{2}{3}", &cap[1], &cap[2], text, &cap[4])
         };
-        TAG_RE.replace_all(input, f_do_p_br)
+        TAG_RE.try_replace_all(input, f_do_p_br)
     }
 
 
@@ -1221,7 +1221,7 @@ impl <'t> ParserState<'t> {
             format!("{0}{1}", sup_tag, &cap["space"])
         };
 
-        PATTERN.replace_all(text, f_footnote_id)
+        PATTERN.try_replace_all(text, f_footnote_id)
     }
 
     /// Search the text looking for note references.
@@ -1294,7 +1294,7 @@ impl <'t> ParserState<'t> {
             // Build the reference...
             generate_tag("sup", Some(&result), &html_atts)
         };
-        TEXT_RE.replace_all(text, f_parse_note_refs)
+        TEXT_RE.try_replace_all(text, f_parse_note_refs)
     }
 
 
@@ -1334,7 +1334,7 @@ impl <'t> ParserState<'t> {
                 if i % 2 == 0 {
                     let raw_line = if !self.textile.restricted {
                         Cow::Owned(
-                            LONE_AMP_RE.replace_all(raw_line, "&amp;")
+                            LONE_AMP_RE.try_replace_all(raw_line, "&amp;")
                                   .replace('<', "&lt;")
                                   .replace('>', "&gt;"))
                     } else {
@@ -1592,7 +1592,7 @@ impl <'t> ParserState<'t> {
         let mut prev_text = Cow::Borrowed(text);
         let mut abort = false;
         while !abort && prev_text.contains(&needle) {
-            let new_text = pattern.replace_all(&prev_text, &mut f_link);
+            let new_text = pattern.try_replace_all(&prev_text, &mut f_link);
             if new_text == prev_text {
                 abort = true;
             }
@@ -1724,7 +1724,7 @@ impl <'t> ParserState<'t> {
                 .entry("")
                 .or_insert_with(
                     || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", fancy_regex::escape(&self.textile.uid))));
-            open_tag_re.replace_all(text, |cap: &Captures| f_retrieve_tags(text, cap))
+            open_tag_re.try_replace_all(text, |cap: &Captures| f_retrieve_tags(text, cap))
         };
         let result = {
             let mut regex_cache = self.textile.regex_cache.borrow_mut();
@@ -1735,7 +1735,7 @@ impl <'t> ParserState<'t> {
                 .entry("")
                 .or_insert_with(
                     || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", fancy_regex::escape(&self.textile.uid))));
-            close_tag_re.replace_all(&result, |cap: &Captures| f_retrieve_tags(&result, cap)).into_owned()
+            close_tag_re.try_replace_all(&result, |cap: &Captures| f_retrieve_tags(&result, cap)).into_owned()
         };
         result
     }
@@ -1833,7 +1833,7 @@ impl <'t> ParserState<'t> {
             };
             let block_output = self.do_p_br(&block_output);
             let block_output = whitespace.clone() + &BR_TAG_RE
-                .replace_all(
+                .try_replace_all(
                     &block_output,
                     self.textile.proper_br_tag());
 
@@ -1921,7 +1921,7 @@ impl <'t> ParserState<'t> {
             }
             unreachable!("Should be reached, check regular expression");
         };
-        PATTERN_RE.replace_all(text, f_glyph_quoted_quote)
+        PATTERN_RE.try_replace_all(text, f_glyph_quoted_quote)
     }
 
 }
@@ -2087,7 +2087,7 @@ impl Textile {
             static ref BR_PATTERN: Regex = fregex!(r"<br( /)?>(?!\n)");
         }
 
-        let text = BR_PATTERN.replace_all(
+        let text = BR_PATTERN.try_replace_all(
             &text,
             match self.html_type {
                 HtmlKind::XHTML => "<br />\n",
diff --git a/src/regextra.rs b/src/regextra.rs
index 6767c6f..1f9ed85 100644
--- a/src/regextra.rs
+++ b/src/regextra.rs
@@ -1,4 +1,5 @@
-use fancy_regex::{Regex, Captures, CaptureMatches, Match};
+use std::borrow::Cow;
+use fancy_regex::{Regex, Captures, CaptureMatches, Match, Replacer};
 
 pub(crate) const INVALID_REGEX: &str = "An ivalid regular expression";
 
@@ -101,6 +102,35 @@ pub(crate) fn split_with_capture<'r, 't>(
 }
 
 
+/// What `fancy_regex::Regex::replace_all` does, except for panics: once the text
+/// is too complex for the expression (say, the limit of backtracking
+/// has been reached), the rest of it remains as it is.
+pub(crate) trait ReplaceAll {
+    fn try_replace_all<'t, R: Replacer>(&self, text: &'t str, replacer: R) -> Cow<'t, str>;
+}
+
+impl ReplaceAll for Regex {
+    fn try_replace_all<'t, R: Replacer>(&self, text: &'t str, mut replacer: R) -> Cow<'t, str> {
+        let mut output = String::new();
+        let mut last_end = None;
+        for captures in self.captures_iter(text).map_while(Result::ok) {
+            if let Some(found) = captures.get(0) {
+                output += &text[last_end.unwrap_or(0)..found.start()];
+                replacer.replace_append(&captures, &mut output);
+                last_end = Some(found.end());
+            }
+        }
+        match last_end {
+            Some(end) => {
+                output += &text[end..];
+                output.into()
+            },
+            None => text.into(),
+        }
+    }
+}
+
+
 /// Performs multiple sequential replacements within a text behind a `Cow<str>`
 /// pointer, without cloning the underlying strings unnecessarily.
 pub(crate) fn multi_replace<'a, I, S>(
@@ -112,7 +142,7 @@ where I: Iterator<Item=(&'a Regex, S)> + 'a,
     let next_regex = changes.next();
     match next_regex {
         Some((expr, replacement)) => {
-            let new_text = expr.replace_all(&text, replacement.as_ref());
+            let new_text = expr.try_replace_all(&text, replacement.as_ref());
             multi_replace(new_text, changes)
         },
         None => text.into_owned()
@@ -133,7 +163,7 @@ where I: Iterator<Item=&'a Regex> + 'a,
     let next_regex = changes.next();
     match next_regex {
         Some(expr) => {
-            let new_text = expr.replace_all(&text, one_replacement.by_ref());
+            let new_text = expr.try_replace_all(&text, one_replacement.by_ref());
             multi_replace_with_one(new_text, changes, one_replacement)
         },
         None => text.into_owned()
-- 
2.43.0


From 66f303ed487f0f60873bce404d36cf470bf55222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:47 +0000
Subject: [PATCH 38/58] fix: phrases were put back in quadratic time

---
 src/parser.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3bb1b58..e1990ce 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1709,11 +1709,16 @@ impl <'t> ParserState<'t> {
     }
 
     fn retrieve_tags(&self, text: &str) -> String {
-        let f_retrieve_tags = |text: &str, cap: &Captures| -> String {
+        // There are no unfinished tags before the position `checked`
+        let f_retrieve_tags = |text: &str, cap: &Captures, checked: &mut usize| -> String {
             let tag_id = cap[1].parse::<u32>().expect("must be an integer");
             let tag = self.ref_cache.get(&tag_id).map(String::as_str).unwrap_or_default();
             let start = cap.get(0).map(|m| m.start()).unwrap_or_default();
-            restore_after(&text[..start], tag).into_owned()
+            let restored = restore_after(&text[*checked..start], tag).into_owned();
+            if restored == tag {
+                *checked = start;
+            }
+            restored
         };
         let result = {
             let mut regex_cache = self.textile.regex_cache.borrow_mut();
@@ -1724,7 +1729,8 @@ impl <'t> ParserState<'t> {
                 .entry("")
                 .or_insert_with(
                     || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", fancy_regex::escape(&self.textile.uid))));
-            open_tag_re.try_replace_all(text, |cap: &Captures| f_retrieve_tags(text, cap))
+            let mut checked = 0;
+            open_tag_re.try_replace_all(text, |cap: &Captures| f_retrieve_tags(text, cap, &mut checked))
         };
         let result = {
             let mut regex_cache = self.textile.regex_cache.borrow_mut();
@@ -1735,7 +1741,8 @@ impl <'t> ParserState<'t> {
                 .entry("")
                 .or_insert_with(
                     || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", fancy_regex::escape(&self.textile.uid))));
-            close_tag_re.try_replace_all(&result, |cap: &Captures| f_retrieve_tags(&result, cap)).into_owned()
+            let mut checked = 0;
+            close_tag_re.try_replace_all(&result, |cap: &Captures| f_retrieve_tags(&result, cap, &mut checked)).into_owned()
         };
         result
     }
-- 
2.43.0


From ed5bb5bc1278726d22d920f6897bb057c098fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 39/58] fix: line breaks of sanitized lists and tables were not
 spelled as in XHTML

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e1990ce..22939a1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2104,6 +2104,8 @@ impl Textile {
         let text = text.trim_end_matches('\n');
 
         text.to_string()
+                // the sanitizer knows only the HTML5 style of line breaks
+                .replace("<br>", self.proper_br_tag())
     }
 
     /// Enables automatic addition of `width` and `height` attributes
-- 
2.43.0


From 8f4456ed00e56d93431f718df607cd03b78021c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 40/58] fix: parts of styles and classes of table cells were
 taken for spans

---
 src/block.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 25e7d8a..384804a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -128,13 +128,6 @@ impl BlockAttributes {
         }
 
         let mut matched = block_attributes.to_owned();
-        let (colspan, rowspan) = if element == Some("td") {
-            (COLSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()),
-             ROWSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()))
-        } else {
-            (None, None)
-        };
-
         if element == Some("td") || element == Some("tr") {
             if let Ok(Some(m)) = ATTR_VALIGN_RE.find(&matched) {
                 let alignment = match m.as_str() {
@@ -214,6 +207,13 @@ impl BlockAttributes {
             style.push(format!("padding-right:{}em", m[1].len()));
             matched = matched.replace(&m[0], "");
         }
+        let (colspan, rowspan) = if element == Some("td") {
+            (COLSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()),
+             ROWSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()))
+        } else {
+            (None, None)
+        };
+
 
         lazy_static! {
             static ref ATTR_HALIGN_RE: Regex = fregex!(
-- 
2.43.0


From 211840fd29312eba6394af5a1dbbdcc24e07c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:12 +0000
Subject: [PATCH 41/58] fix: languages, citations and summaries were escaped
 twice in restricted mode

---
 src/block.rs  | 11 ++++++++---
 src/parser.rs |  2 +-
 src/table.rs  |  2 +-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 384804a..0a02a8b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -6,7 +6,7 @@ use fancy_regex::{Regex, Captures};
 use crate::regextra::{fregex, ReplaceAll};
 use crate::htmltools::quoteattr;
 use crate::regex_snips::{SNIP_SPACE, SNIP_DIGIT, CLS_RE_S, VALIGN_RE_S, HALIGN_RE_S};
-use crate::htmltools::{generate_tag, encode_html};
+use crate::htmltools::{generate_tag, encode_html, reverse_encode_html};
 use crate::parser::ParserState;
 
 
@@ -152,9 +152,14 @@ impl BlockAttributes {
 
         let lang = match ATTR_LANG_RE.captures(&matched) {
             Ok(Some(m)) => {
-                let result = Some(m[1].to_owned());
+                // in restricted mode the whole text is already html-encoded
+                let result = if restricted {
+                    reverse_encode_html(&m[1]).into_owned()
+                } else {
+                    m[1].to_owned()
+                };
                 matched = matched.replace(&m[0], "");
-                result
+                Some(result)
             }
             _ => None,
         };
diff --git a/src/parser.rs b/src/parser.rs
index 22939a1..650e70c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1673,7 +1673,7 @@ impl <'t> ParserState<'t> {
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             if let Some(cite) = cap.get(4).filter(|m| self.is_valid_url(m.as_str().trim())) {
-                html_atts.insert("cite", cite.as_str().trim().to_owned());
+                html_atts.insert("cite", self.unrestrict_url(cite.as_str().trim()).into_owned());
             }
             let content = &cap[5];
             let content = self.span(content);
diff --git a/src/table.rs b/src/table.rs
index 96d9c9d..2edfdad 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -103,7 +103,7 @@ pub(crate) fn process_table<'t>(
 
     if let Some(s) = summary {
         if !s.is_empty() {
-            html_attrs.insert("summary", s.trim().to_owned());
+            html_attrs.insert("summary", parser.unrestrict_url(s.trim()).into_owned());
         }
     }
     let mut caption = String::new();
-- 
2.43.0


From d5b3044a6239959cb6256d205b1f01a03551809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:12 +0000
Subject: [PATCH 42/58] fix: styles of table columns lost their dots

---
 src/table.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 2edfdad..729c71c 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -96,6 +96,9 @@ pub(crate) fn process_table<'t>(
         static ref COLGROUP_RE: Regex = fregex!(
             &format!(r"(?m)^\|:(?P<cols>{s}{a}{c}\. .*)",
                      s=*TABLE_SPAN_RE_S, a=*ALIGN_RE_S, c=*CLS_RE_S));
+        static ref COL_ATTS_RE: Regex = fregex!(
+            &format!(r"^(?P<atts>{s}{a}{c})\.",
+                     s=*TABLE_SPAN_RE_S, a=*ALIGN_RE_S, c=*CLS_RE_S));
         static ref HEADING_RE: Regex = fregex!(
             &format!(r"^_(?={0}|{1})", SNIP_SPACE, PNCT_RE_S));
     }
@@ -141,10 +144,10 @@ pub(crate) fn process_table<'t>(
         let row = if let Ok(Some(gmtch)) = COLGROUP_RE.captures(&row) {
             // Is this colgroup def missing a closing pipe? If so, there
             // will be a newline in the middle of $row somewhere.
-            let cols = &gmtch[1].replace('.', "");
-            for (idx, col) in cols.split('|').enumerate() {
+            for (idx, col) in gmtch[1].split('|').enumerate() {
+                let col = COL_ATTS_RE.replace(col.trim(), "$atts");
                 let group_atts: String = BlockAttributes
-                    ::parse(col.trim(), Some("col"), true, parser.textile.restricted)
+                    ::parse(&col, Some("col"), true, parser.textile.restricted)
                     .into();
                 colgroup.push_str("\t<col");
                 if idx == 0 {
-- 
2.43.0


From d55dd0173f7cef5e2a88125d42c25d774dcbabac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:12 +0000
Subject: [PATCH 43/58] fix: attributes of lists and tables were processed as
 text

---
 src/block.rs  | 18 +++++++++++-------
 src/parser.rs | 30 +++++++++++++++++++++++++-----
 src/table.rs  | 34 ++++++++++++++++++----------------
 3 files changed, 54 insertions(+), 28 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 0a02a8b..1245804 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -25,6 +25,10 @@ impl BlockHtmlAttributes {
         }
     }
 
+    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut String> {
+        self.0.iter_mut().map(|(_, value)| value)
+    }
+
     pub fn insert_css_class<S>(&mut self, name: S) -> bool
         where S: AsRef<str>
     {
@@ -203,6 +207,13 @@ impl BlockAttributes {
             _ => (None, None)
         };
 
+        let (colspan, rowspan) = if element == Some("td") {
+            (COLSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()),
+             ROWSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()))
+        } else {
+            (None, None)
+        };
+
         if let Ok(Some(m)) = ATTR_PADDING_LEFT_RE.captures(&matched) {
             style.push(format!("padding-left:{}em", m[1].len()));
             matched = matched.replace(&m[0], "");
@@ -212,13 +223,6 @@ impl BlockAttributes {
             style.push(format!("padding-right:{}em", m[1].len()));
             matched = matched.replace(&m[0], "");
         }
-        let (colspan, rowspan) = if element == Some("td") {
-            (COLSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()),
-             ROWSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()))
-        } else {
-            (None, None)
-        };
-
 
         lazy_static! {
             static ref ATTR_HALIGN_RE: Regex = fregex!(
diff --git a/src/parser.rs b/src/parser.rs
index 650e70c..5d0d4d8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -434,6 +434,24 @@ impl <'t> ParserState<'t> {
         item_id
     }
 
+    /// Sets aside the values of attributes which could be mistaken for Textile
+    /// by the processing which follows.
+    pub fn shelve_attributes(&mut self, mut attributes: BlockHtmlAttributes) -> BlockHtmlAttributes {
+        for value in attributes.values_mut() {
+            let mut prev = ' ';
+            let is_plain = value.chars().all(|c| {
+                let plain = c.is_alphanumeric() || matches!(c, ' ' | ':' | ';' | '.' | '#')
+                    || (c == '-' && prev.is_alphanumeric());
+                prev = c;
+                plain
+            });
+            if !is_plain {
+                *value = self.shelve(encode_html(value, false, true));
+            }
+        }
+        attributes
+    }
+
     pub fn shelve_url(&mut self, text: UrlString) -> String {
         let escaped_url = text.to_html_string();
         self.ref_index += 1;
@@ -880,9 +898,10 @@ impl <'t> ParserState<'t> {
                 if let Ok(Some(m)) = ATTR_CONTENT_RE.captures(item) {
                     let atts = &m[1];
                     let content = m[2].trim();
-                    let html_atts_str: String = BlockAttributes
+                    let html_atts = BlockAttributes
                         ::parse(atts, None, true, self.textile.restricted)
-                        .into();
+                        .html_attrs();
+                    let html_atts_str = self.shelve_attributes(html_atts).to_string();
 
                     let xm_capture = XM_RE.captures(content);
                     let (term, definition) = if let Ok(Some(ref xm)) = xm_capture {
@@ -1020,9 +1039,10 @@ impl <'t> ParserState<'t> {
                 let next = list_items.get(index + 1);
                 let show_item = !content.is_empty();
 
-                let mut atts = BlockAttributes
+                let atts = BlockAttributes
                     ::parse(item.atts, None, true, self.textile.restricted)
                     .html_attrs();
+                let mut atts = self.shelve_attributes(atts);
                 // let mut start: Option<usize> = None;
                 if ltype == "ol" {
                     let start_value = self.ol_starts.entry(item.tl.to_string()).or_insert(1);
@@ -2084,6 +2104,8 @@ impl Textile {
                 )
                 .clean(&text)
                 .to_string()
+                // the sanitizer knows only the HTML5 style of line breaks
+                .replace("<br>", self.proper_br_tag())
                 .into(),
             None => text,
         };
@@ -2104,8 +2126,6 @@ impl Textile {
         let text = text.trim_end_matches('\n');
 
         text.to_string()
-                // the sanitizer knows only the HTML5 style of line breaks
-                .replace("<br>", self.proper_br_tag())
     }
 
     /// Enables automatic addition of `width` and `height` attributes
diff --git a/src/table.rs b/src/table.rs
index 729c71c..e8944a0 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -16,26 +16,27 @@ lazy_static! {
         r"(?:{0}|{1})*", COLSPAN_RE_S, ROWSPAN_RE_S);
 }
 
-fn process_caption(capts: &str, cap: &str, restricted: bool) -> String {
-    let html_attributes = BlockAttributes::parse(capts, None, true, restricted).html_attrs();
+fn process_caption(parser: &mut crate::parser::ParserState, capts: &str, cap: &str) -> String {
+    let html_attributes = BlockAttributes::parse(capts, None, true, parser.textile.restricted).html_attrs();
+    let html_attributes = parser.shelve_attributes(html_attributes);
     let tag = generate_tag("caption", Some(cap.trim()), &html_attributes);
     format!("\t{0}\n", tag)
 }
 
 struct TableSection {
     tag: String,
-    attributes: BlockAttributes,
+    attributes: BlockHtmlAttributes,
     rows: Vec<String>
 }
 
 impl TableSection {
-    fn new(tag: String, attributes: BlockAttributes) -> Self {
+    fn new(tag: String, attributes: BlockHtmlAttributes) -> Self {
         TableSection { tag, attributes, rows: Default::default() }
     }
 
     fn process(self) -> String {
         let content = self.rows.join("") + "\n\t";
-        generate_tag(&self.tag, Some(&content), &self.attributes.html_attrs())
+        generate_tag(&self.tag, Some(&content), &self.attributes)
     }
 }
 
@@ -109,6 +110,7 @@ pub(crate) fn process_table<'t>(
             html_attrs.insert("summary", parser.unrestrict_url(s.trim()).into_owned());
         }
     }
+    let html_attrs = parser.shelve_attributes(html_attrs);
     let mut caption = String::new();
     let mut colgroup = String::new();
     let mut content = Vec::<String>::new();
@@ -128,9 +130,9 @@ pub(crate) fn process_table<'t>(
                 caption = format!(
                     "\n{}",
                     process_caption(
+                        parser,
                         &cmtch["capts"],
-                        &cmtch["cap"],
-                        parser.textile.restricted));
+                        &cmtch["cap"]));
                 let new_row = cmtch["row"].trim_start();
                 if new_row.is_empty() {continue} else {new_row.to_owned().into()}
             } else {
@@ -146,9 +148,10 @@ pub(crate) fn process_table<'t>(
             // will be a newline in the middle of $row somewhere.
             for (idx, col) in gmtch[1].split('|').enumerate() {
                 let col = COL_ATTS_RE.replace(col.trim(), "$atts");
-                let group_atts: String = BlockAttributes
+                let group_atts = BlockAttributes
                     ::parse(&col, Some("col"), true, parser.textile.restricted)
-                    .into();
+                    .html_attrs();
+                let group_atts = parser.shelve_attributes(group_atts).to_string();
                 colgroup.push_str("\t<col");
                 if idx == 0 {
                     colgroup.push_str("group");
@@ -186,14 +189,13 @@ pub(crate) fn process_table<'t>(
                     "-" => "tbody",
                     _ => unreachable!()
                 };
+                let section_atts = BlockAttributes
+                    ::parse(rgrpatts.as_str(), None, true, parser.textile.restricted)
+                    .html_attrs();
                 rgrp = Some(
                     TableSection::new(
                         section_tag.to_owned(),
-                        BlockAttributes::parse(
-                            rgrpatts.as_str(),
-                            None,
-                            true,
-                            parser.textile.restricted)));
+                        parser.shelve_attributes(section_atts)));
             }
             Cow::Borrowed(&grpmatch["row"])
         } else {
@@ -210,7 +212,7 @@ pub(crate) fn process_table<'t>(
         };
 
         // create a row to hold the cells.
-        let mut r = Row::new(row_atts);
+        let mut r = Row::new(parser.shelve_attributes(row_atts));
         for (_cellctr, cell) in row.split('|').skip(1).enumerate() {
             let ctag = match HEADING_RE.is_match(cell) {
                 Ok(true) => "th",
@@ -241,7 +243,7 @@ pub(crate) fn process_table<'t>(
             };
 
             // create a cell
-            let c = generate_tag(ctag, Some(&cell), &cell_atts);
+            let c = generate_tag(ctag, Some(&cell), &parser.shelve_attributes(cell_atts));
             let cline_tag = format!("\n\t\t\t{0}", c);
             // add the cell to the row
             r.cells.push(parser.do_tag_br(ctag, &cline_tag).into_owned());
-- 
2.43.0


From 2e832a2494cd12f52f510d4b60620229b7fef641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 44/58] fix: an alias definition doesn't swallow the text after
 its name

The name was matched greedily up to the last bracket of the line, so that
a line which has something in brackets before another pair of brackets
followed by an address disappeared from the result.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5d0d4d8..a970536 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -588,7 +588,7 @@ impl <'t> ParserState<'t> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
             fregex!(
                 &format!(
-                    r"(?:(?<=^)|(?<=\s))\[(.+)\]((?:{0}:\/\/|\/)\S+)(?=\s|$)",
+                    r"(?:(?<=^)|(?<=\s))\[([^\[\]\n]+)\]((?:{0}:\/\/|\/)\S+)(?=\s|$)",
                     schemes.join("|")))
         }
         lazy_static! {
-- 
2.43.0


From 0e13ee9794232f01f9629d46e6107be18ab9fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:15 +0000
Subject: [PATCH 45/58] fix: only an address makes a link alias

A word which merely starts with the name of a scheme ("[x]filename.txt",
"[x]httpd") was taken for the address of an alias and disappeared.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a970536..91aec56 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -588,7 +588,7 @@ impl <'t> ParserState<'t> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
             fregex!(
                 &format!(
-                    r"(?:(?<=^)|(?<=\s))\[([^\[\]\n]+)\]((?:{0}:\/\/|\/)\S+)(?=\s|$)",
+                    r"(?:(?<=^)|(?<=\s))\[([^\[\]\n]+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
                     schemes.join("|")))
         }
         lazy_static! {
-- 
2.43.0


From 1e5aa3b784b684188b6627e99e2e9f0cce44135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:28 +0000
Subject: [PATCH 46/58] fix: both apostrophes of a word like rock'n'roll are
 apostrophes

The letter after an apostrophe was consumed by the match, so that it
couldn't stand before the next one.
---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 91aec56..90b2742 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -116,8 +116,8 @@ fn make_glyph_replacers(is_html5: bool) -> [(Regex, &'static str); 22] {
                 *CUR)),
          r"$1&#215;$2"),
         // apostrophe's
-        (fregex!(&format!(r"({0}|\))'({0})", SNIP_WRD)),
-         r"$1&#8217;$2"),
+        (fregex!(&format!(r"({0}|\))'(?={0})", SNIP_WRD)),
+         r"$1&#8217;"),
         // back in '88
         (fregex!(&format!(r"({0})'(\d+{1}?)\b(?![.]?[{1}]*?')", SNIP_SPACE, SNIP_WRD)),
          r"$1&#8217;$2"),
-- 
2.43.0


From 85e6c0b828b987c013047e77d4f1ae4c51cb8fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:13 +0000
Subject: [PATCH 47/58] fix: brackets after the address of a link stay out of
 it before verbatim text

What follows an address was looked at together with the piece of processed
text after it, so that a bracket between them became a part of the address.
---
 src/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 90b2742..0ef31d1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1436,6 +1436,11 @@ impl <'t> ParserState<'t> {
             };
             let mut pop = String::new();
             let mut tight = String::new();
+            // A piece of already processed text can't be a part of the url
+            let mut processed = "";
+            if let Some(pos) = url.find(&self.textile.uid) {
+                (url, processed) = url.split_at(pos);
+            }
             let csb_count: usize = url.matches(']').count();
             let mut counts = CharCounter::new(['[', ']', '(', ')']);
             counts[']'] = Some(csb_count);
@@ -1547,12 +1552,8 @@ impl <'t> ParserState<'t> {
                 }
             }
 
-            let mut url: String = url_chars.iter().collect();
-            // A piece of already processed text can't be a part of the url
-            if let Some(pos) = url.find(&self.textile.uid) {
-                pop.insert_str(0, &url[pos..]);
-                url.truncate(pos);
-            }
+            let url: String = url_chars.iter().collect();
+            tight.push_str(processed);
 
             let url = self.unrestrict_url(&url);
             let uri_parts = UrlBits::parse(&url);
-- 
2.43.0


From a4897a4265cd290d3264a49c3e16ed508e9debcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:12 +0000
Subject: [PATCH 48/58] fix: a link in brackets may have brackets in its text

'("some (nice) text":url) ' was taken for a quoted quotation mark up to the
first bracket which a space follows.
---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0ef31d1..ed7147b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1891,8 +1891,10 @@ impl <'t> ParserState<'t> {
         const QUOTE_STARTS: &str = "\"'({[«»‹›„‚‘”";
         lazy_static! {
             static ref PATTERN_RE: Regex = fregex!(
-                &format!(" (?P<pre>[{}])(?P<quoted>\"?|\"[^\"]+)(?P<post>.) ",
-                         fancy_regex::escape(QUOTE_STARTS)));
+                &format!(
+                    // a quoted text may not be the start of a link
+                    " (?P<pre>[{}])(?P<quoted>\"?|\"[^\"]+(?=. (?![^\"]*\":\\S)))(?P<post>.) ",
+                    fancy_regex::escape(QUOTE_STARTS)));
         }
 
         fn matching_quote(quote: char) -> Option<char> {
-- 
2.43.0


From 0bf6e8082f7843259d896b7a1e58b0a7e9018fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:56 +0000
Subject: [PATCH 49/58] fix: a table within a definition keeps its rows free of
 line breaks

---
 src/parser.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ed7147b..6c9264e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -922,9 +922,20 @@ impl <'t> ParserState<'t> {
 
                     if !term.is_empty() {
                         let newline_started_def = definition.starts_with('\n');
-                        let mut definition = definition
+                        // The tags of a table which is already there are not a text to process
+                        let table_start = definition.find("\t<table")
+                            .filter(|_| definition.contains("</table>"));
+                        let (text, table) = definition
+                            .split_at(table_start.unwrap_or(definition.len()));
+                        let mut definition = text
                             .trim()
                             .replace('\n', self.textile.proper_br_tag());
+                        if table_start.is_some() {
+                            if !definition.is_empty() {
+                                definition.push('\n');
+                            }
+                            definition.push_str(table.trim_end());
+                        }
 
                         if newline_started_def {
                             definition = format!("<p>{0}</p>", definition);
@@ -932,8 +943,7 @@ impl <'t> ParserState<'t> {
                         let term = term.replace('\n', self.textile.proper_br_tag());
 
                         let term = self.graf(&term);
-                        // The tags of a table which is already there are not a text to process
-                        let definition = if definition.contains("</table>") {
+                        let definition = if table_start.is_some() {
                             definition.into()
                         } else {
                             self.graf(&definition)
-- 
2.43.0


From 7a44869a32c1b6b5dc7b6527838b957bc3a4f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:29 +0000
Subject: [PATCH 50/58] fix: text between the rows of a table isn't dropped

---
 src/table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/table.rs b/src/table.rs
index e8944a0..c863824 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -213,7 +213,9 @@ pub(crate) fn process_table<'t>(
 
         // create a row to hold the cells.
         let mut r = Row::new(parser.shelve_attributes(row_atts));
-        for (_cellctr, cell) in row.split('|').skip(1).enumerate() {
+        // what stands before the first cell is only skipped if there's no text in it
+        let skipped = if row.trim_start().starts_with('|') || row.trim().is_empty() {1} else {0};
+        for (_cellctr, cell) in row.split('|').skip(skipped).enumerate() {
             let ctag = match HEADING_RE.is_match(cell) {
                 Ok(true) => "th",
                 _ => "td"
-- 
2.43.0


From 7e77530a5eb9475245dc463cdf15c23d22af9026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:41 +0000
Subject: [PATCH 51/58] fix: a definition of no term isn't dropped

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6c9264e..e938b9f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -920,7 +920,7 @@ impl <'t> ParserState<'t> {
                         out.push(dltag);
                     }
 
-                    if !term.is_empty() {
+                    if !term.is_empty() || !definition.trim().is_empty() {
                         let newline_started_def = definition.starts_with('\n');
                         // The tags of a table which is already there are not a text to process
                         let table_start = definition.find("\t<table")
-- 
2.43.0


From b20bb37d4ca285b1b00c4d79c6eb6ea898042e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:54 +0000
Subject: [PATCH 52/58] fix: the size of an image is asked from its address as
 written

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e938b9f..799963a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -675,7 +675,7 @@ impl <'t> ParserState<'t> {
             atts.insert("alt", optional_title.as_deref().unwrap_or_default().to_owned());
 
             if !UrlBits::parse(url).is_relative() && self.textile.get_sizes {
-                if let Some((width, height)) = get_image_size(url) {
+                if let Some((width, height)) = get_image_size(&self.unrestrict_url(url)) {
                     atts.insert("height", height.to_string());
                     atts.insert("width", width.to_string());
                 }
-- 
2.43.0


From a7c1fb4f6551ab14b884932a859cf221ae75f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:09 +0000
Subject: [PATCH 53/58] fix: apply a vertical alignment that follows a header
 mark, a span or a horizontal alignment

---
 src/block.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 1245804..9b921b1 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -106,7 +106,7 @@ impl BlockAttributes {
         lazy_static! {
             static ref COLSPAN_RE: Regex = fregex!(r"\\(\d+)");
             static ref ROWSPAN_RE: Regex = fregex!(r"/(\d+)");
-            static ref ATTR_VALIGN_RE: Regex = fregex!(&format!(r"^{}", VALIGN_RE_S));
+            static ref ATTR_VALIGN_RE: Regex = fregex!(VALIGN_RE_S);
             static ref ATTR_STYLE_RE: Regex = fregex!(r"\{([^}]*)\}");
             static ref ATTR_LANG_RE: Regex = fregex!(r"\[([^\]]+)\]");
             static ref ATTR_ACLASS_RE: Regex = fregex!(r"\(([^()]+)\)");
@@ -132,17 +132,6 @@ impl BlockAttributes {
         }
 
         let mut matched = block_attributes.to_owned();
-        if element == Some("td") || element == Some("tr") {
-            if let Ok(Some(m)) = ATTR_VALIGN_RE.find(&matched) {
-                let alignment = match m.as_str() {
-                    "^" => "top",
-                    "-" => "middle",
-                    "~" => "bottom",
-                    _ => unreachable!("Unsupported table vertical alignment: {}", m.as_str())
-                };
-                style.push(format!("vertical-align:{}", alignment));
-            }
-        }
 
         if let Ok(Some(m)) = ATTR_STYLE_RE.captures(&matched) {
             if !restricted {
@@ -207,6 +196,19 @@ impl BlockAttributes {
             _ => (None, None)
         };
 
+        // may follow a header mark, spans or a horizontal alignment
+        if element == Some("td") || element == Some("tr") {
+            if let Ok(Some(m)) = ATTR_VALIGN_RE.find(&matched) {
+                let alignment = match m.as_str() {
+                    "^" => "top",
+                    "-" => "middle",
+                    "~" => "bottom",
+                    _ => unreachable!("Unsupported table vertical alignment: {}", m.as_str())
+                };
+                style.insert(0, format!("vertical-align:{}", alignment));
+            }
+        }
+
         let (colspan, rowspan) = if element == Some("td") {
             (COLSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()),
              ROWSPAN_RE.captures(&matched).unwrap_or(None).map(|m| m[1].to_owned()))
-- 
2.43.0


From f3ec7e9353deb4038720459208d587d5a683a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:00 +0000
Subject: [PATCH 54/58] fix: brackets, quotes and tags after an exclamation
 mark are no images

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 799963a..8bdaf63 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -621,10 +621,11 @@ impl <'t> ParserState<'t> {
                     concat!(
                         r"(?:[\[{{])?",               // pre
                         r"\!",                        // opening !
+                        r"(?!</?\w+(?:\s[^!>]*)?/?>)", // not an HTML tag
                         r"([<>=]|&lt;|&gt;)?",        // optional alignment atts
                         r"({0})",                     // optional style,class atts
                         r"(?:\.\s)?",                 // optional dot-space
-                        r"([^\s(!]+)",                // presume this is the src
+                        r#"([^\s(!\]"'][^\s(!]*)"#,   // presume this is the src
                         r"\s?",                       // optional space
                         r"(?:\(([^\)]+)\))?",         // optional title
                         r"\!",                        // closing
-- 
2.43.0


From 41f22247e5c17c9f7b22b177952e4158eebb249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:00 +0000
Subject: [PATCH 55/58] fix: note references don't take the ends of phrases
 into their attributes

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 8bdaf63..6840e24 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1277,6 +1277,10 @@ impl <'t> ParserState<'t> {
         // in the order we process the refs...
         let f_parse_note_refs = |cap: &Captures| -> String {
             let (atts, label, nolink) = (&cap[1], &cap[2], &cap[3]);
+            // attributes can't take in the tags made so far, either
+            if atts.contains(":ospan") || atts.contains(":cspan") {
+                return cap[0].to_owned();
+            }
             let html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
 
             // Assign a sequence number to this reference if there isn't one already
-- 
2.43.0


From ed8018e8e84daee27c0da82c52e3b0c82af89729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:00 +0000
Subject: [PATCH 56/58] fix: a quote after a closing tag closes the quotation

---
 src/parser.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6840e24..4f6f63d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1354,6 +1354,8 @@ impl <'t> ParserState<'t> {
             static ref HTML5_GLYPH_REPLACERS: [(Regex, &'static str); 22] = make_glyph_replacers(true);
             static ref XHTML_GLYPH_REPLACERS: [(Regex, &'static str); 22] = make_glyph_replacers(false);
             static ref SPLITTER_RE: Regex = fregex!(r"(<[\w\/!?].*?>)");
+            static ref CLOSING_QUOTE_RE: Regex = fregex!(
+                &format!(r#"^["'](?={0}|{1}|$)"#, SNIP_SPACE, PNCT_RE_S));
         }
 
         let text = text.trim_end_matches('\n');
@@ -1363,10 +1365,21 @@ impl <'t> ParserState<'t> {
             HtmlKind::HTML5 => &HTML5_GLYPH_REPLACERS[..],
             HtmlKind::XHTML => &XHTML_GLYPH_REPLACERS[..],
         };
+        let mut after_closing_tag = false;
         // split the text by any angle-bracketed tags
         for (i, raw_line) in split_with_capture(&SPLITTER_RE, text).enumerate() {
+            if i % 2 == 1 {
+                after_closing_tag = raw_line.starts_with("</");
+            }
             result.push(
                 if i % 2 == 0 {
+                    // a quote right after a closing tag closes, too
+                    let (quote, raw_line) = if after_closing_tag && CLOSING_QUOTE_RE.is_match(raw_line).unwrap_or(false) {
+                        let (quote, rest) = raw_line.split_at(1);
+                        (if quote == "\"" { "&#8221;" } else { "&#8217;" }, rest)
+                    } else {
+                        ("", raw_line)
+                    };
                     let raw_line = if !self.textile.restricted {
                         Cow::Owned(
                             LONE_AMP_RE.try_replace_all(raw_line, "&amp;")
@@ -1375,14 +1388,15 @@ impl <'t> ParserState<'t> {
                     } else {
                         Cow::Borrowed(raw_line)
                     };
-                    multi_replace(
+                    let replaced = multi_replace(
                         raw_line,
                         replacers
                             .iter()
                             .map(|item| (&item.0, item.1))
                             .chain(self.textile.dyn_glyph_replacers.iter()
                                    .map(|item| (&item.0, item.1.as_str())))
-                    ).into()
+                    );
+                    Cow::Owned(format!("{quote}{replaced}"))
                 } else {
                     Cow::Borrowed(raw_line)
                 });
-- 
2.43.0


From 8cef675329c67a961cd9c2c17ed6f446f9fa75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:00 +0000
Subject: [PATCH 57/58] fix: a bracket within a bracketed quotation doesn't end
 it

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4f6f63d..88266cc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1954,6 +1954,11 @@ impl <'t> ParserState<'t> {
                     if Some(post_char) != matching_quote(pre_char) {
                         return m[0].to_owned();
                     }
+                    // The closing bracket may belong to another one, in between
+                    let quoted = &m["quoted"];
+                    if quoted.matches(pre_char).count() > quoted.matches(post_char).count() {
+                        return m[0].to_owned();
+                    }
                     let new_pre = match pre_char {
                         '"' => "&#8220;",
                         '\'' => "&#8216;",
-- 
2.43.0


From 292e60a437d15cbc50fd328f6e74a10520522785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:20 +0000
Subject: [PATCH 58/58] fix: terms and definitions are not processed twice

---
 src/parser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 88266cc..a22bc89 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -943,11 +943,14 @@ impl <'t> ParserState<'t> {
                         }
                         let term = term.replace('\n', self.textile.proper_br_tag());
 
-                        let term = self.graf(&term);
-                        let definition = if table_start.is_some() {
-                            definition.into()
+                        // Set aside, so that it won't be processed once more
+                        let term = self.graf(&term).into_owned();
+                        let term = self.shelve(term);
+                        let definition = if table_start.is_some() || definition.is_empty() {
+                            definition
                         } else {
-                            self.graf(&definition)
+                            let definition = self.graf(&definition).into_owned();
+                            self.shelve(definition)
                         };
 
                         out.push(format!("\t<dt{0}>{1}</dt>", html_atts_str, term).into());
-- 
2.43.0


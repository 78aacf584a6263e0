From 57e31e6b561b9b3c9e1db32bf5056bfff187fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 01/54] fix: don't slice inside a multi-byte char at the end of
 a link reference definition

A destination that ends the input with a multi-byte character made the
parser slice with an inclusive end of its last character's first byte.
---
 src/links.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 5d82036..e57c365 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -694,7 +694,7 @@ fn parse_link_reference_definition<'i>(
                 // It's possible that the link is a single character
                 let is_last = iter.peek().is_none();
                 if is_last {
-                    let url = Cow::from(&input[idx..=idx]);
+                    let url = Cow::from(&input[idx..]);
                     builder.set_url(LinkDestination::Regular(url), idx..idx, offset);
                     parsed_until = idx;
                     break;
@@ -728,7 +728,7 @@ fn parse_link_reference_definition<'i>(
                         if !c.is_whitespace() {
                             let is_last = iter.peek().is_none();
                             if is_last {
-                                let url = Cow::from(&input[start..=idx]);
+                                let url = Cow::from(&input[start..]);
                                 builder.set_url(LinkDestination::Regular(url), start..idx, offset);
                                 parsed_until = idx;
                                 break;
-- 
2.43.0


From 4f9113f677ef8362ba4cf1b5322d90fc5766cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 02/54] fix: an escaped backslash doesn't escape the bracket
 that ends a link text

'\\]' closes the text of a link. Treating the bracket as escaped lost the
closing bracket, which read past the end of the link or lost its label.
---
 src/links.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/links.rs b/src/links.rs
index e57c365..5c4a3a9 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -179,7 +179,7 @@ fn find_text_within_last_set_of_balance_bracket(
                 }
             }
         }
-        was_last_escape = byte == b'\\'
+        was_last_escape = is_char_esacped(byte as char, was_last_escape);
     }
     (start, end + 1)
 }
-- 
2.43.0


From ab93d68b46e82d7a2b1ddcae273c7e9e4b1c4aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 03/54] fix: keep the angle brackets of an empty link
 destination that has a title

'[a](<> "title")' was rewritten as '[a]( "title")', which is a link to
'"title"' or no link at all.
---
 src/links.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/links.rs b/src/links.rs
index 5c4a3a9..9ae3ce2 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -91,7 +91,8 @@ where
         url: &str,
         title: Option<(S, char)>,
     ) -> std::fmt::Result {
-        let url = format_link_url(url, false);
+        // An empty destination needs `<>`, otherwise the title would be parsed as the destination
+        let url = format_link_url(url, title.is_some());
         match title {
             Some((title, ')')) => write!(self, r#"]({url} ({}))"#, title.as_ref())?,
             Some((title, quote)) => write!(self, r#"]({url} {quote}{}{quote})"#, title.as_ref())?,
-- 
2.43.0


From 89c29314a0480a976fa0bfd976121f747bf5e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 04/54] fix: only ASCII whitespace ends the destination of a
 link reference definition

A destination may hold other Unicode whitespace, and what followed it was
dropped from the output.
---
 src/links.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 9ae3ce2..f4a4bef 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -688,7 +688,7 @@ fn parse_link_reference_definition<'i>(
                 // TODO(ytmimi) handle `>` on newlines in url start. If we're in a nested context
                 // like a block quote, then we need to potentially ignore leading `>` chars, but if
                 // we're still on the same line then we can assume that the `>` is part of the URL.
-                if c.is_whitespace() || (newline_count > 0 && c == '>') {
+                if c.is_ascii_whitespace() || (newline_count > 0 && c == '>') {
                     continue;
                 }
 
@@ -726,7 +726,8 @@ fn parse_link_reference_definition<'i>(
                         parsed_until = idx;
                     }
                     _ => {
-                        if !c.is_whitespace() {
+                        // Unicode whitespace doesn't end the destination
+                        if !c.is_ascii_whitespace() {
                             let is_last = iter.peek().is_none();
                             if is_last {
                                 let url = Cow::from(&input[start..]);
-- 
2.43.0


From 8b96020bcddb4edcc50ecccc87922e2485c2af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 05/54] fix: track escapes across the lines of a link reference
 definition

A backslash at the end of a line escaped the first character of the next
one, and a backslash at the start of a line escaped nothing, so the
definition was dropped or lost a part of its label.
---
 src/links.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/links.rs b/src/links.rs
index f4a4bef..0d2d2d6 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -621,6 +621,8 @@ fn parse_link_reference_definition<'i>(
                 if c == '\n' {
                     let label = Cow::from(&input[start..idx]);
                     builder.set_label(label, start..idx, offset);
+                    // A backslash at the end of a line doesn't escape what comes after the newline
+                    is_escaped = false;
                     // Handle the newline if the next char doesn't immediatly terminate the label
                     if iter.peek().is_some_and(|(_, c)| *c != ']') {
                         tracing::trace!(
@@ -664,6 +666,7 @@ fn parse_link_reference_definition<'i>(
                     continue;
                 }
                 start = idx;
+                is_escaped = is_char_esacped(c, is_escaped);
                 match next_phase {
                     MultiLinePhase::Label => {
                         tracing::trace!("Transition to LinkParserPhase::Label");
@@ -783,6 +786,8 @@ fn parse_link_reference_definition<'i>(
                 if c == '\n' {
                     let label = Cow::from(&input[start..idx]);
                     builder.set_title(marker, label, start..idx, offset);
+                    // A backslash at the end of a line doesn't escape what comes after the newline
+                    is_escaped = false;
                     // Handle the newline if the next char doesn't immediatly terminate the title
                     if iter.peek().is_some_and(|(_, c)| *c != marker.closer()) {
                         tracing::trace!(
-- 
2.43.0


From 12312d5b6a2b70a2bf56dc0ff17bb285cd9cef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 06/54] fix: escape a leading '^' after whitespace in a link
 reference definition's label

'[ ^a ]: /u' was rewritten as '[^a]: /u', which is a footnote definition.
---
 src/links.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 0d2d2d6..74f2369 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -288,10 +288,10 @@ impl<'a> LinkReferenceDefinitionBuilder<'a> {
     fn set_label(&mut self, label: Cow<'a, str>, range: std::ops::Range<usize>, offset: usize) {
         let mut label_parts = self.label.take().unwrap_or(LinkLines::new());
         let offset_range = (offset + range.start)..(offset + range.end);
-        if label_parts.is_empty() && label.starts_with('^') {
+        if label_parts.is_empty() && label.trim_start().starts_with('^') {
             let mut new_label = String::with_capacity(label.len() + 1);
             new_label.push('\\');
-            new_label.push_str(&label);
+            new_label.push_str(label.trim_start());
             label_parts.push((new_label.into(), offset_range));
         } else {
             label_parts.push((label, offset_range));
-- 
2.43.0


From 9340a7cd7f38e4b3e4e5b59ec61c8b06633e454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 07/54] fix: escape a label's trailing backslash when its last
 line is blank

'[a\<newline>]: /u' was rewritten as '[a\]: /u', which isn't a definition.
---
 src/links.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 74f2369..99dfa9b 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -520,15 +520,19 @@ impl<'a> LinkLines<'a> {
             let is_last = iter.peek().is_none();
             if !is_last {
                 write!(buffer, "{text} ")?;
-            } else if sequence_ends_on_escape(text) {
-                // Escape this so that the next formatting run doesn't
-                // interpret the closing `]` as `\]`.
-                write!(buffer, "{text}\\")?;
             } else {
                 write!(buffer, "{text}")?;
             }
         }
-        write!(writer, "{}", buffer.trim())
+
+        let text = buffer.trim();
+        if sequence_ends_on_escape(text) {
+            // Escape this so that the next formatting run doesn't
+            // interpret the closing `]` as `\]`.
+            write!(writer, "{text}\\")
+        } else {
+            write!(writer, "{text}")
+        }
     }
 }
 
-- 
2.43.0


From 92dee0ad6f8cff5524d7e08e554bc2bfd6adc335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 08/54] fix: pad table cells by their displayed width

Cells with combining chars or multi-char graphemes (for example an emoji with a zero width joiner)
were padded by the number of chars, so the column's rows didn't line up.
---
 src/table.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 310b273..90e0c4b 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1,9 +1,8 @@
-use crate::utils::unicode_str_width;
+use crate::utils::{get_spaces, unicode_str_width};
 use itertools::{EitherOrBoth, Itertools};
 use pulldown_cmark::Alignment;
 use std::borrow::Cow;
 use std::fmt::Write;
-use unicode_segmentation::UnicodeSegmentation;
 
 #[derive(Debug, PartialEq)]
 pub(super) struct TableState<'a> {
@@ -143,12 +142,12 @@ impl<'a> TableState<'a> {
         Ok(result)
     }
 
-    fn write_wth_padding(buffer: &mut String, value: &str, mut size: usize) -> std::fmt::Result {
-        let offset = UnicodeSegmentation::graphemes(value, true)
-            .map(|grapheme| unicode_str_width(grapheme).saturating_sub(1))
-            .sum();
-        size = size.saturating_sub(offset);
-        write!(buffer, " {value:<size$} |")
+    fn write_wth_padding(buffer: &mut String, value: &str, size: usize) -> std::fmt::Result {
+        // Pad based on the displayed width of the value. Using the format width (`{value:<size$}`)
+        // would pad based on the number of chars, which misaligns cells that contain chars that
+        // don't take up exactly one column.
+        let padding = get_spaces(size.saturating_sub(unicode_str_width(value)));
+        write!(buffer, " {value}{padding} |")
     }
 
     fn rewrite_header(&self, buffer: &mut String) -> std::fmt::Result {
-- 
2.43.0


From a000b41d232521c273ad5efc6f98f7b6f6255ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 09/54] fix: don't wrap text in the middle of a hyphenated word

Splitting 'foo-bar' over two lines turns it into 'foo- bar'.
---
 src/paragraph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index bd93a11..a5f2891 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -188,6 +188,8 @@ impl Paragraph {
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
             .word_separator(textwrap::WordSeparator::AsciiSpace)
+            // Breaking a hyphenated word over two lines adds a space to the word
+            .word_splitter(textwrap::WordSplitter::NoHyphenation)
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
 
         let mut split_on_hard_breaks = rewrite_buffer.split(MARKDOWN_HARD_BREAK).peekable();
-- 
2.43.0


From 819b297ced7d3e8634f315ce1e82cb0e3a15b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 10/54] fix: don't remove the start of a paragraph when
 reflowing text

textwrap::unfill removes chars that look like a comment's prefix, so reflowing '*emphasized* text'
removed the first '*'. It also removed the line break of hard breaks that use a backslash.
---
 src/paragraph.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index a5f2891..46a176a 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -197,8 +197,7 @@ impl Paragraph {
         while let Some(text) = split_on_hard_breaks.next() {
             let has_next = split_on_hard_breaks.peek().is_some();
             let wrapped_text = if self.should_reflow_text {
-                let (text, _) = textwrap::unfill(text);
-                textwrap::fill(&text, wrap_options.clone())
+                textwrap::fill(&unfill(text), wrap_options.clone())
             } else {
                 textwrap::fill(text, wrap_options.clone())
             };
@@ -212,6 +211,27 @@ impl Paragraph {
     }
 }
 
+/// Put all the text on a single line.
+///
+/// [textwrap::unfill] isn't used because it removes chars that look like the prefix of a comment.
+/// For example, it removes the first `*` from `*emphasized* text`.
+///
+/// **Note** Hard breaks that are marked with a backslash are kept.
+fn unfill(text: &str) -> String {
+    let mut unfilled = String::with_capacity(text.len());
+    for line in text.split_inclusive('\n') {
+        if line.ends_with("\\\n") {
+            unfilled.push_str(line);
+        } else if let Some(line) = line.strip_suffix('\n') {
+            unfilled.push_str(line);
+            unfilled.push(' ');
+        } else {
+            unfilled.push_str(line);
+        }
+    }
+    unfilled
+}
+
 /// Determine if this is the delimiter row of a markdown table.
 ///
 /// For example, the second row of the table is the delimiter row.
-- 
2.43.0


From 08c81c69521a4844b62b666691ebab16a8db242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 11/54] fix: keep hard breaks that use trailing spaces when
 reflowing text

---
 src/paragraph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 46a176a..1ec9f30 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -35,6 +35,11 @@ impl WriteContext<'_> for Paragraph {
                     return self.write_str(s);
                 }
             }
+            MarkdownContext::Event(Event::HardBreak) => {
+                // Unlike soft breaks, hard breaks must be kept when text is reflowed
+                self.buffer.push_str(s);
+                return Ok(());
+            }
             MarkdownContext::Tag(Tag::Link { link_type, .. }) => {
                 let closing_brace_needs_escape = || {
                     if !self.buffer.ends_with(']')
-- 
2.43.0


From 1d5d701d606642f7bd39b794053a8109fb6a4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 12/54] fix: normalize the line ending of hard breaks with more
 than two spaces

---
 src/formatter.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 07f0858..ae29c62 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -763,13 +763,10 @@ where
                     }
                 }
                 Event::HardBreak => {
-                    let hard_break = match &self.input[range] {
-                        "\\\r" | "\\\r\n" | "\\\n" => "\\\n",
-                        "  \r" | "  \r\n" | "  \n" => "  \n",
-                        h => h,
-                    };
+                    // There might be any number of trailing spaces
+                    let hard_break = self.input[range].replace("\r\n", "\n").replace('\r', "\n");
 
-                    self.write_event_str(&event, hard_break)?;
+                    self.write_event_str(&event, &hard_break)?;
                 }
                 Event::Html(_) => {
                     let newlines = self.count_newlines(&range);
-- 
2.43.0


From 3565e9cdbbf27785fbd530ca803baf61fecf9888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 13/54] fix: escape text that looks like a tilde fence whose
 info string has a tilde or backtick

Only backtick fences restrict the characters of the info string, so such a line
became a fenced code block once its indentation was removed.
---
 src/escape.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index bb91906..093a8db 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -87,8 +87,9 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
             return true;
         }
 
-        // opening code fences can't contain backtick (`) or tilde (~) in the info string.
-        !info_string.contains(['`', '~'])
+        // Only code fences that use backticks restrict what the info string can contain.
+        // <https://spec.commonmark.org/0.30/#example-146>
+        marker != '`' || !info_string.contains('`')
     };
 
     match first_char {
-- 
2.43.0


From 1b8a5cb3c9306293f5ce64ebace647a98a90811e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:18:07 +0000
Subject: [PATCH 14/54] fix: escape a list marker look-alike that is followed
 by a tab

---
 src/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 1ec9f30..f45d013 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -123,7 +123,9 @@ impl WriteContext<'_> for Paragraph {
         }
 
         // Prevent the next pass from interpreting this as a list
-        if self.buffer.ends_with('\n') && matches!(s, "* " | "+ " | "- ") {
+        if self.buffer.ends_with('\n')
+            && matches!(s, "* " | "+ " | "- " | "*\t" | "+\t" | "-\t")
+        {
             self.buffer.push('\\');
         }
 
-- 
2.43.0


From 2f5e9561087f452a8d3e9c3082953a7396286c13 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 15/54] fix: keep an escaped # in front of several closing
 sequences of a heading

---
 src/header.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index ba247a0..cb1d081 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -152,18 +152,17 @@ impl<'i> Header<'i> {
     }
 
     fn remove_trailing_hashtags(&mut self) {
-        let snippet = self.buffer.trim_end().trim_end_matches('#');
-        let is_escaped = sequence_ends_on_escape(snippet);
-        let no_spaces = !snippet.ends_with(char::is_whitespace);
-        if is_escaped || (no_spaces && !snippet.is_empty()) {
-            return;
-        }
+        // Removing the `#` might leave us with text that also ends with `#`
+        while self.buffer.trim_end().ends_with('#') {
+            let snippet = self.buffer.trim_end().trim_end_matches('#');
+            let is_escaped = sequence_ends_on_escape(snippet);
+            let no_spaces = !snippet.ends_with(char::is_whitespace);
+            if is_escaped || (no_spaces && !snippet.is_empty()) {
+                return;
+            }
 
-        while self
-            .buffer
-            .ends_with(|c: char| c.is_whitespace() || c == '#')
-        {
-            self.buffer.pop();
+            let len = snippet.trim_end().len();
+            self.buffer.truncate(len);
         }
     }
 
-- 
2.43.0


From b2c06cd720cf9c637a913bdb97e89cba5ea4af9c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 16/54] fix: escape text that looks like the closing tag of an
 HTML block

---
 src/html.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 689685f..9b3f590 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -59,6 +59,8 @@ pub(crate) fn starts_with_html_block_identifier(s: &str) -> bool {
 
     // Combines HTML block condition 1 and 6
     let is_html_block_identifier = |value: &str| {
+        // Closing tags start an HTML block as well
+        let value = value.strip_prefix('/').unwrap_or(value);
         HTML_BLOCK_TAG
             .iter()
             .any(|tag| tag.eq_ignore_ascii_case(value))
-- 
2.43.0


From 772d2494af2d24d98023574d60405caf846bfe43 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 17/54] fix: a label on the line after its bracket kept the
 markers of block quotes

---
 src/formatter.rs | 10 ++++++----
 src/links.rs     |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ae29c62..7d3a8e3 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1517,23 +1517,25 @@ where
                         }
                     }
                     LinkType::Reference | LinkType::ReferenceUnknown => {
+                        // Only trim once the indentation of every line was removed
                         let label = crate::links::find_reference_link_label(text);
                         if count_newlines(label) > 0 {
                             write!(self, "][")?;
                             let label = split_lines(label)
                                 .map(|l| self.trim_leading_indentation(l))
                                 .join("\n");
+                            let label = label.trim();
 
                             if label.starts_with('^') {
                                 write!(self, "\\")?;
                             }
 
-                            self.write_str(&label)?;
+                            self.write_str(label)?;
                             write!(self, "]")?;
-                        } else if label.starts_with('^') {
-                            write!(self, "][\\{label}]")?;
+                        } else if label.trim().starts_with('^') {
+                            write!(self, "][\\{}]", label.trim())?;
                         } else {
-                            write!(self, "][{label}]")?;
+                            write!(self, "][{}]", label.trim())?;
                         }
                     }
                     LinkType::Collapsed | LinkType::CollapsedUnknown => write!(self, "][]")?,
diff --git a/src/links.rs b/src/links.rs
index 99dfa9b..5e18c4c 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -192,7 +192,7 @@ pub(super) fn find_reference_link_label(input: &str) -> &str {
     let (start, end) = find_text_within_last_set_of_balance_bracket(input, b'[', b']', None);
     // +1 to move past '['
     // -1 to move before ']'
-    input[start + 1..end - 1].trim()
+    &input[start + 1..end - 1]
 }
 
 /// Inline links are expected to be well formed:
-- 
2.43.0


From 16c59c1499735d9641ea3a82361822b921e538b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 18/54] fix: escape every tag name that starts an HTML block

---
 src/html.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 9b3f590..4d4bb41 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -49,6 +49,31 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "video",
     "script",
     "style",
+    "address",
+    "base",
+    "basefont",
+    "center",
+    "details",
+    "dialog",
+    "dir",
+    "frame",
+    "frameset",
+    "head",
+    "html",
+    "legend",
+    "link",
+    "main",
+    "menu",
+    "menuitem",
+    "nav",
+    "noframes",
+    "optgroup",
+    "option",
+    "param",
+    "search",
+    "summary",
+    "title",
+    "track",
 ];
 
 /// Check if the given string starts with a well known HTML block tag name
-- 
2.43.0


From b92251cd708b2c045d865602ae9d5ff6fb9e632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 19/54] fix: escape HTML block starts that are followed by
 non-ASCII text

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index 4d4bb41..f09fb65 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -78,7 +78,7 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
 
 /// Check if the given string starts with a well known HTML block tag name
 pub(crate) fn starts_with_html_block_identifier(s: &str) -> bool {
-    if s.trim().is_empty() || !s.is_ascii() {
+    if s.trim().is_empty() {
         return false;
     }
 
-- 
2.43.0


From bc6df286c29c68c93c28a0191326b219e68a5db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 20/54] fix: escape every marker of text that looks like a
 thematic break with tabs

---
 src/escape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape.rs b/src/escape.rs
index 093a8db..7d404bf 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -68,7 +68,7 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
     let is_setext_heading = |value: u8| input.trim_end().bytes().all(|b| b == value);
     let is_unordered_list_marker = |value: char| marker_with_optional_trailing_space(1, value);
     let is_thematic_break = |value: u8| {
-        input.bytes().all(|b| b == value || b == b' ')
+        input.bytes().all(|b| b == value || b == b' ' || b == b'\t')
             && input.bytes().filter(|b| *b == value).count() >= 3
     };
     let is_fenced_code_block = |value: &str| {
-- 
2.43.0


From 7fd6bc1f9789f2aa32658604dce3e10f235809e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 21/54] fix: separate a heading's first custom attribute from
 its id or classes

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index cb1d081..4fa48e3 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -327,7 +327,7 @@ impl<'i> Header<'i> {
         }
 
         if !attrs.is_empty() {
-            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() || empty_classes)?;
+            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() && empty_classes)?;
         }
 
         write!(self.buffer, "}}")
-- 
2.43.0


From 4b40e191876130cdad0ea2320eb3aa49dc0a5ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 22/54] fix: keep the angle brackets of link destinations with
 tabs or an escaped > at the end

---
 src/links.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 5e18c4c..58b56ad 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -105,9 +105,8 @@ where
 pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str> {
     if wrap_empty_urls && url.is_empty() {
         Cow::from("<>")
-    } else if !url.starts_with('<') && !url.ends_with('>') && url.contains(' ')
-        || !balanced_parens(url)
-    {
+    } else if url.contains(|c: char| c == ' ' || c.is_ascii_control()) || !balanced_parens(url) {
+        // Spaces, control characters, and unbalanced parens are only allowed between `<` and `>`
         // https://spec.commonmark.org/0.30/#link-destination
         Cow::from(format!("<{url}>"))
     } else {
-- 
2.43.0


From 34a6bcddb1aa7dc19bda64b402f57cade7a4a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 23/54] fix: keep spaces at the ends of link destinations in
 angle brackets

---
 src/links.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/links.rs b/src/links.rs
index 58b56ad..f7e68b7 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -231,7 +231,7 @@ fn link_title_start(link: &[u8]) -> usize {
 
 fn trim_angle_brackes(url: &str) -> &str {
     if url.starts_with('<') && url.ends_with('>') {
-        url[1..url.len() - 1].trim()
+        &url[1..url.len() - 1]
     } else {
         url.trim()
     }
-- 
2.43.0


From 940bb1f13a0f455a8064d2d4a01cc160ed3a38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 24/54] fix: keep Unicode whitespace at the end of link
 destinations

---
 src/links.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index f7e68b7..ea410a1 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -202,7 +202,7 @@ pub(super) fn find_inline_url_and_title(input: &str) -> Option<(String, Option<(
         find_text_within_last_set_of_balance_bracket(input, b'[', b']', Some(|b| b == b'('));
     // +1 to move past '('
     // -1 to move before ')'
-    let inline_url = input[end + 1..input.len() - 1].trim();
+    let inline_url = trim_ascii_whitespace(&input[end + 1..input.len() - 1]);
     if inline_url.is_empty() {
         return Some((String::new(), None));
     }
@@ -233,10 +233,15 @@ fn trim_angle_brackes(url: &str) -> &str {
     if url.starts_with('<') && url.ends_with('>') {
         &url[1..url.len() - 1]
     } else {
-        url.trim()
+        trim_ascii_whitespace(url)
     }
 }
 
+/// Unicode whitespace can be part of a link destination
+fn trim_ascii_whitespace(input: &str) -> &str {
+    input.trim_matches(|c: char| c.is_ascii_whitespace())
+}
+
 fn split_inline_url_from_title(
     input: &str,
     has_title: bool,
-- 
2.43.0


From 70bf1d874111094339032aa0113327e1cd26867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 25/54] fix: links over several lines in a block quote got its
 > in their destination or title

---
 src/formatter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 7d3a8e3..b11390f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1503,8 +1503,17 @@ where
 
                 match link_type {
                     LinkType::Inline => {
+                        // The indentation of nested lines isn't part of the destination or title
+                        let text = split_lines(text)
+                            .enumerate()
+                            .map(|(i, l)| match i {
+                                0 => l,
+                                _ => self.trim_leading_indentation(l),
+                            })
+                            .join("\n");
+
                         if let Some((source_url, title_and_quote)) =
-                            crate::links::find_inline_url_and_title(text)
+                            crate::links::find_inline_url_and_title(&text)
                         {
                             self.write_inline_link(&source_url, title_and_quote)?;
                         } else {
-- 
2.43.0


From 4ca6e022a4c94e2fe6036d74ac5c531d70a53758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 26/54] fix: a label that starts with > lost it if it spanned
 several lines in a block quote

---
 src/formatter.rs | 43 ++++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index b11390f..8ac21b3 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1499,19 +1499,17 @@ where
                     }
                 };
                 self.write_str(&link_writer.into_buffer())?;
-                let text = &self.input[range.clone()];
+                // The indentation of nested lines isn't part of the destination, title or label
+                let text = split_lines(&self.input[range.clone()])
+                    .enumerate()
+                    .map(|(i, l)| match i {
+                        0 => l,
+                        _ => self.trim_leading_indentation(l),
+                    })
+                    .join("\n");
 
                 match link_type {
                     LinkType::Inline => {
-                        // The indentation of nested lines isn't part of the destination or title
-                        let text = split_lines(text)
-                            .enumerate()
-                            .map(|(i, l)| match i {
-                                0 => l,
-                                _ => self.trim_leading_indentation(l),
-                            })
-                            .join("\n");
-
                         if let Some((source_url, title_and_quote)) =
                             crate::links::find_inline_url_and_title(&text)
                         {
@@ -1526,26 +1524,13 @@ where
                         }
                     }
                     LinkType::Reference | LinkType::ReferenceUnknown => {
-                        // Only trim once the indentation of every line was removed
-                        let label = crate::links::find_reference_link_label(text);
-                        if count_newlines(label) > 0 {
-                            write!(self, "][")?;
-                            let label = split_lines(label)
-                                .map(|l| self.trim_leading_indentation(l))
-                                .join("\n");
-                            let label = label.trim();
-
-                            if label.starts_with('^') {
-                                write!(self, "\\")?;
-                            }
-
-                            self.write_str(label)?;
-                            write!(self, "]")?;
-                        } else if label.trim().starts_with('^') {
-                            write!(self, "][\\{}]", label.trim())?;
-                        } else {
-                            write!(self, "][{}]", label.trim())?;
+                        let label = crate::links::find_reference_link_label(&text).trim();
+                        write!(self, "][")?;
+                        if label.starts_with('^') {
+                            write!(self, "\\")?;
                         }
+                        self.write_str(label)?;
+                        write!(self, "]")?;
                     }
                     LinkType::Collapsed | LinkType::CollapsedUnknown => write!(self, "][]")?,
                     LinkType::Shortcut | LinkType::ShortcutUnknown => write!(self, "]")?,
-- 
2.43.0


From d6e7d60a49629d1d4dc6937eaae092dd8588695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 27/54] fix: code and links over several lines in a heading of
 a block quote got its >

---
 src/formatter.rs | 8 +++++++-
 src/header.rs    | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8ac21b3..9dec364 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -445,7 +445,13 @@ where
 
     fn trim_leading_indentation<'a>(&self, s: &'a str) -> &'a str {
         let mut output = s;
-        for indent in self.indentation.iter() {
+        // Headers hold on to the indentation until they're written
+        let header = self.writers.iter().rev().find_map(|writer| match writer {
+            MarkdownWriter::Header(header) => Some(header),
+            _ => None,
+        });
+        let indentation = header.map_or(self.indentation.as_slice(), |h| h.indentation());
+        for indent in indentation.iter() {
             if indent.starts_with('>') {
                 output = output.trim_start();
                 output = output
diff --git a/src/header.rs b/src/header.rs
index 4fa48e3..72de75f 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -114,6 +114,11 @@ impl<'i> Header<'i> {
         }
     }
 
+    /// The indentation of the lines of the header
+    pub(super) fn indentation(&self) -> &[Cow<'static, str>] {
+        &self.indentation
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
-- 
2.43.0


From 5aa35a96929032c2093e8b11a6476f3bbbb60941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 28/54] fix: a lone marker on the last line of inline code got
 a backslash

---
 src/formatter.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 9dec364..e316402 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -494,6 +494,16 @@ where
             let needs_escape = self.needs_escape(line, true);
 
             match needs_escape {
+                // The closing marker of inline code comes right after its last line
+                Some(_)
+                    if is_last
+                        && matches!(event, Event::Code(_))
+                        && self
+                            .needs_escape(&format!("{line}{trailing_spaces}`"), true)
+                            .is_none() =>
+                {
+                    write_context!(self, Escape, "{line}{trailing_spaces}")?;
+                }
                 Some(escape_kind) if escape_kind.multi_character_escape() => {
                     let marker = escape_kind.marker();
                     for c in line.chars() {
-- 
2.43.0


From b3b3f7283390e0df4acf7b50827fc146e8f08267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 29/54] fix: the first line of inline code that spans several
 lines got a backslash

---
 src/formatter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index e316402..89611f6 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -491,7 +491,12 @@ where
             let trailing_spaces = get_spaces(trailing_space_count);
 
             let line = line.trim_end();
-            let needs_escape = self.needs_escape(line, true);
+            let needs_escape = if i == 0 {
+                // The first line comes right after the opening marker of inline code
+                None
+            } else {
+                self.needs_escape(line, true)
+            };
 
             match needs_escape {
                 // The closing marker of inline code comes right after its last line
-- 
2.43.0


From 8b09dbb3a049e4d86e5d4fb5599b6e3b2f01ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 30/54] fix: keep tabs and no-break spaces at the ends of the
 lines of inline code

---
 src/formatter.rs |  9 +++------
 src/utils.rs     | 11 -----------
 2 files changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 89611f6..880809e 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -20,7 +20,7 @@ use crate::list::{LIST_START_CHARS, ListMarker};
 use crate::paragraph::Paragraph;
 use crate::table::TableState;
 use crate::utils::{
-    count_newlines, count_trailing_spaces, get_spaces, sequence_ends_on_escape, split_lines,
+    count_newlines, sequence_ends_on_escape, split_lines,
 };
 use crate::writer::{
     MarkdownContext, MarkdownWriter, WriteContext, write_context, writeln_context,
@@ -487,10 +487,7 @@ where
                 self.trim_leading_indentation(s)
             };
 
-            let trailing_space_count = count_trailing_spaces(line);
-            let trailing_spaces = get_spaces(trailing_space_count);
-
-            let line = line.trim_end();
+            let (line, trailing_spaces) = line.split_at(line.trim_end().len());
             let needs_escape = if i == 0 {
                 // The first line comes right after the opening marker of inline code
                 None
@@ -518,7 +515,7 @@ where
                             self.write_char(c)?;
                         }
                     }
-                    self.write_event_str(event, &trailing_spaces)?;
+                    self.write_event_str(event, trailing_spaces)?;
                 }
                 Some(_) => {
                     write_context!(self, Escape, "\\{line}{trailing_spaces}")?;
diff --git a/src/utils.rs b/src/utils.rs
index b8cce6a..5e080ba 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -4,17 +4,6 @@ use std::iter::Iterator;
 use unicode_width::UnicodeWidthStr;
 
 static SPACES: &str = "                                                                           ";
-const NON_BREAKING_SPACE: char = '\u{a0}';
-const SPACE: char = ' ';
-
-/// Count the number of trailing spaces at the end of input
-pub(crate) fn count_trailing_spaces(s: &str) -> usize {
-    s.chars()
-        .rev()
-        .take_while(|c| c.is_whitespace())
-        .filter(|c| matches!(*c, NON_BREAKING_SPACE | SPACE))
-        .count()
-}
 
 /// Get the number of trailing spaces that you need.
 pub(crate) fn get_spaces(n: usize) -> Cow<'static, str> {
-- 
2.43.0


From 47cca568a5574931aa0838f4b3145321abe34939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 31/54] fix: an indented line that looks like an ordered list
 became one

---
 src/escape.rs    | 13 +++++++++++++
 src/formatter.rs |  9 +++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/escape.rs b/src/escape.rs
index 7d404bf..d997e4e 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -144,6 +144,19 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
     }
 }
 
+/// Split text that would start an ordered list in the middle of a paragraph right before the `.`
+/// or `)` of its marker. Only lists that start with 1 can interrupt a paragraph.
+pub(crate) fn split_ordered_list_marker(input: &str) -> Option<(&str, &str)> {
+    let marker = input.trim_start_matches('0').strip_prefix('1')?;
+    let text = marker.strip_prefix(['.', ')'])?;
+
+    if text.starts_with([' ', '\t']) {
+        Some(input.split_at(input.len() - marker.len()))
+    } else {
+        None
+    }
+}
+
 /// Represents text that looks like another Markdown construct that the formatter should escape
 /// in order to preserve the meaning of the input after formatting.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
diff --git a/src/formatter.rs b/src/formatter.rs
index 880809e..d10012b 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -12,6 +12,7 @@ use pulldown_cmark::{LinkType, Parser, Tag};
 use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
+use crate::escape::split_ordered_list_marker;
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
@@ -676,6 +677,11 @@ where
                     }
 
                     let needs_escape = self.needs_escape(text, false);
+                    let ordered_list_marker = if self.last_was_line_break() {
+                        split_ordered_list_marker(text)
+                    } else {
+                        None
+                    };
 
                     let could_be_interpreted_as_html =
                         |t: &str, state: &mut FormatState<'i, 'm, I>| -> bool {
@@ -747,6 +753,9 @@ where
                             {
                                 // recover escape characters
                                 write_context!(self, Escape, "\\{text}")?;
+                            } else if let Some((number, rest)) = ordered_list_marker {
+                                // Once the indentation is removed this would start a list
+                                write_context!(self, Escape, "{number}\\{rest}")?;
                             } else {
                                 write_context!(self, &event, "{text}")?;
                             }
-- 
2.43.0


From e1268381affd866ce09551d569fb36cbc55716a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 32/54] fix: a line with only no-break spaces was taken for a
 blank line

---
 src/formatter.rs | 16 ++++++++++------
 src/utils.rs     | 10 ++++++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d10012b..43c5d4c 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -21,7 +21,7 @@ use crate::list::{LIST_START_CHARS, ListMarker};
 use crate::paragraph::Paragraph;
 use crate::table::TableState;
 use crate::utils::{
-    count_newlines, sequence_ends_on_escape, split_lines,
+    count_newlines, is_blank_line, is_blank_line_char, sequence_ends_on_escape, split_lines,
 };
 use crate::writer::{
     MarkdownContext, MarkdownWriter, WriteContext, write_context, writeln_context,
@@ -417,19 +417,23 @@ where
         buffer: &str,
         start_with_indentation: bool,
     ) -> std::fmt::Result {
-        let mut lines = buffer.trim_end().lines().peekable();
+        // Not all whitespace characters make a blank line. For example, a no-break space doesn't
+        let mut lines = buffer
+            .trim_end_matches(is_blank_line_char)
+            .lines()
+            .peekable();
         while let Some(line) = lines.next() {
             let is_last = lines.peek().is_none();
             let is_next_empty = lines
                 .peek()
-                .map(|l| l.trim().is_empty())
+                .map(|l| is_blank_line(l))
                 .unwrap_or_default();
 
             if start_with_indentation {
-                self.write_indentation(line.trim().is_empty())?;
+                self.write_indentation(is_blank_line(line))?;
             }
 
-            if !line.trim().is_empty() {
+            if !is_blank_line(line) {
                 self.write_str(line)?;
             }
 
@@ -601,7 +605,7 @@ where
     ) -> std::fmt::Result {
         let code = self.format_code_buffer(info_string, unformatted_code);
 
-        if code.trim().is_empty() && info_string.is_some() {
+        if is_blank_line(&code) && info_string.is_some() {
             // The code fence is empty, and a newline should already ahve been added
             // when pushing the opening code fence, so just return.
             return Ok(());
diff --git a/src/utils.rs b/src/utils.rs
index 5e080ba..fc074e0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -110,6 +110,16 @@ impl<'input> Iterator for SplitLines<'input> {
     }
 }
 
+/// Check if the character doesn't count as content. A line with only these characters is blank
+pub(crate) fn is_blank_line_char(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0b' | '\x0c')
+}
+
+/// Check if markdown parsers see the text as blank
+pub(crate) fn is_blank_line(s: &str) -> bool {
+    s.chars().all(is_blank_line_char)
+}
+
 pub(crate) fn split_lines(s: &str) -> impl Iterator<Item = &str> {
     SplitLines {
         input: s,
-- 
2.43.0


From 2642aaefe72aad01c80775359b092147959459f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 33/54] fix: a thematic break that interrupts a paragraph in a
 tight list got indented

---
 src/adapters/loose_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 26f1ef8..3b4e605 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -245,7 +245,8 @@ where
                     | TagEnd::Table
                     | TagEnd::HtmlBlock
                     | TagEnd::FootnoteDefinition,
-                ) => {
+                )
+                | Event::Rule => {
                     self.stashed_events
                         .push_back((current_event, current_range));
                     maybe_push_start_paragraph!(self, Self);
@@ -282,7 +283,8 @@ where
                                 | Tag::Table(_)
                                 | Tag::HtmlBlock
                                 | Tag::FootnoteDefinition(_),
-                            ),
+                            )
+                            | Event::Rule,
                             _,
                         )) => {
                             if let Some(Some(index)) =
-- 
2.43.0


From fc5603897288c6476129414de6720a542398802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 34/54] fix: brackets in the text of a link were taken for the
 end of its text

---
 src/formatter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 43c5d4c..79fd163 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1530,14 +1530,20 @@ where
                     }
                 };
                 self.write_str(&link_writer.into_buffer())?;
+                // The text of the link might also contain brackets, so only look at what comes after it
+                let text_end = self.last_position.max(range.start);
+                let text_end = self.input[text_end..range.end]
+                    .find(']')
+                    .map_or(range.start, |offset| text_end + offset);
                 // The indentation of nested lines isn't part of the destination, title or label
-                let text = split_lines(&self.input[range.clone()])
+                let text = split_lines(&self.input[text_end..range.end])
                     .enumerate()
                     .map(|(i, l)| match i {
                         0 => l,
                         _ => self.trim_leading_indentation(l),
                     })
                     .join("\n");
+                let text = format!("[{text}");
 
                 match link_type {
                     LinkType::Inline => {
-- 
2.43.0


From 874ea13b4ee31ba2b941ff9767d175281cc03ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 35/54] fix: text that looks like a table with column
 alignments became one

---
 src/paragraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index f45d013..8791455 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -255,7 +255,7 @@ fn could_be_table(text: &str) -> bool {
     static TABLE_ALIGNMENT_ROW_REGEX: OnceLock<Regex> = OnceLock::new();
     TABLE_ALIGNMENT_ROW_REGEX
         .get_or_init(|| {
-            Regex::new(r"^((\|(\s?-+\s?)+)+\|?)+|((\s?-+\s?)+\|)+((\s?-+\s?))?$")
+            Regex::new(r"^((\|(\s*:?-+:?\s*)+)+\|?)+|((\s*:?-+:?\s*)+\|)+((\s*:?-+:?\s*))?$")
                 .expect("valid regex")
         })
         .is_match_at(text, 0)
-- 
2.43.0


From 0582776f01ee3128ab61e1da5f185d540d30fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 36/54] fix: a backslash before trailing whitespace became a
 hard break; a no-break space was taken for indentation

---
 src/formatter.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 79fd163..d1fe3d6 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -465,7 +465,7 @@ where
                     .unwrap_or(output);
             } else {
                 for _ in 0..indent.len() {
-                    output = output.strip_prefix(char::is_whitespace).unwrap_or(output);
+                    output = output.strip_prefix([' ', '\t']).unwrap_or(output);
                 }
             }
         }
@@ -714,26 +714,14 @@ where
                             last_was_lt && t.starts_with('!')
                         };
 
-                    // Prevent the next pass from interpreting this as a hard break
-                    let should_escape_an_escape =
-                        |t: &str, state: &mut FormatState<'i, 'm, I>, r: Range<usize>| -> bool {
-                            let not_empty_paragraph =
-                                !state.in_paragraph() && !state.is_current_buffer_empty();
-                            if not_empty_paragraph || !t.chars().all(|c| c == '\\') {
-                                return false;
-                            }
-
-                            // If the next is a soft break then we want to escape this `\\`
-                            let Some(Event::SoftBreak) = state.peek() else {
-                                return false;
-                            };
-
-                            let Some(last_line) = &self.input[..r.end].lines().last() else {
-                                return false;
-                            };
-
-                            sequence_ends_on_escape(last_line)
-                        };
+                    // A backslash that's followed by trailing whitespace isn't a hard break, but it
+                    // would be without the whitespace.
+                    let ends_with_backslash = text.ends_with('\\')
+                        && matches!(self.peek(), Some(Event::SoftBreak))
+                        && self.input[..range.end]
+                            .lines()
+                            .last()
+                            .is_some_and(sequence_ends_on_escape);
 
                     match needs_escape {
                         Some(escape_kind)
@@ -752,7 +740,6 @@ where
                             if starts_with_escape
                                 || needs_escape.is_some()
                                 || could_be_interpreted_as_html(text, &mut self)
-                                || should_escape_an_escape(text, &mut self, range)
                                 || (self.in_table() && text.starts_with('|'))
                             {
                                 // recover escape characters
@@ -765,6 +752,10 @@ where
                             }
                         }
                     }
+
+                    if ends_with_backslash {
+                        self.write_char('\\')?;
+                    }
                     self.check_needs_indent(&event);
                 }
                 Event::Code(_) => {
-- 
2.43.0


From 8e63cd2b5c2def01da1b99abaa9e41d1f7731be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 37/54] fix: a no-break space at the start of a line was taken
 for the indentation of a block quote

---
 src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d1fe3d6..e4c8f91 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -458,10 +458,10 @@ where
         let indentation = header.map_or(self.indentation.as_slice(), |h| h.indentation());
         for indent in indentation.iter() {
             if indent.starts_with('>') {
-                output = output.trim_start();
+                output = output.trim_start_matches([' ', '\t']);
                 output = output
                     .strip_prefix('>')
-                    .map(|o| o.strip_prefix(char::is_whitespace).unwrap_or(o))
+                    .map(|o| o.strip_prefix([' ', '\t']).unwrap_or(o))
                     .unwrap_or(output);
             } else {
                 for _ in 0..indent.len() {
-- 
2.43.0


From 0ec4f4add6a55fd0ca1d6bdf6c337cb6656043c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 38/54] fix: a line with only no-break spaces ended an HTML
 block

---
 src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index e4c8f91..555197e 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -795,7 +795,7 @@ where
                     if self.needs_indent {
                         self.write_newlines(newlines)?;
                     }
-                    let snippet = &self.input[range].trim_end();
+                    let snippet = &self.input[range].trim_end_matches(is_blank_line_char);
                     self.write_event_str(&event, snippet)?;
                     self.check_needs_indent(&event);
                 }
-- 
2.43.0


From 76172d58df79bef2735c929d449052fc4ccba7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 39/54] fix: text that ends like a row of dashes in a table got
 a backslash

---
 src/paragraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 8791455..5250fec 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -255,7 +255,7 @@ fn could_be_table(text: &str) -> bool {
     static TABLE_ALIGNMENT_ROW_REGEX: OnceLock<Regex> = OnceLock::new();
     TABLE_ALIGNMENT_ROW_REGEX
         .get_or_init(|| {
-            Regex::new(r"^((\|(\s*:?-+:?\s*)+)+\|?)+|((\s*:?-+:?\s*)+\|)+((\s*:?-+:?\s*))?$")
+            Regex::new(r"^(((\|(\s*:?-+:?\s*)+)+\|?)+|((\s*:?-+:?\s*)+\|)+((\s*:?-+:?\s*))?)$")
                 .expect("valid regex")
         })
         .is_match_at(text, 0)
-- 
2.43.0


From ed03261c24ee71edf2a3bcacf13444c5138ec1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 40/54] fix: links and code over several lines in a footnote of
 a block quote got its >

---
 src/footnote.rs  |  5 +++++
 src/formatter.rs | 12 ++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/footnote.rs b/src/footnote.rs
index 95eb986..d787114 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -25,6 +25,11 @@ impl FootnoteDefinition {
         }
     }
 
+    /// The indentation of the lines of the footnote definition
+    pub(super) fn indentation(&self) -> &[Cow<'static, str>] {
+        &self.indentation
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
diff --git a/src/formatter.rs b/src/formatter.rs
index 555197e..7cde432 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -450,13 +450,13 @@ where
 
     fn trim_leading_indentation<'a>(&self, s: &'a str) -> &'a str {
         let mut output = s;
-        // Headers hold on to the indentation until they're written
-        let header = self.writers.iter().rev().find_map(|writer| match writer {
-            MarkdownWriter::Header(header) => Some(header),
-            _ => None,
+        // Headers and footnote definitions hold on to the indentation until they're written
+        let held_indentation = self.writers.iter().flat_map(|writer| match writer {
+            MarkdownWriter::Header(header) => header.indentation(),
+            MarkdownWriter::FootnoteDefinition(footnote) => footnote.indentation(),
+            _ => &[],
         });
-        let indentation = header.map_or(self.indentation.as_slice(), |h| h.indentation());
-        for indent in indentation.iter() {
+        for indent in held_indentation.chain(self.indentation.iter()) {
             if indent.starts_with('>') {
                 output = output.trim_start_matches([' ', '\t']);
                 output = output
-- 
2.43.0


From 227d799d39ff4ddc7340d256b146aee599c9978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 41/54] fix: a line with a single tag was lost at the end of an
 HTML block in a list

---
 src/adapters/loose_list.rs | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 3b4e605..c7643fd 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -135,20 +135,11 @@ where
                 | Tag::Strong
                 | Tag::Strikethrough,
             ) => true,
-            Event::Html(text) => is_single_html_tag(text),
             _ => false,
         }
     }
 }
 
-/// Check if the HTML content is a single tag. For example, `<{tag}>` or `</{tag}>`.
-fn is_single_html_tag(html: &str) -> bool {
-    // A hacky way to figure out if this is an inline html tag, but I think it works!
-    html.starts_with('<')
-        && html.ends_with('>')
-        && html.bytes().filter(|b| matches!(b, b'<' | b'>')).count() == 2
-}
-
 macro_rules! push_end_paragraph {
     ($index:expr, $stashed_events:expr, $end:expr) => {
         if let Some((paragraph, paragraph_range)) = $stashed_events.get_mut($index) {
@@ -251,11 +242,6 @@ where
                         .push_back((current_event, current_range));
                     maybe_push_start_paragraph!(self, Self);
                 }
-                Event::Html(ref text) if !is_single_html_tag(text) => {
-                    self.stashed_events
-                        .push_back((current_event, current_range));
-                    maybe_push_start_paragraph!(self, Self);
-                }
                 _ => {
                     self.stashed_events
                         .push_back((current_event, current_range.clone()));
@@ -293,13 +279,6 @@ where
                                 push_end_paragraph!(index, self.stashed_events, current_range.end)
                             }
                         }
-                        Some((Event::Html(ref html), _)) if !is_single_html_tag(html) => {
-                            if let Some(Some(index)) =
-                                self.loose_list_stack.last_mut().map(|i| i.take())
-                            {
-                                push_end_paragraph!(index, self.stashed_events, current_range.end)
-                            }
-                        }
                         _ => {}
                     }
                 }
-- 
2.43.0


From 7b485c3aee55050aa732b601efff785406eda377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 42/54] fix: a blank line inside an HTML block in a list became
 two

---
 src/formatter.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 7cde432..abfdf9f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -791,12 +791,17 @@ where
                     self.write_event_str(&event, &hard_break)?;
                 }
                 Event::Html(_) => {
-                    let newlines = self.count_newlines(&range);
-                    if self.needs_indent {
-                        self.write_newlines(newlines)?;
+                    let snippet = self.input[range.clone()].trim_end_matches(is_blank_line_char);
+                    if snippet.is_empty() {
+                        // Blank lines get written along with the next line that isn't blank
+                        last_position = self.last_position;
+                    } else {
+                        let newlines = self.count_newlines(&range);
+                        if self.needs_indent {
+                            self.write_newlines(newlines)?;
+                        }
+                        self.write_event_str(&event, snippet)?;
                     }
-                    let snippet = &self.input[range].trim_end_matches(is_blank_line_char);
-                    self.write_event_str(&event, snippet)?;
                     self.check_needs_indent(&event);
                 }
                 Event::Rule => {
-- 
2.43.0


From 55986dcd8dc153c9682282e3b9021aca1b7bd21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 43/54] fix: the second comment between a list and indented
 code wasn't indented

---
 src/formatter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index abfdf9f..ca3d8ac 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1432,6 +1432,7 @@ where
                 if let Some(Event::Start(Tag::CodeBlock(CodeBlockKind::Indented))) = self.peek() {
                     self.write_newlines(1)?;
                     writeln!(self, "<!-- Don't absorb code block into list -->")?;
+                    self.write_indentation(false)?;
                     write!(self, "<!-- Consider a fenced code block instead -->")?;
                 };
             }
-- 
2.43.0


From 606618238da376fe6b0e56d22ffc9cd74b2e59db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:02 +0000
Subject: [PATCH 44/54] fix: panicked on a list after a tab in a block quote of
 a list

---
 src/formatter.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index ca3d8ac..450d7dc 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -73,8 +73,17 @@ impl MarkdownFormatter {
         let options = pulldown_cmark_options!();
 
         let parser = Parser::new_with_broken_link_callback(input, options, Some(&mut callback));
+        // Tabs may lead the parser to start an event before the start of the block that it's in
+        let mut start = 0;
         let iter = parser
             .into_offset_iter()
+            .map(|(event, range)| match event {
+                Event::End(_) => (event, range),
+                _ => {
+                    start = range.start.max(start);
+                    (event, start..range.end.max(start))
+                }
+            })
             .all_loose_lists()
             .list_end_at_last_item();
 
-- 
2.43.0


From ee2e7482249569afdbbf9392a8669ad307bb1210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 45/54] fix: the first line of a nested list item was emptied
 when a tab came before its marker

---
 src/formatter.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 450d7dc..a1d1e95 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1108,6 +1108,9 @@ where
                 // up extra newlines in case we need to recover any refernce link definitions
                 self.last_position = range.start;
 
+                let list_marker = ListMarker::from_str(&self.input[range.clone()])
+                    .expect("Should be able to parse a list marker");
+
                 let is_empty_list = |snippet: &str| -> bool {
                     // It's an empty list if there are newlines between the list marker
                     // and the next event. For example,
@@ -1116,12 +1119,17 @@ where
                     // -
                     //   foo
                     // ```
+                    //
+                    // Newlines before the list marker don't count. The parser sometimes gets the
+                    // range wrong if there's a tab before it. Lists that start with a dash
+                    // are separated from the paragraph before them in that case.
+                    let snippet = match list_marker.marker_char() {
+                        '-' => snippet,
+                        _ => snippet.trim_start(),
+                    };
                     count_newlines(snippet) > 0
                 };
 
-                let list_marker = ListMarker::from_str(&self.input[range.clone()])
-                    .expect("Should be able to parse a list marker");
-
                 // FIXME(ytmimi) luckily recovering link-reference-definitions isn't overly
                 // complicated for list items, but the implementations are very similar, so
                 // hopefully there's some simple refactoring that can be done later.
-- 
2.43.0


From 96468bcb0c79cb82da82c6da4be10962bef3cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 46/54] fix: the items of a nested list were joined when a tab
 came before their markers

---
 src/formatter.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index a1d1e95..55e9c2d 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1099,6 +1099,20 @@ where
                 self.nested_context.push(tag);
             }
             Tag::Item => {
+                let list_marker = ListMarker::from_str(&self.input[range.clone()])
+                    .expect("Should be able to parse a list marker");
+
+                // The parser sometimes starts an item before the newline that comes before it if
+                // there's a tab (\t) character before its marker. A list that starts with a dash
+                // has been separated from the paragraph before it in that case.
+                let is_first_item = matches!(self.last_event, Some((Event::Start(Tag::List(_)), _)));
+                let range = if is_first_item && list_marker.marker_char() == '-' {
+                    range
+                } else {
+                    let snippet = &self.input[range.clone()];
+                    range.start + (snippet.len() - snippet.trim_start().len())..range.end
+                };
+
                 let newlines = self.count_newlines(&range);
                 if self.needs_indent && newlines > 0 {
                     self.write_newlines(newlines)?;
@@ -1108,9 +1122,6 @@ where
                 // up extra newlines in case we need to recover any refernce link definitions
                 self.last_position = range.start;
 
-                let list_marker = ListMarker::from_str(&self.input[range.clone()])
-                    .expect("Should be able to parse a list marker");
-
                 let is_empty_list = |snippet: &str| -> bool {
                     // It's an empty list if there are newlines between the list marker
                     // and the next event. For example,
@@ -1119,14 +1130,6 @@ where
                     // -
                     //   foo
                     // ```
-                    //
-                    // Newlines before the list marker don't count. The parser sometimes gets the
-                    // range wrong if there's a tab before it. Lists that start with a dash
-                    // are separated from the paragraph before them in that case.
-                    let snippet = match list_marker.marker_char() {
-                        '-' => snippet,
-                        _ => snippet.trim_start(),
-                    };
                     count_newlines(snippet) > 0
                 };
 
-- 
2.43.0


From 6bd5ab0d392651be48aadbe940ec913b0bd4aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 47/54] fix: an HTML block after a list was moved into its last
 item

---
 src/formatter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 55e9c2d..3eead9c 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1301,6 +1301,12 @@ where
                     self.write_newlines(newlines)?;
                 }
 
+                if matches!(self.last_event, Some((Event::End(TagEnd::List(_)), _))) {
+                    // The indentation could turn the HTML block into a part of the last item
+                    self.events
+                        .next_if(|(event, range)| matches!(event, Event::Text(_)) && range.is_empty());
+                }
+
                 self.nested_context.push(tag);
                 self.last_position = range.start;
             }
-- 
2.43.0


From ac4ff966cff606f6f651659dce6a73f5030f48b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 48/54] fix: a destination with more nested parens than the
 parser supports lost its angle brackets

---
 src/links.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index ea410a1..93dc470 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -114,34 +114,44 @@ pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str>
     }
 }
 
+/// The parser doesn't support more nested parens outside of `<` and `>`
+const MAX_NESTED_PARENS: usize = 33;
+
 /// Check if the parens are balanced
 fn balanced_parens(url: &str) -> bool {
-    is_balanced(url, '(', ')')
+    max_nesting(url, '(', ')').is_some_and(|nesting| nesting <= MAX_NESTED_PARENS)
 }
 
 pub(crate) fn is_balanced(s: &str, opener: char, closer: char) -> bool {
+    max_nesting(s, opener, closer).is_some()
+}
+
+/// How deeply the pairs are nested if they are balanced
+fn max_nesting(s: &str, opener: char, closer: char) -> Option<usize> {
+    let mut max = 0;
     let mut stack = vec![];
     let mut was_last_escape = false;
 
     for c in s.chars() {
         if !was_last_escape && c == opener {
             stack.push(c);
+            max = max.max(stack.len());
             continue;
         }
 
         if !was_last_escape && c == closer {
             if let Some(top) = stack.last() {
                 if *top != opener {
-                    return false;
+                    return None;
                 }
                 stack.pop();
             } else {
-                return false;
+                return None;
             }
         }
         was_last_escape = is_char_esacped(c, was_last_escape);
     }
-    stack.is_empty()
+    stack.is_empty().then_some(max)
 }
 
 /// Search for enclosing balanced brackets
-- 
2.43.0


From de605f4d923110ce6199bf48af177e9df7825b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 49/54] fix: a destination that ends with a backslash escaped
 the closing paren of its link

---
 src/links.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/links.rs b/src/links.rs
index 93dc470..62f56a8 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -105,6 +105,9 @@ where
 pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str> {
     if wrap_empty_urls && url.is_empty() {
         Cow::from("<>")
+    } else if sequence_ends_on_escape(url) {
+        // Escape the backslash, otherwise it would escape what comes after the destination
+        Cow::from(format!("{url}\\"))
     } else if url.contains(|c: char| c == ' ' || c.is_ascii_control()) || !balanced_parens(url) {
         // Spaces, control characters, and unbalanced parens are only allowed between `<` and `>`
         // https://spec.commonmark.org/0.30/#link-destination
-- 
2.43.0


From b33fcaa5d4d76adad68b011366b23789488c362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:34 +0000
Subject: [PATCH 50/54] fix: a quote or paren in a destination with a
 non-breaking space was read as its title

---
 src/links.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 62f56a8..fca1e25 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -224,14 +224,18 @@ pub(super) fn find_inline_url_and_title(input: &str) -> Option<(String, Option<(
 }
 
 // The link must have a title if we're calling this
-fn link_title_start(link: &[u8]) -> usize {
+fn link_title_start(input: &str) -> usize {
+    let link = input.as_bytes();
     let last = *link.last().expect("links titles must have quotes");
     let opener = if last == b')' { b'(' } else { last };
 
     // offset by 2 to skip triling quote
     let mut index = link.len().saturating_sub(2);
     while index.saturating_sub(1) != 0 {
-        if link[index] == opener && link[index - 1] != b'\\' {
+        // The quote or paren might also be part of the destination. A title comes after whitespace,
+        // or after a destination in angle brackets
+        let is_title_start = |c: char| c.is_whitespace() || c == '>';
+        if link[index] == opener && input[..index].ends_with(is_title_start) {
             return index;
         }
         index -= 1;
@@ -263,8 +267,8 @@ fn split_inline_url_from_title(
     // and up to one line ending.
     let has_space = input.contains(char::is_whitespace);
     let only_link = !has_space && has_title;
-    let link_start = link_title_start(input.as_bytes());
-    if only_link || !has_title || link_start == 0 {
+    let link_start = if has_title { link_title_start(input) } else { 0 };
+    if only_link || link_start == 0 {
         return Some((trim_angle_brackes(input).to_string(), None));
     }
 
-- 
2.43.0


From e1b217dcc1e096eb27945dca14ed571dc3e5ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 51/54] fix: indented rules and paragraphs became metadata
 blocks, and nested metadata blocks lost the indentation of their lines

---
 src/formatter.rs | 56 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 3eead9c..b325159 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -224,6 +224,34 @@ where
             .is_some_and(|(e, _)| matches!(e, Event::SoftBreak | Event::HardBreak))
     }
 
+    /// Check if the last event was the start of a paragraph
+    fn last_was_paragraph_start(&self) -> bool {
+        self.last_event
+            .as_ref()
+            .is_some_and(|(e, _)| matches!(e, Event::Start(Tag::Paragraph)))
+    }
+
+    /// Check if a line would start a metadata block once the indentation is removed from it and
+    /// from the lines that follow it.
+    fn would_start_metadata_block(
+        &self,
+        range: &Range<usize>,
+        marker: &str,
+        end_markers: &[&str],
+    ) -> bool {
+        if self.input[range.clone()].trim_end() != marker {
+            return false;
+        }
+        // The first line can't be blank or the end of the metadata block
+        let mut lines = split_lines(&self.input[range.start..])
+            .skip(1)
+            .map(|line| line.trim());
+        lines
+            .next()
+            .is_some_and(|line| !line.is_empty() && !end_markers.contains(&line))
+            && lines.any(|line| end_markers.contains(&line))
+    }
+
     /// check if we're in a blockquote
     pub(crate) fn in_blockquote(&self) -> bool {
         self.nested_context
@@ -244,6 +272,10 @@ where
         matches!(self.nested_context.last(), Some(Tag::HtmlBlock))
     }
 
+    fn in_metadata_block(&self) -> bool {
+        matches!(self.nested_context.last(), Some(Tag::MetadataBlock(_)))
+    }
+
     /// Check if we're in a "paragraph". A `Paragraph` might not necessarily be on the
     /// nested_context stack.
     fn in_paragraph(&self) -> bool {
@@ -689,6 +721,10 @@ where
                         self.needs_indent = false;
                     }
 
+                    if self.in_metadata_block() && self.rewrite_buffer.ends_with('\n') {
+                        self.write_indentation(text.trim().is_empty())?;
+                    }
+
                     let needs_escape = self.needs_escape(text, false);
                     let ordered_list_marker = if self.last_was_line_break() {
                         split_ordered_list_marker(text)
@@ -749,6 +785,8 @@ where
                             if starts_with_escape
                                 || needs_escape.is_some()
                                 || could_be_interpreted_as_html(text, &mut self)
+                                || (self.last_was_paragraph_start()
+                                    && self.would_start_metadata_block(&range, "+++", &["+++"]))
                                 || (self.in_table() && text.starts_with('|'))
                             {
                                 // recover escape characters
@@ -818,7 +856,12 @@ where
                     self.rewrite_reference_link_definitions(&reference_definition_range)?;
                     let newlines = self.count_newlines(&range);
                     self.write_newlines(newlines)?;
-                    self.write_event_str(&event, self.input[range].trim_end())?;
+                    if self.would_start_metadata_block(&range, "---", &["---", "..."]) {
+                        // Only exactly three hyphens start a metadata block
+                        self.write_event_str(&event, "----")?;
+                    } else {
+                        self.write_event_str(&event, self.input[range].trim_end())?;
+                    }
                     self.check_needs_indent(&event)
                 }
                 Event::FootnoteReference(ref text) => {
@@ -1315,6 +1358,7 @@ where
                 self.write_newlines(newlines)?;
                 rewrite_marker(self.input, &range, self)?;
                 self.needs_indent = true;
+                self.nested_context.push(tag);
             }
             Tag::DefinitionList | Tag::DefinitionListTitle | Tag::DefinitionListDefinition => {
                 unreachable!("pulldown_cmark::Options::ENABLE_DEFINITION_LIST is not configured")
@@ -1628,7 +1672,15 @@ where
                 debug_assert_eq!(popped_tag.as_ref().map(|t| t.to_end()), Some(tag));
             }
             TagEnd::MetadataBlock(_meta) => {
-                rewrite_marker(self.input, &range, self)?;
+                let popped_tag = self.nested_context.pop();
+                debug_assert_eq!(popped_tag.as_ref().map(|t| t.to_end()), Some(tag));
+
+                if self.indentation.is_empty() {
+                    rewrite_marker(self.input, &range, self)?;
+                } else if self.rewrite_buffer.ends_with('\n') {
+                    // Nested metadata blocks aren't closed, they end with what they're nested in
+                    self.rewrite_buffer.pop();
+                }
                 self.needs_indent = true;
             }
             TagEnd::DefinitionList
-- 
2.43.0


From 4d1af5b0fdb91ab3ce23696a5b12e6d48cab45b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 52/54] fix: lines of nested HTML blocks that are indented with
 tabs were joined with the line before them

---
 src/formatter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index b325159..13d7830 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -212,7 +212,10 @@ where
         self.needs_indent = match self.peek() {
             Some(Event::Start(_) | Event::Rule | Event::Html(_) | Event::End(TagEnd::Item)) => true,
             Some(Event::End(TagEnd::BlockQuote(..))) => matches!(event, Event::End(_)),
-            Some(Event::Text(_)) => matches!(event, Event::End(_) | Event::Start(Tag::Item)),
+            Some(Event::Text(_)) => matches!(
+                event,
+                Event::End(_) | Event::Start(Tag::Item) | Event::Html(_)
+            ),
             _ => matches!(event, Event::Rule),
         };
     }
-- 
2.43.0


From 0cb56795557bca3c7585c016107addb517761c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 53/54] fix: lines of inline code and inline HTML got a
 backslash, or became blocks, when they look like a block

---
 src/escape.rs    | 13 ++++++++
 src/formatter.rs | 84 +++++++++++++++++++++++++-----------------------
 src/paragraph.rs |  8 +++++
 3 files changed, 65 insertions(+), 40 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index d997e4e..508c960 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -1,4 +1,5 @@
 use super::formatter::FormatState;
+use crate::html::starts_with_html_block_identifier;
 use crate::list::UnorderedListMarker;
 use pulldown_cmark::Event;
 
@@ -144,6 +145,18 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
     }
 }
 
+/// Check if a line of inline code or inline HTML would interrupt a paragraph when it's not indented.
+pub(crate) fn could_start_block(line: &str) -> bool {
+    let could_be_html = line.strip_prefix('<').is_some_and(|html| {
+        let name = html.split(['>', ' ', '\t']).next().unwrap_or(html);
+        starts_with_html_block_identifier(name.trim_end_matches('/'))
+    });
+
+    could_be_html
+        || needs_escape(line).is_some()
+        || split_ordered_list_marker(line).is_some()
+}
+
 /// Split text that would start an ordered list in the middle of a paragraph right before the `.`
 /// or `)` of its marker. Only lists that start with 1 can interrupt a paragraph.
 pub(crate) fn split_ordered_list_marker(input: &str) -> Option<(&str, &str)> {
diff --git a/src/formatter.rs b/src/formatter.rs
index 13d7830..5a41907 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -12,7 +12,7 @@ use pulldown_cmark::{LinkType, Parser, Tag};
 use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
-use crate::escape::split_ordered_list_marker;
+use crate::escape::{could_start_block, split_ordered_list_marker};
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
@@ -255,6 +255,27 @@ where
             && lines.any(|line| end_markers.contains(&line))
     }
 
+    /// Check if inline code or inline HTML comes next, which would start a block on its own line.
+    fn next_inline_could_start_block(&mut self) -> bool {
+        let input = self.input;
+        if matches!(&self.last_event, Some((Event::Text(t), _)) if t.ends_with(['.', ')'])
+            && split_ordered_list_marker(&format!("{t} ")).is_some())
+        {
+            // Together they would start a list
+            return false;
+        }
+        match self.peek_with_range() {
+            Some((Event::Code(_) | Event::InlineHtml(_), range)) => {
+                let before = &input[..range.start];
+                let indentation = &before[before.trim_end_matches([' ', '\t']).len()..];
+                let is_indented = indentation.len() >= 4 || indentation.contains('\t');
+                let line = split_lines(&input[range.clone()]).next();
+                is_indented && line.is_some_and(could_start_block)
+            }
+            _ => false,
+        }
+    }
+
     /// check if we're in a blockquote
     pub(crate) fn in_blockquote(&self) -> bool {
         self.nested_context
@@ -524,8 +545,6 @@ where
         let mut iter = split_lines(snippet).enumerate().peekable();
 
         while let Some((i, s)) = iter.next() {
-            let is_last = iter.peek().is_none();
-
             // We want to trim leading indentation characters like `>`
             // and any non-space whitespace characters.
             let line = if i == 0 {
@@ -536,47 +555,28 @@ where
                 self.trim_leading_indentation(s)
             };
 
-            let (line, trailing_spaces) = line.split_at(line.trim_end().len());
-            let needs_escape = if i == 0 {
-                // The first line comes right after the opening marker of inline code
-                None
-            } else {
-                self.needs_escape(line, true)
-            };
-
-            match needs_escape {
+            if i != 0 {
                 // The closing marker of inline code comes right after its last line
-                Some(_)
-                    if is_last
-                        && matches!(event, Event::Code(_))
-                        && self
-                            .needs_escape(&format!("{line}{trailing_spaces}`"), true)
-                            .is_none() =>
-                {
-                    write_context!(self, Escape, "{line}{trailing_spaces}")?;
-                }
-                Some(escape_kind) if escape_kind.multi_character_escape() => {
-                    let marker = escape_kind.marker();
-                    for c in line.chars() {
-                        if marker == c {
-                            write_context!(self, Escape, "\\{c}")?;
-                        } else {
-                            self.write_char(c)?;
-                        }
-                    }
-                    self.write_event_str(event, trailing_spaces)?;
-                }
-                Some(_) => {
-                    write_context!(self, Escape, "\\{line}{trailing_spaces}")?;
-                }
-                None => {
-                    write_context!(self, event, "{line}{trailing_spaces}")?;
+                let closing = match event {
+                    Event::Code(_) if iter.peek().is_none() => "`",
+                    _ => "",
+                };
+                // There aren't any escapes in inline code and inline HTML, but line breaks are the
+                // same as spaces
+                let line_could_start_block = could_start_block(format!("{line}{closing}").trim_end())
+                    // The next line might be joined with this one
+                    || iter.peek().is_some() && could_start_block(&format!("{line} -"));
+                if line_could_start_block {
+                    write_context!(self, event, " ")?;
+                } else {
+                    writeln_context!(self, event)?;
                 }
             }
+            write_context!(self, event, "{line}")?;
+        }
 
-            if !is_last || ends_with_newline {
-                writeln_context!(self, event)?;
-            }
+        if ends_with_newline {
+            writeln_context!(self, event)?;
         }
         Ok(())
     }
@@ -824,6 +824,10 @@ where
                     let snippet = &self.input[range.clone()];
                     self.rewrite_multiline_event(&event, snippet)?;
                 }
+                Event::SoftBreak if self.next_inline_could_start_block() => {
+                    last_position = range.end;
+                    write_context!(self, &event, " ")?;
+                }
                 Event::SoftBreak => {
                     last_position = range.end;
 
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 5250fec..788c03c 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -102,6 +102,14 @@ impl WriteContext<'_> for Paragraph {
             self.buffer.push('\\');
         }
 
+        if matches!(
+            ctx,
+            MarkdownContext::Event(Event::Code(_) | Event::InlineHtml(_))
+        ) {
+            // A backslash would be a part of the code. Lines that could start a block are joined
+            return self.write_str(s);
+        }
+
         let needs_escape = needs_escape(s).is_some();
 
         // Prevent the next pass from ignoring the hard break or misinterpreting `s`
-- 
2.43.0


From e434005833381db140eea452e0e29a365e47741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 54/54] fix: one delimiter of an unmatched run at the start of
 a line got escaped, which changed the others

---
 src/formatter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 5a41907..01c77b1 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -12,7 +12,7 @@ use pulldown_cmark::{LinkType, Parser, Tag};
 use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
-use crate::escape::{could_start_block, split_ordered_list_marker};
+use crate::escape::{self, could_start_block, split_ordered_list_marker};
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
@@ -797,6 +797,13 @@ where
                             } else if let Some((number, rest)) = ordered_list_marker {
                                 // Once the indentation is removed this would start a list
                                 write_context!(self, Escape, "{number}\\{rest}")?;
+                            } else if text.chars().all(|c| matches!(c, '*' | '_'))
+                                && split_lines(&self.input[range.start..])
+                                    .next()
+                                    .is_some_and(|line| escape::needs_escape(line).is_none())
+                            {
+                                // A part of a delimiter run, not the start of a list
+                                self.write_str(text)?;
                             } else {
                                 write_context!(self, &event, "{text}")?;
                             }
-- 
2.43.0


From 24cca837510640d069ed200626c6e65ed691aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 01/15] fix: report an invalid --line-width instead of
 panicking

---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1d59371..6dcb7d3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,12 +53,17 @@ fn main() -> ExitCode {
     // Load configuration
     let (config, config_dir) = load_config(&args);
 
+    let line_width = match args.line_width.map(LineWidth::new).transpose() {
+        Ok(width) => width.unwrap_or(config.line_width),
+        Err(e) => {
+            eprintln!("Error: {}", e);
+            return ExitCode::FAILURE;
+        }
+    };
+
     // Build options, with CLI args overriding config file
     let options = Options {
-        line_width: args
-            .line_width
-            .map(|w| LineWidth::new(w).expect("Invalid line width"))
-            .unwrap_or(config.line_width),
+        line_width,
         setext_h1: config.heading.setext_h1,
         setext_h2: config.heading.setext_h2,
         heading_sentence_case: config.heading.sentence_case,
-- 
2.43.0


From 3dc7a87f0b94d2f643d9efbab62e6ab55fb80621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 02/15] fix: honour --check for standard input

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6dcb7d3..12f0fe4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -167,7 +167,12 @@ fn main() -> ExitCode {
                 for warning in &result.warnings {
                     eprintln!("<stdin>:{}: warning: {}", warning.line, warning.message);
                 }
-                if args.diff {
+                if args.check {
+                    if input != result.output {
+                        eprintln!("<stdin>: not formatted");
+                        return ExitCode::FAILURE;
+                    }
+                } else if args.diff {
                     print_diff("<stdin>", &input, &result.output);
                 } else {
                     print!("{}", result.output);
-- 
2.43.0


From 7f40d1f31622cb2dc6c8d3272c56e73ab964a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 03/15] fix: use include patterns of a config file given as a
 bare name

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 12f0fe4..94d0de9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -408,8 +408,10 @@ fn load_config(args: &Args) -> (Config, PathBuf) {
     if let Some(config_path) = &args.config {
         match Config::from_file(config_path) {
             Ok(config) => {
+                // The parent of a bare file name is the empty path
                 let config_dir = config_path
                     .parent()
+                    .filter(|p| !p.as_os_str().is_empty())
                     .map(|p| p.to_path_buf())
                     .unwrap_or_else(|| cwd.clone());
                 return (config, config_dir);
-- 
2.43.0


From 74f8b0b54fe546024b13fa1e729ce1f8d795278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 04/15] fix: reject thematic break styles that mix markers

A style such as "***-" was accepted because only markers used at least
three times were counted, but it does not render as a thematic break.
---
 src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index d060f9b..3e26da4 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -731,7 +731,8 @@ impl ThematicBreakStyle {
             ));
         }
 
-        if valid_markers.len() > 1 {
+        let used_markers = marker_counts.iter().filter(|(count, _)| *count > 0).count();
+        if used_markers > 1 {
             return Err(format!(
                 "thematic_break style must use only one type of marker (*, -, or _), got {:?}.",
                 style
-- 
2.43.0


From ffa4a7435e346bcf25348cb8234d5617b3e916a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 05/15] fix: do not underflow when a footnote's label exceeds
 the line width

---
 src/serializer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 52613ab..375025c 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -427,8 +427,8 @@ impl<'a> Serializer<'a> {
 
         // Wrap content at line_width, accounting for prefix on first line
         let line_width = self.options.line_width.get();
-        let first_line_width = line_width - prefix.width();
-        let continuation_width = line_width - continuation_indent.len();
+        let first_line_width = line_width.saturating_sub(prefix.width());
+        let continuation_width = line_width.saturating_sub(continuation_indent.len());
 
         // Replace SoftBreak marker (\x00) with space before processing
         let content = footnote.content.replace('\x00', " ");
-- 
2.43.0


From c903a472fdca31c6ae40a0f74896aaf2fd538f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 06/15] fix: make fences in description lists longer than any
 fence in the code

---
 src/serializer/code.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index bbf81e6..c30b53b 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -79,8 +79,6 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
         let fence_char = self.options.fence_char.as_char();
         let min_len = self.options.min_fence_length.get();
-        let base_fence: String = std::iter::repeat_n(fence_char, min_len).collect();
-        let long_fence: String = std::iter::repeat_n(fence_char, min_len + 1).collect();
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(&code.info);
@@ -107,12 +105,23 @@ impl<'a> Serializer<'a> {
         };
         let literal = formatted_literal.as_deref().unwrap_or(&code.literal);
 
-        let fence = if literal.contains(&base_fence) {
-            &long_fence
-        } else {
-            &base_fence
-        };
-        self.output.push_str(fence);
+        // Fence length must be greater than any fence sequence in content
+        let max_fence_in_content = literal
+            .lines()
+            .filter_map(|line| {
+                let trimmed = line.trim_start();
+                if trimmed.starts_with(fence_char) {
+                    Some(trimmed.chars().take_while(|&c| c == fence_char).count())
+                } else {
+                    None
+                }
+            })
+            .max()
+            .unwrap_or(0);
+        let fence_length = std::cmp::max(min_len, max_fence_in_content + 1);
+        let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
+
+        self.output.push_str(&fence);
         if !output_info.is_empty() {
             if self.options.space_after_fence {
                 self.output.push(' ');
@@ -133,7 +142,7 @@ impl<'a> Serializer<'a> {
             self.output.push('\n');
         }
         self.output.push_str(indent);
-        self.output.push_str(fence);
+        self.output.push_str(&fence);
         self.output.push('\n');
     }
 
-- 
2.43.0


From 8c7a1b97950bda60fcbf480432144a056b780a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:11 +0000
Subject: [PATCH 07/15] fix: exchange data with code formatters without
 deadlock and always reap them

---
 src/serializer/formatter.rs | 76 ++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/serializer/formatter.rs b/src/serializer/formatter.rs
index 4fb1b56..57a9c2d 100644
--- a/src/serializer/formatter.rs
+++ b/src/serializer/formatter.rs
@@ -4,9 +4,9 @@
 //! on code block contents. It handles process spawning, timeout management,
 //! and error handling.
 
-use std::io::Write;
+use std::io::{ErrorKind, Read, Write};
 use std::process::{Command, Stdio};
-use std::thread;
+use std::thread::{self, JoinHandle};
 use std::time::{Duration, Instant};
 
 /// Error types for formatter execution.
@@ -95,46 +95,76 @@ pub fn run_formatter(
         .spawn()
         .map_err(FormatterError::Spawn)?;
 
-    // Write code to stdin
-    if let Some(mut stdin) = child.stdin.take() {
-        stdin
-            .write_all(code.as_bytes())
-            .map_err(FormatterError::Stdin)?;
-        // stdin is dropped here, closing it
-    }
+    // Feed stdin and drain the outputs from threads of their own, so that a full
+    // pipe blocks neither side and the timeout applies to the whole exchange
+    let stdin = child.stdin.take();
+    let code = code.as_bytes().to_vec();
+    let writer = thread::spawn(move || stdin.map_or(Ok(()), |mut pipe| pipe.write_all(&code)));
+    let stdout = read_in_background(child.stdout.take());
+    let stderr = read_in_background(child.stderr.take());
 
     // Wait with timeout using polling
     let timeout = Duration::from_secs(timeout_secs);
     let start = Instant::now();
     let poll_interval = Duration::from_millis(50);
 
-    loop {
+    let status = loop {
         match child.try_wait() {
-            Ok(Some(status)) => {
-                // Process finished
-                let output = child.wait_with_output().map_err(FormatterError::Spawn)?;
-                if status.success() {
-                    return String::from_utf8(output.stdout).map_err(FormatterError::InvalidUtf8);
-                } else {
-                    return Err(FormatterError::NonZeroExit {
-                        code: status.code(),
-                        stderr: String::from_utf8_lossy(&output.stderr).to_string(),
-                    });
-                }
-            }
+            Ok(Some(status)) => break status,
             Ok(None) => {
                 // Still running
                 if start.elapsed() >= timeout {
                     let _ = child.kill();
+                    let _ = child.wait();
                     return Err(FormatterError::Timeout);
                 }
                 thread::sleep(poll_interval);
             }
-            Err(e) => return Err(FormatterError::Spawn(e)),
+            Err(e) => {
+                let _ = child.kill();
+                let _ = child.wait();
+                return Err(FormatterError::Spawn(e));
+            }
         }
+    };
+
+    // Process finished
+    let written = join(writer);
+    let stdout = join(stdout).map_err(FormatterError::Spawn)?;
+    let stderr = join(stderr).map_err(FormatterError::Spawn)?;
+    if !status.success() {
+        return Err(FormatterError::NonZeroExit {
+            code: status.code(),
+            stderr: String::from_utf8_lossy(&stderr).to_string(),
+        });
+    }
+    match written {
+        // A process may succeed without reading all of its input
+        Err(e) if e.kind() != ErrorKind::BrokenPipe => Err(FormatterError::Stdin(e)),
+        _ => String::from_utf8(stdout).map_err(FormatterError::InvalidUtf8),
     }
 }
 
+/// Read a pipe to its end in a thread of its own.
+fn read_in_background<R: Read + Send + 'static>(
+    pipe: Option<R>,
+) -> JoinHandle<std::io::Result<Vec<u8>>> {
+    thread::spawn(move || {
+        let mut data = Vec::new();
+        if let Some(mut pipe) = pipe {
+            pipe.read_to_end(&mut data)?;
+        }
+        Ok(data)
+    })
+}
+
+/// Wait for an I/O thread and return its result.
+fn join<T>(handle: JoinHandle<std::io::Result<T>>) -> std::io::Result<T> {
+    handle
+        .join()
+        .unwrap_or_else(|_| Err(std::io::Error::other("I/O thread panicked")))
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From dab1b8c0e47e46cf70a377ca5aa45176a16d8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 08/15] fix: write a link as an autolink only if it is one

A link whose text equals its relative URL became an HTML tag
([LICENSE](LICENSE) was written as <LICENSE>), and emphasis or code
in a link that repeats its URL was lost.
---
 src/serializer/inline.rs |  3 +--
 src/serializer/link.rs   | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 42b5a99..171ab0e 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -189,8 +189,7 @@ impl<'a> Serializer<'a> {
                     .any(|child| matches!(&child.data.borrow().value, NodeValue::Image(_)));
 
                 // Check if this is an autolink (link text equals URL)
-                let raw_text = self.collect_raw_text(node);
-                let is_autolink = link.title.is_empty() && raw_text == link.url;
+                let is_autolink = self.is_autolink(node, &link.url, &link.title);
 
                 // Check if original was reference style
                 if let Some((text, label)) = self.get_reference_style_info(node) {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 316cf17..1320c12 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -55,6 +55,27 @@ impl<'a> Serializer<'a> {
         output.push(')');
     }
 
+    /// Check if a link can be written as an autolink: its plain text is its URL, and
+    /// the URL is absolute (`<LICENSE>` would be an HTML tag, not a link).
+    pub(super) fn is_autolink<'b>(&self, node: &'b AstNode<'b>, url: &str, title: &str) -> bool {
+        let has_scheme = url.split_once(':').is_some_and(|(scheme, _)| {
+            (2..=32).contains(&scheme.len())
+                && scheme.starts_with(|c: char| c.is_ascii_alphabetic())
+                && scheme
+                    .chars()
+                    .all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '.' | '-'))
+        });
+        let is_unbroken = !url.contains(|c: char| c.is_whitespace() || matches!(c, '<' | '>'));
+        let is_plain = node
+            .children()
+            .all(|child| matches!(&child.data.borrow().value, NodeValue::Text(_)));
+        title.is_empty()
+            && has_scheme
+            && is_unbroken
+            && is_plain
+            && self.collect_raw_text(node) == url
+    }
+
     /// Format an autolink and write to output buffer.
     pub(super) fn format_autolink(output: &mut String, url: &str) {
         output.push('<');
@@ -158,8 +179,7 @@ impl<'a> Serializer<'a> {
             .any(|child| matches!(&child.data.borrow().value, NodeValue::Image(_)));
 
         // Check if this is an autolink (link text equals URL)
-        let raw_text = self.collect_raw_text(node);
-        let is_autolink = title.is_empty() && raw_text == url;
+        let is_autolink = self.is_autolink(node, url, title);
 
         // Check if original was reference style
         if let Some((text, label)) = self.get_reference_style_info(node) {
-- 
2.43.0


From 19d7b54d060384af3b12eba2ae0b02f729d9328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 09/15] fix: keep HTML, footnote references and link markup in
 headings

---
 src/serializer/heading.rs | 30 +++++++++++++++++++++++++++++-
 src/serializer/inline.rs  | 34 +++++++++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 0f68ab1..f583aa9 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -38,6 +38,9 @@ pub fn to_sentence_case(
                 result.push_str(&content);
                 is_first_word = false;
             }
+            Token::Html(content) => {
+                result.push_str(&content);
+            }
             Token::Quote(content, is_double) => {
                 let processed =
                     process_quoted_text(&content, is_double, user_proper_nouns, common_nouns);
@@ -63,6 +66,8 @@ pub fn to_sentence_case(
 enum Token {
     /// Code span with backticks (preserved as-is)
     CodeSpan(String),
+    /// Inline HTML (preserved as-is)
+    Html(String),
     /// Quoted text (content, is_double_quote)
     Quote(String, bool),
     /// Regular text
@@ -210,6 +215,22 @@ fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
                 }
             }
             tokens.push(Token::CodeSpan(code_span));
+        } else if ch == '<' && !current.ends_with('\\') && starts_html(chars.clone()) {
+            if !current.is_empty() {
+                let normalized = normalize_quotes(&current);
+                tokens.extend(tokenize_quotes(&normalized));
+                current.clear();
+            }
+
+            // Collect HTML tag (preserve as-is, no quote normalization)
+            let mut html = String::from('<');
+            for ch in chars.by_ref() {
+                html.push(ch);
+                if ch == '>' {
+                    break;
+                }
+            }
+            tokens.push(Token::Html(html));
         } else {
             current.push(ch);
         }
@@ -224,6 +245,13 @@ fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
     tokens
 }
 
+/// Check if what follows a `<` makes it an HTML tag.
+fn starts_html(mut rest: impl Iterator<Item = char>) -> bool {
+    rest.next()
+        .is_some_and(|c| c.is_ascii_alphabetic() || matches!(c, '/' | '!' | '?'))
+        && rest.any(|c| c == '>')
+}
+
 /// Tokenize text that has already been quote-normalized, extracting quoted parts.
 fn tokenize_quotes(text: &str) -> Vec<Token> {
     let mut tokens = Vec::new();
@@ -325,7 +353,7 @@ fn process_quoted_text(
 
             for token in tokens {
                 match token {
-                    Token::CodeSpan(c) => result.push_str(&c),
+                    Token::CodeSpan(c) | Token::Html(c) => result.push_str(&c),
                     Token::Quote(c, is_dbl) => {
                         let processed =
                             process_quoted_text(&c, is_dbl, user_proper_nouns, common_nouns);
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 171ab0e..4bd9efb 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -81,25 +81,42 @@ impl<'a> Serializer<'a> {
                 }
                 text.push_str(delim);
             }
-            NodeValue::SoftBreak => {
+            NodeValue::SoftBreak | NodeValue::LineBreak => {
+                // A heading is a single line
                 text.push(' ');
             }
+            NodeValue::HtmlInline(html) => {
+                // Preserve inline HTML as-is
+                text.push_str(html);
+            }
+            NodeValue::FootnoteReference(footnote_ref) => {
+                text.push_str("[^");
+                text.push_str(&footnote_ref.name);
+                text.push(']');
+            }
             NodeValue::Link(link) => {
                 // Handle reference-style links in headings
                 if let Some((link_text, label)) = self.get_reference_style_info(node) {
                     self.format_reference_link(text, &link_text, &label, &link.url, &link.title);
                 } else {
-                    // For inline links, just output plain text (or format as inline?)
                     // In headings, we typically want reference style for external links
-                    let link_text = self.collect_raw_text(node);
-                    if Self::is_external_url(&link.url) {
-                        // Headings don't have footnote references as siblings, so no need for collapsed style
+                    let mut link_text = String::new();
+                    for child in node.children() {
+                        self.collect_text_recursive(child, &mut link_text);
+                    }
+                    // The text of a badge-style link cannot serve as a label
+                    let contains_image = node
+                        .children()
+                        .any(|child| matches!(&child.data.borrow().value, NodeValue::Image(_)));
+                    if Self::is_external_url(&link.url) && !contains_image {
+                        // Check if next sibling starts with '[' to decide if we need collapsed style
+                        let use_collapsed = Self::next_sibling_starts_with_bracket(node);
                         self.format_external_link_as_reference(
                             text,
                             &link_text,
                             &link.url,
                             &link.title,
-                            false,
+                            use_collapsed,
                         );
                     } else {
                         Self::format_inline_link(text, &link_text, &link.url, &link.title);
@@ -108,7 +125,10 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::Image(image) => {
                 // Preserve images in headings using inline syntax
-                let alt_text = self.collect_raw_text(node);
+                let mut alt_text = String::new();
+                for child in node.children() {
+                    self.collect_text_recursive(child, &mut alt_text);
+                }
                 Self::format_inline_image(text, &alt_text, &image.url, &image.title);
             }
             _ => {
-- 
2.43.0


From 29b34e0ee1b9489bb394822634b24a79d8ec49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 10/15] fix: keep headings, HTML blocks and rules in footnotes

---
 src/serializer/mod.rs | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 375025c..9625775 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -642,25 +642,14 @@ impl<'a> Serializer<'a> {
                     .get_reference_line(&footnote_def.name)
                     .unwrap_or(0);
 
-                // Check if footnote contains block elements (code blocks, lists, etc.)
+                // Check if footnote contains block elements (code blocks, lists, etc.):
+                // anything but a single paragraph
                 let has_blocks = {
                     let children: Vec<_> = node.children().collect();
-                    // Has blocks if:
-                    // 1. Contains any explicit block elements (code, blockquote, list, table)
-                    // 2. Contains multiple paragraphs (need blank line separation)
-                    children.iter().any(|child| {
-                        matches!(
-                            &child.data.borrow().value,
-                            NodeValue::CodeBlock(_)
-                                | NodeValue::BlockQuote
-                                | NodeValue::List(_)
-                                | NodeValue::Table(_)
-                        )
-                    }) || children
-                        .iter()
-                        .filter(|child| matches!(&child.data.borrow().value, NodeValue::Paragraph))
-                        .count()
-                        > 1
+                    children.len() > 1
+                        || children.iter().any(|child| {
+                            !matches!(&child.data.borrow().value, NodeValue::Paragraph)
+                        })
                 };
 
                 // Collect content from children
-- 
2.43.0


From 66e92fb11a68d09e7dd6124616f9dfb3e52b6596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 11/15] fix: keep the title of an alert

---
 src/serializer/block.rs | 15 +++++++++++++--
 src/serializer/mod.rs   |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 66f8471..3b24245 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -86,7 +86,12 @@ impl<'a> Serializer<'a> {
         self.exit_blockquote_context(state);
     }
 
-    pub(super) fn serialize_alert<'b>(&mut self, node: &'b AstNode<'b>, alert_type: AlertType) {
+    pub(super) fn serialize_alert<'b>(
+        &mut self,
+        node: &'b AstNode<'b>,
+        alert_type: AlertType,
+        title: Option<&str>,
+    ) {
         // Output the alert header
         let type_str = match alert_type {
             AlertType::Note => "NOTE",
@@ -99,7 +104,13 @@ impl<'a> Serializer<'a> {
         self.output.push_str(&self.blockquote_prefix);
         self.output.push_str("> [!");
         self.output.push_str(type_str);
-        self.output.push_str("]\n");
+        self.output.push(']');
+        if let Some(title) = title {
+            // A title of its own is plain text
+            self.output.push(' ');
+            self.output.push_str(&title.replace('\\', "\\\\"));
+        }
+        self.output.push('\n');
 
         // Check if original source has a blank line after the alert header
         let children: Vec<_> = node.children().collect();
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 9625775..5e6242f 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -578,7 +578,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_description_details(node);
             }
             NodeValue::Alert(alert) => {
-                self.serialize_alert(node, alert.alert_type);
+                self.serialize_alert(node, alert.alert_type, alert.title.as_deref());
             }
             NodeValue::Item(_) => {
                 self.serialize_list_item(node, None);
-- 
2.43.0


From 01669627fc49ae295f260cdd77abbd2ad57cafb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:07 +0000
Subject: [PATCH 12/15] fix: keep backslash escapes of punctuation as they are

An escape the source has for a character that is otherwise left alone, as in
\# or \|, became an escaped backslash, which changed the text and grew with
every further formatting.
---
 src/serializer/inline.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 4bd9efb..52c7f31 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -343,23 +343,11 @@ impl<'a> Serializer<'a> {
                 } else {
                     // Source has an escape sequence, text doesn't have a backslash
                     let escaped_char = source_chars[source_idx + 1];
-                    if escaped_char == text_char {
-                        // The escape in source corresponds to this character in text
-                        // Check if this character actually needs escaping in Markdown
-                        let escaped_form = escape::escape_text(&text_char.to_string());
-                        let needs_escaping =
-                            escaped_form.len() > 1 && escaped_form.starts_with('\\');
-
-                        if needs_escaping {
-                            // Preserve the escape from source (e.g., \_ → \_)
-                            result.push('\\');
-                            result.push(escaped_char);
-                        } else {
-                            // Character doesn't need escaping, so backslash should be literal
-                            // Output escaped backslash + character (e.g., \U → \\U)
-                            result.push_str("\\\\");
-                            result.push(text_char);
-                        }
+                    if escaped_char == text_char && escaped_char.is_ascii_punctuation() {
+                        // The escape in source corresponds to this character in text:
+                        // preserve it (e.g., \_ → \_)
+                        result.push('\\');
+                        result.push(escaped_char);
                         text_idx += 1;
                         source_idx += 2;
                     } else {
-- 
2.43.0


From d16ac29f3d6d085e92ce458f87b086b40aabfc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:59 +0000
Subject: [PATCH 13/15] fix: keep the escape a text begins with

The source position of a text that begins with a backslash escape is that of
the escaped character, so the backslash was lost: '\# a' became a heading,
'\- a' a list item and '\[a](b)' a link.
---
 src/serializer/inline.rs |  4 ++--
 src/serializer/state.rs  | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 52c7f31..93fe97c 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -43,7 +43,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(t, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node) {
                     text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
@@ -156,7 +156,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(text, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node) {
                     content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 65b2bc7..9213e25 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -437,6 +437,24 @@ impl<'a> Serializer<'a> {
         Some(result)
     }
 
+    /// Extract the original source of a text node, including the backslash of an
+    /// escape it begins with: its source position is that of the escaped character.
+    pub fn extract_text_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        let source = self.extract_source(node)?;
+        let start = node.data.borrow().sourcepos.start;
+        let starts_with_escape = start.column >= 2
+            && source.starts_with(|ch: char| ch.is_ascii_punctuation())
+            && self.source_lines[start.line - 1]
+                .as_bytes()
+                .get(start.column - 2)
+                == Some(&b'\\');
+        Some(if starts_with_escape {
+            format!("\\{source}")
+        } else {
+            source
+        })
+    }
+
     /// Check if formatting should be skipped for this node.
     pub fn should_skip_formatting(&self) -> bool {
         self.skip_mode != FormatSkipMode::None
-- 
2.43.0


From c638c10eedd0ee926411a8494d2055ab0b11c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:33 +0000
Subject: [PATCH 14/15] fix: recognise reference links by their end

A bracket in code or behind a backslash in the text of a link was taken for
the end of the text, and the rest of the text was lost.
---
 src/serializer/mod.rs | 85 +++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 52 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 5e6242f..0d061d6 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -103,63 +103,44 @@ impl<'a> Serializer<'a> {
         // Remove leading ! for images
         let source = source.strip_prefix('!').unwrap_or(&source);
 
-        // Find the position of the first '[' and track brackets to find the matching ']'
-        let first_bracket = source.find('[')?;
-        let chars: Vec<char> = source.chars().collect();
-
-        // Find the closing bracket at depth 0 (the one that closes the text/content part)
-        let mut depth = 0;
-        let mut text_end_pos = None;
-        for (i, &ch) in chars.iter().enumerate().skip(first_bracket) {
-            match ch {
-                '[' => depth += 1,
-                ']' => {
-                    depth -= 1;
-                    if depth == 0 {
-                        text_end_pos = Some(i);
-                        break;
-                    }
-                }
-                _ => {}
-            }
-        }
-
-        let text_end_pos = text_end_pos?;
-
-        // Convert char indices to strings for safe UTF-8 handling
-        let after_close: String = chars[text_end_pos + 1..].iter().collect();
-        let text: String = chars[first_bracket + 1..text_end_pos].iter().collect();
+        // Inline style ends with a parenthesis
+        let source = source.strip_prefix('[')?.strip_suffix(']')?;
 
-        // Normalize newlines to spaces in the text (for idempotency when text spans lines)
-        let text = escape::normalize_whitespace(&text);
-
-        // If followed by "(", it's inline style
-        if after_close.starts_with('(') {
-            return None;
-        }
+        // Convert to char indices for safe UTF-8 handling
+        let chars: Vec<char> = source.chars().collect();
 
-        // If followed by "[", it's full or collapsed reference style
-        if let Some(label_content) = after_close.strip_prefix('[') {
-            // Find the label between [ and ]
-            if let Some(label_end) = label_content.find(']') {
-                let label = label_content[..label_end].to_string();
-                // Normalize label too
-                let label = escape::normalize_whitespace(&label);
-
-                // If label is empty, it's collapsed reference - mark with special prefix
-                // to distinguish from shortcut reference
-                let final_label = if label.is_empty() {
-                    format!("\x01{}", text) // Use \x01 as marker for collapsed reference
-                } else {
-                    label
-                };
+        // A label has no brackets but escaped ones (while the text may have some, in code
+        // for example), so the last bracket that is not escaped opens the label
+        let is_escaped = |pos: usize| {
+            let backslashes = chars[..pos].iter().rev().take_while(|&&ch| ch == '\\');
+            backslashes.count() % 2 == 1
+        };
+        let label_start = (1..chars.len())
+            .rev()
+            .find(|&pos| chars[pos] == '[' && chars[pos - 1] == ']' && !is_escaped(pos));
+
+        // Normalize newlines to spaces (for idempotency when text or label span lines)
+        let normalize =
+            |part: &[char]| escape::normalize_whitespace(&part.iter().collect::<String>());
+
+        // Full or collapsed reference style
+        if let Some(label_start) = label_start {
+            let text = normalize(&chars[..label_start - 1]);
+            let label = normalize(&chars[label_start + 1..]);
+
+            // If label is empty, it's collapsed reference - mark with special prefix
+            // to distinguish from shortcut reference
+            let final_label = if label.is_empty() {
+                format!("\x01{}", text) // Use \x01 as marker for collapsed reference
+            } else {
+                label
+            };
 
-                return Some((text, final_label));
-            }
+            return Some((text, final_label));
         }
 
-        // Shortcut reference: just [text] with nothing following
-        // or followed by something that's not ( or [
+        // Shortcut reference: just [text]
+        let text = normalize(&chars);
         Some((text.clone(), text))
     }
 
-- 
2.43.0


From 3d0d57b3a80a8aaabba7101d1343e7a4104ec8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:00 +0000
Subject: [PATCH 15/15] fix: do not start a line with a word that starts a
 block

Breaking a line before a word such as '1.', '-' or '#' ended the paragraph:
the rest of it became a list, a heading or the like.
---
 src/serializer/wrap.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 34be4c1..ec7558b 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -328,6 +328,23 @@ pub fn wrap_single_segment(
     result
 }
 
+/// Check if a word at the start of a line would end the paragraph it belongs to:
+/// as a list marker, a heading, a setext underline, a block quote, a code fence or
+/// the details of a description.
+fn starts_block(token: &str) -> bool {
+    let repeats = |ch: char| token.chars().all(|c| c == ch);
+    let ordered_marker = token
+        .strip_suffix(['.', ')'])
+        .is_some_and(|number| number.trim_start_matches('0') == "1");
+    matches!(token, "+" | ":")
+        || ordered_marker
+        || repeats('-')
+        || repeats('=')
+        || repeats('#')
+        || token.starts_with('>')
+        || token.starts_with("~~~")
+}
+
 #[allow(clippy::too_many_arguments)]
 fn add_token_to_line_with_prefix(
     result: &mut String,
@@ -351,8 +368,8 @@ fn add_token_to_line_with_prefix(
         // First word on this line (prefix already added)
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
-    } else if current_line.width() + token_width + spaces_len <= line_width {
-        // Token fits on current line
+    } else if current_line.width() + token_width + spaces_len <= line_width || starts_block(token) {
+        // Token fits on current line (or must not start a line)
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
     } else {
-- 
2.43.0


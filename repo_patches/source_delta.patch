From 5f6ac2c48378c2ac3ebc003dba136599ebb08f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 01/17] fix: escape every terminator in inline content,
 including CRLF and runs of three or more line breaks

---
 src/nodes/anchor.rs        | 26 ++++++++++++++++----------
 src/nodes/bold.rs          | 13 +++++++------
 src/nodes/code_span.rs     |  7 +++----
 src/nodes/emphasis.rs      |  7 +++----
 src/nodes/escape.rs        | 20 ++++++++++++++++++++
 src/nodes/image.rs         | 19 ++++++++++---------
 src/nodes/italic.rs        |  7 +++----
 src/nodes/mod.rs           |  1 +
 src/nodes/paragraph.rs     | 22 ++++++++++++----------
 src/nodes/strikethrough.rs |  7 +++----
 10 files changed, 78 insertions(+), 51 deletions(-)
 create mode 100644 src/nodes/escape.rs

diff --git a/src/nodes/anchor.rs b/src/nodes/anchor.rs
index 57ef22e..58b8ffa 100644
--- a/src/nodes/anchor.rs
+++ b/src/nodes/anchor.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Anchor
 ///
 /// Anchor has two required parts.
@@ -53,16 +55,20 @@ impl Display for Anchor {
         write!(
             f,
             "[{}]({})",
-            self.text
-                .replace("\\", "\\\\")
-                .replace("[", "\\[")
-                .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
-            self.url
-                .replace("\\", "\\\\")
-                .replace("(", "\\(")
-                .replace(")", "\\)")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(
+                &self
+                    .text
+                    .replace("\\", "\\\\")
+                    .replace("[", "\\[")
+                    .replace("]", "\\]")
+            ),
+            escape_terminators(
+                &self
+                    .url
+                    .replace("\\", "\\\\")
+                    .replace("(", "\\(")
+                    .replace(")", "\\)")
+            )
         )
     }
 }
diff --git a/src/nodes/bold.rs b/src/nodes/bold.rs
index 297b665..08e3d52 100644
--- a/src/nodes/bold.rs
+++ b/src/nodes/bold.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Italic, Strikethrough};
+use super::{Italic, Strikethrough, escape::escape_terminators};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -41,11 +41,12 @@ impl Display for BoldNodes {
                 write!(
                     f,
                     "{}",
-                    t.replace("\\", "\\\\")
-                        .replace("*", "\\*")
-                        .replace("_", "\\_")
-                        .replace("~", "\\~")
-                        .replace("\n\n", "\\\n\n")
+                    escape_terminators(
+                        &t.replace("\\", "\\\\")
+                            .replace("*", "\\*")
+                            .replace("_", "\\_")
+                            .replace("~", "\\~")
+                    )
                 )
             }
         }
diff --git a/src/nodes/code_span.rs b/src/nodes/code_span.rs
index 7d142e9..6878adf 100644
--- a/src/nodes/code_span.rs
+++ b/src/nodes/code_span.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Code span
 ///
 /// Any characters except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by a
@@ -47,10 +49,7 @@ impl Display for CodeSpan {
         write!(
             f,
             "`{}`",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("`", "\\`")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("`", "\\`"))
         )
     }
 }
diff --git a/src/nodes/emphasis.rs b/src/nodes/emphasis.rs
index 7d59484..70e1616 100644
--- a/src/nodes/emphasis.rs
+++ b/src/nodes/emphasis.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Emphasis
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -44,10 +46,7 @@ impl Display for Emphasis {
         write!(
             f,
             "*{}*",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("*", "\\*")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("*", "\\*"))
         )
     }
 }
diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
new file mode 100644
index 0000000..698c91e
--- /dev/null
+++ b/src/nodes/escape.rs
@@ -0,0 +1,20 @@
+//! Escaping helpers shared by the [`Display`](std::fmt::Display) impls of the nodes.
+
+/// Returns `true` if `s` starts with exactly what the lexer reads as one
+/// [Eol](type@crate::lexer::TokenKind::Eol).
+fn starts_with_eol(s: &str) -> bool {
+    s.starts_with('\n') || s.starts_with("\r\n")
+}
+
+/// Escapes every line break that is directly followed by another one, so that no two of them are
+/// read back as a [Terminator](type@crate::lexer::TokenKind::Terminator).
+pub(crate) fn escape_terminators(s: &str) -> String {
+    let mut out = String::with_capacity(s.len());
+    for (i, c) in s.char_indices() {
+        if c == '\n' && starts_with_eol(&s[i + 1..]) {
+            out.push('\\');
+        }
+        out.push(c);
+    }
+    out
+}
diff --git a/src/nodes/image.rs b/src/nodes/image.rs
index 6b24e32..f3630d3 100644
--- a/src/nodes/image.rs
+++ b/src/nodes/image.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Image
 ///
 /// Starts with [Bang](type@crate::lexer::TokenKind::Bang) of length 1, and has two required parts.
@@ -54,15 +56,14 @@ impl Display for Image {
         write!(
             f,
             "![{}]({})",
-            self.alt
-                .replace("\\", "\\\\")
-                .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
-            self.src
-                .replace("\\", "\\\\")
-                .replace("(", "\\(")
-                .replace(")", "\\)")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.alt.replace("\\", "\\\\").replace("]", "\\]")),
+            escape_terminators(
+                &self
+                    .src
+                    .replace("\\", "\\\\")
+                    .replace("(", "\\(")
+                    .replace(")", "\\)")
+            )
         )
     }
 }
diff --git a/src/nodes/italic.rs b/src/nodes/italic.rs
index b13c9b4..dac3c27 100644
--- a/src/nodes/italic.rs
+++ b/src/nodes/italic.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Italic
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -43,10 +45,7 @@ impl Display for Italic {
         write!(
             f,
             "_{}_",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("_", "\\_")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("_", "\\_"))
         )
     }
 }
diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index fccf2a1..0b90afe 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -36,6 +36,7 @@ mod code_span;
 mod collapsible;
 mod embed;
 mod emphasis;
+mod escape;
 mod heading;
 mod highlight;
 mod image;
diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 292814f..d672b1f 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Anchor, Bold, CodeSpan, Emphasis, Italic, Strikethrough};
+use super::{Anchor, Bold, CodeSpan, Emphasis, Italic, Strikethrough, escape::escape_terminators};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -70,15 +70,17 @@ impl Display for ParagraphNodes {
             ParagraphNodes::Text(t) => write!(
                 f,
                 "{}",
-                t.replace("\\", "\\\\")
-                    .replace("*", "\\*")
-                    .replace("_", "\\_")
-                    .replace("~", "\\~")
-                    .replace("`", "\\`")
-                    .replace("[", "\\[")
-                    .replace("{", "\\{")
-                    .replace("\n\n", "\\\n\\\n")
-                    .replace("%}", "\\%}")
+                escape_terminators(
+                    &t.replace("\\", "\\\\")
+                        .replace("*", "\\*")
+                        .replace("_", "\\_")
+                        .replace("~", "\\~")
+                        .replace("`", "\\`")
+                        .replace("[", "\\[")
+                        .replace("{", "\\{")
+                        .replace("%}", "\\%}")
+                )
+                .replace("\\\n\n", "\\\n\\\n")
             ),
             ParagraphNodes::CodeSpan(c) => write!(f, "{}", c),
             ParagraphNodes::Emphasis(e) => write!(f, "{}", e),
diff --git a/src/nodes/strikethrough.rs b/src/nodes/strikethrough.rs
index f8fefab..9107a68 100644
--- a/src/nodes/strikethrough.rs
+++ b/src/nodes/strikethrough.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Strikethrough
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -44,10 +46,7 @@ impl Display for Strikethrough {
         write!(
             f,
             "~~{}~~",
-            self.0
-                .replace("\\", "\\\\")
-                .replace("~", "\\~")
-                .replace("\n\n", "\\\n\n")
+            escape_terminators(&self.0.replace("\\", "\\\\").replace("~", "\\~"))
         )
     }
 }
-- 
2.43.0


From b7dd31a559a315b69af45c219ae04463a7414b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 02/17] fix: escape every heading level and image marker at the
 start of a paragraph

---
 src/nodes/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index d672b1f..197b5a4 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -171,9 +171,11 @@ impl Display for Paragraph {
 /// container-specific closer escape (e.g. Highlight's universal `!!` escape),
 /// because those escapes can rewrite the leading characters.
 pub(crate) fn escape_leading_block_marker(s: String) -> String {
+    let hashes = s.chars().take_while(|c| *c == '#').count();
     if s.starts_with("- ")
         || s.starts_with("+ ")
-        || s.starts_with("# ")
+        || ((1..=6).contains(&hashes) && s[hashes..].starts_with(' '))
+        || s.starts_with("![")
         || s.starts_with("!!")
         || s.starts_with("---")
     {
-- 
2.43.0


From 6481f22b33ce48685f1d45d59879382f6ed4c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 03/17] fix: escape brackets and a leading space in heading
 text

---
 src/nodes/escape.rs  |  9 +++++++++
 src/nodes/heading.rs | 21 ++++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
index 698c91e..6745176 100644
--- a/src/nodes/escape.rs
+++ b/src/nodes/escape.rs
@@ -18,3 +18,12 @@ pub(crate) fn escape_terminators(s: &str) -> String {
     }
     out
 }
+
+/// Escapes a space `s` starts with. For content that follows a marker which takes exactly one space.
+pub(crate) fn escape_leading_space(s: String) -> String {
+    if s.starts_with(' ') {
+        format!("\\{s}")
+    } else {
+        s
+    }
+}
diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index 25b6769..dd6cf2c 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -3,7 +3,10 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::Anchor;
+use super::{
+    Anchor,
+    escape::{escape_leading_space, escape_terminators},
+};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -32,9 +35,12 @@ impl Display for HeadingNodes {
                 write!(
                     f,
                     "{}",
-                    text.replace("\\", "\\\\")
-                        .replace("\n\n", "\\\n\n")
-                        .replace("#", "\\#")
+                    escape_terminators(
+                        &text
+                            .replace("\\", "\\\\")
+                            .replace("#", "\\#")
+                            .replace("[", "\\[")
+                    )
                 )
             }
             HeadingNodes::Anchor(anchor) => write!(f, "{}", anchor),
@@ -82,7 +88,12 @@ impl Heading {
 impl Display for Heading {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let body: String = self.body.iter().map(|n| n.to_string()).collect();
-        write!(f, "{} {}", "#".repeat(self.level as usize), body)
+        write!(
+            f,
+            "{} {}",
+            "#".repeat(self.level as usize),
+            escape_leading_space(body)
+        )
     }
 }
 
-- 
2.43.0


From c1bc615efe3708a8e3d1efc731d0aaa45791faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 04/17] fix: escape every marker a list item text would be
 split at, and its leading space

---
 src/nodes/escape.rs | 13 ++++++++++++
 src/nodes/list.rs   | 48 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
index 6745176..ca071fb 100644
--- a/src/nodes/escape.rs
+++ b/src/nodes/escape.rs
@@ -19,6 +19,19 @@ pub(crate) fn escape_terminators(s: &str) -> String {
     out
 }
 
+/// Escapes a `\n` or `\r` `s` ends with, unless it is escaped already. For content that is directly
+/// followed by a line break.
+pub(crate) fn escape_trailing_eol(mut s: String) -> String {
+    if s.ends_with(['\n', '\r']) {
+        let last = s.len() - 1;
+        let backslashes = s[..last].chars().rev().take_while(|c| *c == '\\').count();
+        if backslashes % 2 == 0 {
+            s.insert(last, '\\');
+        }
+    }
+    s
+}
+
 /// Escapes a space `s` starts with. For content that follows a marker which takes exactly one space.
 pub(crate) fn escape_leading_space(s: String) -> String {
     if s.starts_with(' ') {
diff --git a/src/nodes/list.rs b/src/nodes/list.rs
index 29b8e62..1edeb80 100644
--- a/src/nodes/list.rs
+++ b/src/nodes/list.rs
@@ -3,7 +3,10 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::ListItem;
+use super::{
+    ListItem,
+    escape::{escape_leading_space, escape_trailing_eol},
+};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -148,25 +151,48 @@ impl List {
             body,
         }
     }
+
+    /// Escapes the markers in the text of an item that would be read back as a boundary of that
+    /// item: of the same type on the same level, of any type on a lower level or one level deeper.
+    fn escape_markers(&self, text: &str) -> String {
+        let mut lines = text.split('\n');
+        let mut out = lines.next().unwrap_or_default().to_owned();
+        for line in lines {
+            out.push('\n');
+            let rest = line.trim_start_matches(' ');
+            let level = line.len() - rest.len();
+            let is_boundary = if level == self.level {
+                rest.starts_with(&format!("{} ", self.list_type))
+            } else {
+                level <= self.level + 1 && (rest.starts_with("- ") || rest.starts_with("+ "))
+            };
+            out.push_str(&line[..level]);
+            if is_boundary {
+                out.push('\\');
+            }
+            out.push_str(rest);
+        }
+        out
+    }
 }
 
 impl Display for List {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let (pat, rep) = match self.list_type {
-            ListTypes::Unordered => ("\n- ", "\n\\- "),
-            ListTypes::Ordered => ("\n+ ", "\n\\+ "),
-        };
         write!(
             f,
             "{}",
             self.body
                 .iter()
-                .map(|list_item| format!(
-                    "{}{} {}",
-                    " ".repeat(self.level),
-                    self.list_type,
-                    list_item.to_string().replace(pat, rep)
-                ))
+                .map(|list_item| {
+                    let text: String = list_item.text.iter().map(|t| t.to_string()).collect();
+                    let text =
+                        escape_leading_space(escape_trailing_eol(self.escape_markers(&text)));
+                    let marker = format!("{}{} ", " ".repeat(self.level), self.list_type);
+                    match &list_item.nested_list {
+                        Some(nested) => format!("{marker}{text}\n{nested}"),
+                        None => format!("{marker}{text}"),
+                    }
+                })
                 .collect::<Vec<_>>()
                 .join("\n")
         )
-- 
2.43.0


From b8a7c470f2b0753c10951d1f5314e716a76607dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 05/17] fix: print highlight title, icon and body so that they
 are read back unchanged

---
 src/nodes/escape.rs    | 16 ++++++++++++++++
 src/nodes/highlight.rs | 40 ++++++++++++++++++++++++----------------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/nodes/escape.rs b/src/nodes/escape.rs
index ca071fb..f1bf351 100644
--- a/src/nodes/escape.rs
+++ b/src/nodes/escape.rs
@@ -19,6 +19,15 @@ pub(crate) fn escape_terminators(s: &str) -> String {
     out
 }
 
+/// Escapes a line break `s` starts with. For content that directly follows a line break.
+pub(crate) fn escape_leading_eol(s: String) -> String {
+    if starts_with_eol(&s) {
+        format!("\\{s}")
+    } else {
+        s
+    }
+}
+
 /// Escapes a `\n` or `\r` `s` ends with, unless it is escaped already. For content that is directly
 /// followed by a line break.
 pub(crate) fn escape_trailing_eol(mut s: String) -> String {
@@ -40,3 +49,10 @@ pub(crate) fn escape_leading_space(s: String) -> String {
         s
     }
 }
+
+/// Escapes text that has to stay on one line and follows a marker which takes exactly one space.
+pub(crate) fn escape_line(s: &str) -> String {
+    escape_trailing_eol(escape_leading_space(
+        s.replace('\\', "\\\\").replace('\n', "\\\n"),
+    ))
+}
diff --git a/src/nodes/highlight.rs b/src/nodes/highlight.rs
index 0204c2f..3c2a892 100644
--- a/src/nodes/highlight.rs
+++ b/src/nodes/highlight.rs
@@ -3,7 +3,11 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Paragraph, paragraph::escape_leading_block_marker};
+use super::{
+    Paragraph,
+    escape::{escape_leading_eol, escape_line, escape_trailing_eol},
+    paragraph::escape_leading_block_marker,
+};
 
 /// # Highlight
 ///
@@ -77,21 +81,25 @@ impl Display for Highlight {
         let title = self
             .title
             .as_ref()
-            .map_or("".to_string(), |t| format!(" {}", t.replace("\\", "\\\\")));
-        let icon = self.icon.as_ref().map_or("".to_string(), |i| {
-            format!("! {}\n", i.replace("\\", "\\\\"))
-        });
-        write!(
-            f,
-            "!!{}\n{}{}\n!!",
-            title,
-            icon,
-            self.body
-                .iter()
-                .map(|p| escape_leading_block_marker(p.to_string().replace("!!", "\\!!")))
-                .collect::<Vec<_>>()
-                .join("\n\n")
-        )
+            .map_or("".to_string(), |t| format!(" {}", escape_line(t)));
+        let icon = self
+            .icon
+            .as_ref()
+            .map_or("".to_string(), |i| format!("! {}\n", escape_line(i)));
+        write!(f, "!!{}\n{}", title, icon)?;
+        for (i, p) in self.body.iter().enumerate() {
+            let text = escape_leading_block_marker(p.to_string().replace("!!", "\\!!"));
+            let text = escape_trailing_eol(escape_leading_eol(text));
+            let is_icon = i == 0 && self.icon.is_none() && text.starts_with("! ");
+            writeln!(
+                f,
+                "{}{}{}",
+                if i == 0 { "" } else { "\n" },
+                if is_icon { "\\" } else { "" },
+                text
+            )?;
+        }
+        write!(f, "!!")
     }
 }
 
-- 
2.43.0


From ebe7f80f443296c01a71503d376ad84a12798012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 06/17] fix: print collapsible title and body so that they are
 read back unchanged

---
 src/nodes/collapsible.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index e89a538..c4dcfc1 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -3,7 +3,11 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{YamdNodes, paragraph::escape_leading_block_marker};
+use super::{
+    YamdNodes,
+    escape::{escape_leading_eol, escape_line, escape_trailing_eol},
+    paragraph::escape_leading_block_marker,
+};
 
 /// # Collapsible
 ///
@@ -53,18 +57,24 @@ impl Collapsible {
 
 impl Display for Collapsible {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let body = self
+            .body
+            .iter()
+            .map(|node| {
+                let s = match node {
+                    YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
+                    YamdNodes::Collapsible(c) => return c.to_string(),
+                    other => other.to_string(),
+                };
+                escape_trailing_eol(s.replace("\n%}", "\n\\%}"))
+            })
+            .collect::<Vec<_>>()
+            .join("\n\n");
         write!(
             f,
             "{{% {}\n{}\n%}}",
-            self.title.replace("\\", "\\\\").replace("%}", "\\%}"),
-            self.body
-                .iter()
-                .map(|node| match node {
-                    YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
-                    other => other.to_string(),
-                })
-                .collect::<Vec<_>>()
-                .join("\n\n")
+            escape_line(&self.title).replace("%}", "\\%}"),
+            escape_leading_eol(body)
         )
     }
 }
-- 
2.43.0


From 3a5136dda85cc87929eeabaf0f12603703e4b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 07/17] fix: keep a leading line break of code and a trailing
 one of its language

---
 src/nodes/code.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/nodes/code.rs b/src/nodes/code.rs
index 97bfa14..90d4428 100644
--- a/src/nodes/code.rs
+++ b/src/nodes/code.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::{escape_leading_eol, escape_trailing_eol};
+
 /// # Code
 ///
 /// Starts with [Backtick](type@crate::lexer::TokenKind::Backtick) of length 3.
@@ -51,11 +53,13 @@ impl Display for Code {
         write!(
             f,
             "```{}\n{}\n```",
-            self.lang
-                .replace("\\", "\\\\")
-                .replace("`", "\\`")
-                .replace("\n", "\\\n"),
-            self.code.replace("\\", "\\\\").replace("```", "\\```")
+            escape_trailing_eol(
+                self.lang
+                    .replace("\\", "\\\\")
+                    .replace("`", "\\`")
+                    .replace("\n", "\\\n")
+            ),
+            escape_leading_eol(self.code.replace("\\", "\\\\").replace("```", "\\```"))
         )
     }
 }
-- 
2.43.0


From 37c5d5338b46fa63e44963d13c6f4515eac73cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 08/17] fix: escape backslashes and closing markers in printed
 metadata

---
 src/nodes/yamd.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index cbebe51..8d8e2a8 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -263,6 +263,16 @@ impl Yamd {
     }
 }
 
+/// Escapes what would be read back as an escape or as the end of the metadata block.
+fn escape_metadata(metadata: &str) -> String {
+    let s = metadata.replace("\\", "\\\\").replace("\n---", "\n\\---");
+    if s.starts_with("---") {
+        format!("\\{s}")
+    } else {
+        s
+    }
+}
+
 impl Display for Yamd {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let body = self
@@ -276,6 +286,7 @@ impl Display for Yamd {
             .join("\n\n");
         match &self.metadata {
             Some(metadata) => {
+                let metadata = escape_metadata(metadata);
                 let sep = if metadata.ends_with('\n') { "" } else { "\n" };
                 write!(f, "---\n{}{}---\n\n{}", metadata, sep, body)
             }
-- 
2.43.0


From f29f1b70f540229b952b67b1f176421176d1a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 09/17] fix: escape a line break a block ends with when another
 block follows

---
 src/nodes/yamd.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index 8d8e2a8..460e964 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -5,7 +5,7 @@ use serde::{Deserialize, Serialize};
 
 use super::{
     Code, Collapsible, Embed, Heading, Highlight, Image, Images, List, Paragraph, ThematicBreak,
-    paragraph::escape_leading_block_marker,
+    escape::escape_trailing_eol, paragraph::escape_leading_block_marker,
 };
 
 #[derive(Debug, PartialEq, Clone, Eq)]
@@ -275,12 +275,17 @@ fn escape_metadata(metadata: &str) -> String {
 
 impl Display for Yamd {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        let last = self.body.len().saturating_sub(1);
         let body = self
             .body
             .iter()
-            .map(|node| match node {
-                YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
-                other => other.to_string(),
+            .enumerate()
+            .map(|(i, node)| {
+                let s = match node {
+                    YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
+                    other => other.to_string(),
+                };
+                if i == last { s } else { escape_trailing_eol(s) }
             })
             .collect::<Vec<_>>()
             .join("\n\n");
-- 
2.43.0


From f7d8ad0e61006cc3f299a867bd305ed20b6c9781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 10/17] fix: trim CRLF the way LF is trimmed

---
 src/nodes/code.rs | 2 +-
 src/nodes/yamd.rs | 2 +-
 src/op/to_yamd.rs | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nodes/code.rs b/src/nodes/code.rs
index 90d4428..4da31e5 100644
--- a/src/nodes/code.rs
+++ b/src/nodes/code.rs
@@ -40,7 +40,7 @@ pub struct Code {
 impl Code {
     pub fn new<S: Into<String>>(lang: S, code: S) -> Self {
         let code = code.into();
-        let code = code.trim_end_matches('\n').to_owned();
+        let code = code.trim_end_matches(['\r', '\n']).to_owned();
         Self {
             lang: lang.into(),
             code,
diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index 460e964..8f374fe 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -258,7 +258,7 @@ pub struct Yamd {
 
 impl Yamd {
     pub fn new(metadata: Option<String>, body: Vec<YamdNodes>) -> Self {
-        let metadata = metadata.map(|m| m.trim_matches('\n').to_owned());
+        let metadata = metadata.map(|m| m.trim_matches(['\r', '\n']).to_owned());
         Self { metadata, body }
     }
 }
diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 4cc0629..2c97602 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -283,7 +283,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         }
                     }
                     (Node::Metadata, Frame::Metadata { text }) => {
-                        let metadata = text.trim_matches('\n').to_owned();
+                        let metadata = text.trim_matches(['\r', '\n']).to_owned();
                         if let Some(Frame::Yamd { metadata: m, .. }) = stack.last_mut() {
                             *m = Some(metadata);
                         }
@@ -376,7 +376,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         push_yamd_node(&mut stack, Images::new(images).into());
                     }
                     (Node::Code, Frame::Code { lang, code }) => {
-                        let code = code.trim_end_matches('\n').to_owned();
+                        let code = code.trim_end_matches(['\r', '\n']).to_owned();
                         push_yamd_node(&mut stack, Code::new(lang, code).into());
                     }
                     (Node::Modifier, Frame::Modifier { text }) => {
@@ -451,7 +451,7 @@ fn extract_heading_level(content: &Content, source: &str) -> u8 {
 
 fn trim_trailing_newline_from_text(body: &mut Vec<ParagraphNodes>) {
     if let Some(ParagraphNodes::Text(t)) = body.last_mut() {
-        let trimmed = t.trim_end_matches('\n');
+        let trimmed = t.trim_end_matches(['\r', '\n']);
         if trimmed.is_empty() {
             body.pop();
         } else {
-- 
2.43.0


From b4ec168ea2ca2b312449e243bc1e3e9031b3ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 11/17] fix: do not build empty highlight paragraphs

---
 src/op/to_yamd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 2c97602..b991024 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -296,7 +296,9 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         match top {
                             Frame::Highlight { paragraphs, .. } => {
                                 trim_trailing_newline_from_text(&mut body);
-                                paragraphs.push(Paragraph::new(body));
+                                if !body.is_empty() {
+                                    paragraphs.push(Paragraph::new(body));
+                                }
                             }
                             Frame::ListItem { text, .. } => {
                                 trim_trailing_newline_from_text(&mut body);
-- 
2.43.0


From d846d6593ce92052d2f684217df84b03447b2547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 12/17] fix: try_to_yamd rejects an End op that does not match
 its Start

---
 src/op/to_yamd.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index b991024..7b7c411 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -432,8 +432,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                             items.push(item);
                         }
                     }
-                    // coverage: defensive catchall for any (Node, Frame) mismatch; indicates a programmer or parser error
-                    _ => {}
+                    _ => return Err(UnbalancedOpStream),
                 }
             }
         }
-- 
2.43.0


From 3195166f5dc986ef41e92b4464384177a1dc7ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 13/17] fix: an embed does not span a terminator

---
 src/nodes/embed.rs | 26 +++++++++++++++++---------
 src/op/document.rs |  6 +++++-
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/nodes/embed.rs b/src/nodes/embed.rs
index 3a5e545..a82a4e8 100644
--- a/src/nodes/embed.rs
+++ b/src/nodes/embed.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::escape::escape_terminators;
+
 /// # Embed
 ///
 /// Starts with [LeftCurlyBrace](type@crate::lexer::TokenKind::LeftCurlyBrace) of length 2.
@@ -45,15 +47,21 @@ impl Display for Embed {
         write!(
             f,
             "{{{{{}|{}}}}}",
-            self.kind
-                .replace("\\", "\\\\")
-                .replace("{", "\\{")
-                .replace("|", "\\|"),
-            self.args
-                .replace("\\", "\\\\")
-                .replace("{", "\\{")
-                .replace("%", "\\%")
-                .replace("}", "\\}")
+            escape_terminators(
+                &self
+                    .kind
+                    .replace("\\", "\\\\")
+                    .replace("{", "\\{")
+                    .replace("|", "\\|")
+            ),
+            escape_terminators(
+                &self
+                    .args
+                    .replace("\\", "\\\\")
+                    .replace("{", "\\{")
+                    .replace("%", "\\%")
+                    .replace("}", "\\}")
+            )
         )
     }
 }
diff --git a/src/op/document.rs b/src/op/document.rs
index 20d172a..8d3ff14 100644
--- a/src/op/document.rs
+++ b/src/op/document.rs
@@ -58,7 +58,11 @@ pub fn document(p: &mut Parser) {
         if let Some(range) = p.eat(is_terminator) {
             let content = p.span(range);
             p.ops.push(Op::new_value(content));
-        } else if code(p) || collapsible(p) || embed(p) || highlight(p) {
+        } else if code(p)
+            || collapsible(p)
+            || p.with_eof(StopCondition::Terminator, embed)
+            || highlight(p)
+        {
         } else {
             p.with_eof(StopCondition::Terminator, |p| {
                 if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
-- 
2.43.0


From 86eb01b6138fc93bd8d6620a9bb88d3e7102effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 14/17] fix: metadata starts with a line of three dashes only

---
 src/op/metadata.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/op/metadata.rs b/src/op/metadata.rs
index 5d9a83c..01fa3c6 100644
--- a/src/op/metadata.rs
+++ b/src/op/metadata.rs
@@ -7,12 +7,20 @@ fn is_three_dashes(t: &Token) -> bool {
     t.kind == TokenKind::Minus && t.position.column == 0 && t.range.len() == 3
 }
 
+fn is_eol_or_terminator(t: &Token) -> bool {
+    t.kind == TokenKind::Eol || t.kind == TokenKind::Terminator
+}
+
 pub fn metadata(p: &mut Parser) -> bool {
     let start = p.pos;
     let Some(start_range) = p.eat(is_three_dashes) else {
         return false;
     };
 
+    if !p.at(is_eol_or_terminator) {
+        p.pos = start;
+        return false;
+    }
     let Some((body_range, end_range)) = p.eat_until(is_three_dashes) else {
         p.pos = start;
         return false;
-- 
2.43.0


From 86457a10d038942e0a2a2010a298704df4ee6798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 15/17] fix: an empty nested collapsible is recognised like a
 top level one

---
 src/op/collapsible.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/op/collapsible.rs b/src/op/collapsible.rs
index 310f83d..9db9460 100644
--- a/src/op/collapsible.rs
+++ b/src/op/collapsible.rs
@@ -35,7 +35,7 @@ pub fn collapsible(p: &mut Parser) -> bool {
     let start_content = p.span(start_range);
     p.ops.push(Op::new_start(Node::Collapsible, start_content));
 
-    modifier(p);
+    p.with_no_stops(modifier);
 
     if !p.at(|t: &Token| t.position.column == 0) {
         p.pos = start;
-- 
2.43.0


From 594bcd38d66debc7fcdd44e4d0bcaa4781df8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 16/17] fix: the random tool does not panic for literal lengths
 below four

---
 utils/src/commands/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/src/commands/random.rs b/utils/src/commands/random.rs
index fdb84c4..8f9f4b9 100644
--- a/utils/src/commands/random.rs
+++ b/utils/src/commands/random.rs
@@ -53,7 +53,7 @@ pub fn random(length: usize, max_literal_len: usize) {
             18 => ")",
             19 => "_",
             20 => "|",
-            _ => &random_string(rng.gen_range(3..max_literal_len), &mut rng),
+            _ => &random_string(rng.gen_range(3..max_literal_len.max(4)), &mut rng),
         };
         out.push_str(token);
     }
-- 
2.43.0


From 24eb63f454ce2637684645304be9d9411f0e705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:43 +0000
Subject: [PATCH 17/17] fix: token statistics are printed for files whose path
 is not valid Unicode

---
 utils/src/commands/token_stat.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/utils/src/commands/token_stat.rs b/utils/src/commands/token_stat.rs
index 09ab1e0..eeb9590 100644
--- a/utils/src/commands/token_stat.rs
+++ b/utils/src/commands/token_stat.rs
@@ -21,10 +21,7 @@ pub fn token_stat(path: PathBuf) {
 
     println!(
         "\n{}\n",
-        tab(
-            "Token statistics for",
-            path.to_str().expect("path to be valid unicode")
-        )
+        tab("Token statistics for", path.to_string_lossy().as_ref())
     );
     println!("{}\n", tab("Total token count", total.to_string().as_str()));
 
-- 
2.43.0


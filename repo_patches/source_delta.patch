From dc5c630be0b4546b0270648189e66bed5e542446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:30 +0000
Subject: [PATCH 01/15] fix: read the character after ';' when lexing a comment
 line

The comment parser looked at the ';' again instead of the character
following it, so an empty comment swallowed the next line, and a ';' at
the end of the text indexed beyond it.
---
 src/hml_reader/lexer_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index f5f1701..d25067f 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -28,9 +28,9 @@ where
     // Skip past the ';'
     // the comment line is from posn to the newline (or EOF)
     let comment_start = lexer.consumed_char(posn, ch);
-    let Some(ch) = lexer.peek_at(&posn) else {
+    let Some(ch) = lexer.peek_at(&comment_start) else {
         acc.push((comment_start, comment_start));
-        return (acc, None);
+        return (acc, Some(comment_start));
     };
     let (comment_end, _) = lexer.do_while(comment_start, ch, &|_, ch| !is_newline(ch));
     acc.push((comment_start, comment_end));
-- 
2.43.0


From 565940d26d48c22f77fc036f3f3fe4f7acd330b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:31 +0000
Subject: [PATCH 02/15] fix: track lines through white space

White space was skipped with do_while, which treats everything it
consumes as one line, so all positions after a newline had the wrong
line and column.
---
 src/hml_reader/lexer_parsers.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index d25067f..efeb5de 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -68,10 +68,19 @@ where
     L: lexer_rs::Lexer<State = P> + lexer_rs::CharStream<P>,
     P: Posn,
 {
-    let (end, Some((start, _n))) = lexer.do_while(posn, ch, &|_, ch| ch.is_whitespace()) else {
+    if !ch.is_whitespace() {
         return Ok(None);
-    };
-    let token = Token::whitespace(Span::new(start, end));
+    }
+    // Whitespace may include newlines, so do_while (which assumes one
+    // line) cannot be used
+    let mut end = lexer.consumed_char(posn, ch);
+    while let Some(ch) = lexer.peek_at(&end) {
+        if !ch.is_whitespace() {
+            break;
+        }
+        end = lexer.consumed_char(end, ch);
+    }
+    let token = Token::whitespace(Span::new(posn, end));
     Ok(Some((end, token)))
 }
 
-- 
2.43.0


From f7a36b60549b16460c20d6c09a1294618f2ca35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:31 +0000
Subject: [PATCH 03/15] fix: allow all combining marks U+0300 to U+036F in
 names

The range was mistyped as starting at U+0369.
---
 src/hml_reader/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hml_reader/utils.rs b/src/hml_reader/utils.rs
index 68a6f61..c5fa942 100644
--- a/src/hml_reader/utils.rs
+++ b/src/hml_reader/utils.rs
@@ -51,7 +51,7 @@ pub fn is_name(ch: char) -> bool {
         let ch = ch as u32;
         ((ch==45) || (ch==46) || (ch==0xb7)) || // - .
             (48..=57).contains(&ch) ||
-            (0x369..=0x36f).contains(&ch) ||
+            (0x300..=0x36f).contains(&ch) ||
             (0x203f..=0x2040).contains(&ch)
     }
 }
-- 
2.43.0


From 2d294783ad3c9f0066bd6c5e9e24046822e15e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:32 +0000
Subject: [PATCH 04/15] fix: report close tags that do not match the open boxed
 element

A close tag with no open element panicked, and one with another name or
depth closed whatever element was open.
---
 src/error.rs              | 13 +++++++++++++
 src/hml_reader/builder.rs | 13 ++++++++++++-
 src/hml_reader/parser.rs  |  8 ++++++--
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0b0beda..5f5cc0e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -123,6 +123,12 @@ where
         /// Depth
         depth: usize,
     },
+    /// A close tag that does not match the innermost boxed element
+    #[error("Close tag does not match an open boxed element")]
+    UnmatchedCloseTag {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Iterated beyond the end of the reader stream
     #[error("Attempt to parse beyond end of tokens, probably a bug")]
     BeyondEndOfTokens,
@@ -201,6 +207,12 @@ where
         Err(Self::UnexpectedTagIndent { span, depth })
     }
 
+    //fp unmatched_close_tag
+    /// Return an unmatched_close_tag error over the given span
+    pub fn unmatched_close_tag<T>(span: Span<P>) -> HmlResult<T, P> {
+        Err(Self::UnmatchedCloseTag { span })
+    }
+
     //fp unexpected_attribute
     /// Return an unexpected_attribute eror over the given span
     pub fn unexpected_attribute<T>(span: Span<P>, prefx: &str, name: &str) -> HmlResult<T, P> {
@@ -239,6 +251,7 @@ where
             Self::IoError { span, .. } => Some(span),
             Self::UnexpectedCharacter { span, .. } => Some(span),
             Self::UnexpectedTagIndent { span, .. } => Some(span),
+            Self::UnmatchedCloseTag { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index 983b995..9c37889 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -44,7 +44,6 @@ where
     T: std::fmt::Debug,
 {
     span: Span<P>,
-    #[allow(dead_code)]
     name: Name,
     pub extra: T,
 }
@@ -68,6 +67,9 @@ where
     pub fn span(&self) -> &Span<P> {
         &self.span
     }
+    pub fn name(&self) -> &Name {
+        &self.name
+    }
 }
 
 //ti StackElement
@@ -147,6 +149,15 @@ where
         self.tag_name = tag.name;
         Ok(Event::start_element(self.open_tag.span, tag))
     }
+    /// Return true if a close tag of the given name and depth closes this element
+    ///
+    /// The URIs are not compared as the close tag is resolved within
+    /// the scope of the content of the element
+    pub fn is_closed_by(&self, name: &Name, depth: usize) -> bool {
+        self.tag_name.prefix == name.prefix
+            && self.tag_name.name == name.name
+            && self.parent_depth + 1 == depth
+    }
     pub fn as_end_element(
         &self,
         ns_stack: &mut NamespaceStack,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 6feb310..73b6348 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -118,8 +118,12 @@ where
             self.pending_close_tag = Some(close_tag);
             self.pop_tag_stack(ns_stack, &span)
         } else {
-            // should validate close_tag matches the StackElement at the top of the tag stack
-            self.pop_tag_stack(ns_stack, close_tag.span())
+            match self.tag_stack.last() {
+                Some(element) if element.is_closed_by(close_tag.name(), close_tag.extra.depth) => {
+                    self.pop_tag_stack(ns_stack, close_tag.span())
+                }
+                _ => HmlError::unmatched_close_tag(*close_tag.span()),
+            }
         }
     }
 
-- 
2.43.0


From 86e5e2cea4cb1252f2f2ea39e8331092b79f3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:32 +0000
Subject: [PATCH 05/15] fix: report content outside of any element

Content events are documented as always being within an element, but
strings before the first element were emitted as content.
---
 src/error.rs             | 13 +++++++++++++
 src/hml_reader/parser.rs |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 5f5cc0e..26f046e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -140,6 +140,12 @@ where
         /// Attribute
         attr: String,
     },
+    /// Content provided outside of any element
+    #[error("Found content outside of any element")]
+    UnexpectedContent {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Newline in a quoted string
     #[error("Unexpected newline in quoted string")]
     UnexpectedNewlineInQuotedString {
@@ -220,6 +226,12 @@ where
         Err(Self::UnexpectedAttribute { span, attr })
     }
 
+    //fp unexpected_content
+    /// Return an unexpected_content error over the given span
+    pub fn unexpected_content<T>(span: Span<P>) -> HmlResult<T, P> {
+        Err(Self::UnexpectedContent { span })
+    }
+
     //fp io_error
     /// An IO error
     pub fn io_error(span: Span<P>, source: std::io::Error) -> Self {
@@ -253,6 +265,7 @@ where
             Self::UnexpectedTagIndent { span, .. } => Some(span),
             Self::UnmatchedCloseTag { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
+            Self::UnexpectedContent { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
             Self::ExpectedEquals { span, .. } => Some(span),
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 73b6348..4ec2f4b 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -236,6 +236,9 @@ where
                         HmlError::unexpected_attribute(span, &prefix, &name)
                     }
                 }
+                TokenType::Characters | TokenType::RawCharacters if self.tag_stack.is_empty() => {
+                    HmlError::unexpected_content(*token.get_span())
+                }
                 TokenType::Characters => {
                     let mut data = token.take_contents();
                     let data = data.pop_front().unwrap();
-- 
2.43.0


From f9d8020b23608d0af1c10897f3c25b7bb56f4da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:44 +0000
Subject: [PATCH 06/15] fix: make the mappings of the innermost scope iterable

iter_top_mappings asserted that there were no scopes, so it always
panicked, and the order its iterator follows was never recorded.
---
 src/names/namespace_stack.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index ef25eb0..81fc80b 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -69,7 +69,13 @@ struct NamespaceStackFrame {
 impl NamespaceStackFrame {
     //mp add_mapping_by_id
     pub fn add_mapping_by_id(&mut self, map: NSMap) {
-        self.mappings.insert(map.prefix_id(), map.uri_id());
+        if self
+            .mappings
+            .insert(map.prefix_id(), map.uri_id())
+            .is_none()
+        {
+            self.order.push(map.prefix_id());
+        }
     }
 
     //mp add_mapping_by_id_if_unset
@@ -291,7 +297,7 @@ impl<'ns> NamespaceStack<'ns> {
     //ap iter_top_mappings
     /// Get a slice of the mappings of the topmost frame
     pub fn iter_top_mappings(&self) -> NamespaceStackFrameIter<'_> {
-        assert!(self.frames.is_empty(), "Namespace stack cannot be empty");
+        assert!(!self.frames.is_empty(), "Namespace stack cannot be empty");
         self.frames.last().unwrap().iter_mappings()
     }
 
-- 
2.43.0


From 2c1fae2a54e99fd3772de4def70043406c03ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:45 +0000
Subject: [PATCH 07/15] fix: do not repeat shadowed prefixes when iterating
 mappings

The set of prefixes already seen was never added to.
---
 src/names/namespace_stack.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index 81fc80b..4cc6bda 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -135,10 +135,10 @@ impl<'ns, 'b> Iterator for NamespaceStackIterator<'ns, 'b> {
             None
         } else if let Some(iter) = &mut self.frame_iter {
             if let Some((p_id, u_id)) = iter.next() {
-                if self.used.contains(p_id) {
-                    self.next()
-                } else {
+                if self.used.insert(*p_id) {
                     Some(NSMap::new(*p_id, *u_id))
+                } else {
+                    self.next()
                 }
             } else {
                 self.frame -= 1;
-- 
2.43.0


From c2e9aa1ef2d137f66e50ddc3380d9887143a573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:06 +0000
Subject: [PATCH 08/15] fix: iterate over namespace mappings without recursion

Skipping an empty scope or a shadowed prefix called next() again, so a
deep namespace stack overflowed the call stack.
---
 src/names/namespace_stack.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index 4cc6bda..5e25f1c 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -43,18 +43,15 @@ impl<'frame> NamespaceStackFrameIter<'frame> {
 impl<'frame> Iterator for NamespaceStackFrameIter<'frame> {
     type Item = NSMap;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.i >= self.n {
-            None
-        } else {
+        while self.i < self.n {
             let prefix_id = self.frame.order[self.i];
             self.i += 1;
             if let Some(uri_id) = self.frame.find_mapping(prefix_id) {
                 let map = NSMap::new(prefix_id, *uri_id);
-                Some(map)
-            } else {
-                self.next()
+                return Some(map);
             }
         }
+        None
     }
 }
 
@@ -131,24 +128,21 @@ impl<'ns, 'b> NamespaceStackIterator<'ns, 'b> {
 impl<'ns, 'b> Iterator for NamespaceStackIterator<'ns, 'b> {
     type Item = NSMap;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.frame == 0 {
-            None
-        } else if let Some(iter) = &mut self.frame_iter {
-            if let Some((p_id, u_id)) = iter.next() {
-                if self.used.insert(*p_id) {
-                    Some(NSMap::new(*p_id, *u_id))
+        while self.frame > 0 {
+            if let Some(iter) = &mut self.frame_iter {
+                if let Some((p_id, u_id)) = iter.next() {
+                    if self.used.insert(*p_id) {
+                        return Some(NSMap::new(*p_id, *u_id));
+                    }
                 } else {
-                    self.next()
+                    self.frame -= 1;
+                    self.frame_iter = None;
                 }
             } else {
-                self.frame -= 1;
-                self.frame_iter = None;
-                self.next()
+                self.frame_iter = Some(self.stack.borrow_frame(self.frame - 1).mappings.iter());
             }
-        } else {
-            self.frame_iter = Some(self.stack.borrow_frame(self.frame - 1).mappings.iter());
-            self.next()
         }
+        None
     }
 }
 
-- 
2.43.0


From a2cdc013828e696fccb317f8791928010b55c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:06 +0000
Subject: [PATCH 09/15] fix: do not print to standard output when an xmlns
 attribute is added

The library wrote debugging output into whatever the caller was writing
to standard output.
---
 src/names/attribute.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index b13dec9..9a885ab 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -27,12 +27,10 @@ impl Attribute {
     ) -> MarkupResult<Self> {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
-                println!("Add ns '' to be {}", value);
                 ns_stack.add_ns("", &value);
                 let name = Name::new(ns_stack, name, name)?;
                 return Ok(Self { name, value });
             } else if prefix == "xmlns" {
-                println!("Add ns {} to be value {}", name, value);
                 ns_stack.add_ns(name, &value);
             }
         }
-- 
2.43.0


From 7a7cfd03a849ebaa3cdcf82afd7834c71ee1728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 10/15] fix: check the bytes given to escape_required are UTF-8

escape_required is a safe public function taking any bytes, so it must
not assume that they are valid UTF-8.
---
 src/escape.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 1ff2236..45f3e0c 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -87,8 +87,7 @@ pub fn escape_required(bytes: &[u8], char_set: usize, i: usize, n: usize) -> Opt
             }
         }
     }
-    let string = unsafe { String::from_utf8_unchecked(r) };
-    Some(string)
+    String::from_utf8(r).ok()
 }
 
 //fp escape
-- 
2.43.0


From c0dab13b82ca0772ab711c4f58ec4bdad6cab3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 11/15] fix: require well-formed numbers in character
 references

References without any digits, such as "&#;" and "&;", were replaced by
NUL, and an 'x' in the middle of a hexadecimal number was ignored.
---
 src/escape.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 45f3e0c..b9617c2 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -184,6 +184,7 @@ impl<'a> Entities<'a> {
             let start = i;
             let mut is_hex = false;
             let mut is_dec = true;
+            let mut has_digits = false;
             let mut value = 0;
             while i < n {
                 let b = bytes[i];
@@ -193,7 +194,7 @@ impl<'a> Entities<'a> {
                             return (i + 1, Some(c), None);
                         }
                     }
-                    if is_hex || is_dec {
+                    if has_digits && (is_hex || is_dec) {
                         if let Ok(c) = char::try_from(value) {
                             return (i + 1, None, Some(c));
                         }
@@ -208,12 +209,12 @@ impl<'a> Entities<'a> {
                 } else if (b'a'..=b'f').contains(&b) || (b'A'..=b'F').contains(&b) {
                     value = (value << 4) | (((b & 0xf) + 9) as u32);
                     is_dec = false;
+                    has_digits = true;
                 } else if b == b'x' {
-                    if i == start + 1 && is_dec {
-                        is_hex = true;
-                    }
+                    is_hex = i == start + 1 && is_dec;
                     is_dec = false;
                 } else if b.is_ascii_digit() {
+                    has_digits = true;
                     if is_dec {
                         value = (value * 10).wrapping_add((b - b'0') as u32);
                     } else {
-- 
2.43.0


From c5b5a7de188baab61157c72f470d15a24e3877e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:08 +0000
Subject: [PATCH 12/15] fix: replace entities that follow a bare ampersand

An ampersand that does not start a reference hid the next reference, so
"a & b &lt;" was left unchanged.
---
 src/escape.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/escape.rs b/src/escape.rs
index b9617c2..c2b9797 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -188,6 +188,9 @@ impl<'a> Entities<'a> {
             let mut value = 0;
             while i < n {
                 let b = bytes[i];
+                if b == b'&' {
+                    break;
+                }
                 if b == b';' {
                     if inc_map {
                         if let Some(c) = self.map.get(&bytes[start..i]) {
-- 
2.43.0


From 5d7515c54015f973d3e3137f2f74abee925a7efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:21 +0000
Subject: [PATCH 13/15] fix: exit with an error status when hmlconvert fails to
 parse

A parse error left the exit status at zero, so a script could not tell
that the XML was incomplete.
---
 src/bin/hmlconvert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index d507e81..90f2cab 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -83,10 +83,10 @@ fn main() {
                         .fmt_context(&mut s, span.start(), span.end())
                         .unwrap();
                     write!(&mut std::io::stderr(), "{}", s).unwrap();
-                    eprintln!("Parse error: {e}");
-                    eprintln!();
                 }
-                break;
+                eprintln!("Parse error: {e}");
+                eprintln!();
+                std::process::exit(1);
             }
         }
     }
-- 
2.43.0


From e3fafd7c4881799676ae7ba8ef468a11526fa3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:21 +0000
Subject: [PATCH 14/15] fix: honour the --output option of hmlconvert

The option was accepted but the XML always went to standard output.
---
 src/bin/hmlconvert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index 90f2cab..080eb73 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -61,7 +61,10 @@ fn main() {
     let lexer_parsers = hml_rs::hml_reader::parse_fns();
     let mut lexer_iter = lexer.iter(&lexer_parsers);
     let mut parser: Parser<LexerPos> = Parser::default().set_version(xml_version);
-    let output = std::io::stdout();
+    let output: Box<dyn Write> = match matches.get_one::<String>("output") {
+        None => Box::new(std::io::stdout()),
+        Some(filename) => Box::new(File::create(filename).unwrap()),
+    };
     let mut writer = xml::writer::EmitterConfig::new()
         .perform_indent(true)
         .create_writer(output);
-- 
2.43.0


From 8bc3d7fb8fb1b88266b011af0878f5ddea9d1aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:58 +0000
Subject: [PATCH 15/15] fix: do not wrap long hexadecimal character references

Hexadecimal letters were added to the value of a character reference without
the range check digits have, so a reference such as '&#x100000abc;' lost its
leading digits and was replaced by U+0ABC.
---
 src/escape.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index c2b9797..cee38a0 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -223,15 +223,15 @@ impl<'a> Entities<'a> {
                     } else {
                         value = (value << 4) | ((b & 0xf) as u32);
                     }
-                    if value > 0x10ffff {
-                        is_dec = false;
-                        is_hex = false;
-                        value = 0;
-                    }
                 } else {
                     is_dec = false;
                     is_hex = false;
                 }
+                if value > 0x10ffff {
+                    is_dec = false;
+                    is_hex = false;
+                    value = 0;
+                }
                 i += 1;
             }
             (i, None, None)
-- 
2.43.0


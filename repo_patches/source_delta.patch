From f708ec5c92f266cb6456cb9f2db7c6f5ebfb07c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 01/30] fix: require a target in inline image and icon macros

The target group was optional, so 'image:[alt]' matched the macro and the
replacer then indexed a capture group that had not participated. A target
is mandatory (and may be a single character).
---
 parser/src/content/macros.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 0217002..5a73fdf 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -111,9 +111,11 @@ static INLINE_IMAGE_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
             (                           # Group 1: the target
                 [^:\s\[\n]                  # First char: not colon, whitespace, [, or newline
-                [^\[\n]*?                   # Middle chars: any except [ or newline, lazily
-                [^\s\[\n]                   # Last char: not whitespace, [, or newline
-            )?                          # Entire target group is optional
+                (?:
+                    [^\[\n]*?               # Middle chars: any except [ or newline, lazily
+                    [^\s\[\n]               # Last char: not whitespace, [, or newline
+                )?                      # Target may be a single character
+            )
 
             \[                          # Opening square bracket
 
-- 
2.43.0


From b838be46af5d17c404384e47383396ab2d9e4b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 02/30] fix: accept one-character targets in link and mailto
 macros

The regex alternative meant for an empty target consumed one character, so
a one-character target ('link:x[text]') matched without its capture group,
which the replacer then indexed. An empty target is not a link macro.
---
 parser/src/content/macros.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 5a73fdf..b808c42 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -419,16 +419,13 @@ static INLINE_LINK_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
         :                       # Colon after macro name
 
-        (?:                     # Non-capturing outer group
-            ().                 #   capture group 2: empty target
-          | ([^:\s\[] [^\s\[]*) #   capture group 3: valid target (no colon/space/'[')
-        )
+        ([^:\s\[] [^\s\[]*)     # capture group 2: valid target (no colon/space/'[')
 
         \[                      # Opening square bracket
 
         (?:                     # Non-capturing outer group
-            ()                  #   capture group 4: empty label
-          | (.*?[^\\])          #   capture group 5: minimally match anything, not ending in '\'
+            ()                  #   capture group 3: empty label
+          | (.*?[^\\])          #   capture group 4: minimally match anything, not ending in '\'
         )
 
         \]                      # Closing square bracket
@@ -449,21 +446,21 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
         }
 
         let (mailto, mailto_text, mut target) = if caps.get(1).is_some() {
-            let mailto_text = &caps[3];
+            let mailto_text = &caps[2];
             (
                 caps.get(1).map(|c| c.as_str()),
                 Some(mailto_text),
                 format!("mailto:{mailto_text}"),
             )
         } else {
-            (None, None, caps[3].to_string())
+            (None, None, caps[2].to_string())
         };
 
         let mut attrlist: Option<Attrlist<'_>> = None;
         let link_type = LinkRenderType::Link;
 
         let mut link_text = caps
-            .get(5)
+            .get(4)
             .map(|c| c.as_str().to_string())
             .unwrap_or_default();
 
-- 
2.43.0


From 125edd68b2da0229b56367ddb08166352fc1f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 03/30] fix: don't panic on a bare URL followed by an unopened
 angle bracket

'see http://example.com> foo' matched the angle-bracketed URL alternative
without its opening bracket; the replacer then indexed capture groups that
had not participated.
---
 parser/src/content/macros.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index b808c42..ea9d983 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -296,7 +296,12 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut target = format!(
             "{scheme}{link_text}",
-            link_text = caps.get(4).map(|m| m.as_str()).unwrap_or_else(|| &caps[7])
+            link_text = caps
+                .get(4)
+                .or_else(|| caps.get(6))
+                .or_else(|| caps.get(7))
+                .map(|m| m.as_str())
+                .unwrap_or_default()
         );
 
         let mut suffix = "".to_owned();
@@ -324,8 +329,12 @@ impl Replacer for InlineLinkReplacer<'_> {
                 return;
             }
 
-            let tail = &caps[8];
-            if tail == ";" || tail == ":" {
+            let tail = caps.get(8).map(|m| m.as_str()).unwrap_or_default();
+            if caps.get(6).is_some() {
+                // URL is followed by a closing angle bracket that was never opened.
+                // Leave that bracket out of the URL.
+                suffix = "&gt;".to_owned();
+            } else if tail == ";" || tail == ":" {
                 // Move trailing semicolon or colon and adjacent ) if it exists
                 // out of the URL.
                 target.truncate(target.len() - 1);
-- 
2.43.0


From e7198a9b00711d32cfae355de9dafbe3da395075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 04/30] fix: don't panic on SVG images with inline or
 interactive option

Both options led to todo!(). In safe mode SECURE, which is all this parser
supports so far, they have no effect on the rendering of the image.
---
 .../parser/inline_substitution_renderer.rs    | 54 ++++---------------
 1 file changed, 11 insertions(+), 43 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index dd0ab13..ba8778d 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -508,50 +508,18 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
             ));
         }
 
-        let format = params
-            .attrlist
-            .named_attribute("format")
-            .map(|format| format.value());
-
         // TO DO (https://github.com/scouten/asciidoc-parser/issues/277):
-        // Enforce non-safe mode. Add this contraint to following `if` clause:
-        // `&& node.document.safe < SafeMode::SECURE`
-
-        let img = if format == Some("svg") || params.target.contains(".svg") {
-            // NOTE: In the SVG case we may have to ignore the attrs list.
-            if params.attrlist.has_option("inline") {
-                todo!(
-                    "Port this: {}",
-                    r#"img = (read_svg_contents node, target) || %(<span class="alt">#{node.alt}</span>)
-                    NOTE: The attrs list calculated above may not be usable.
-                    "#
-                );
-            } else if params.attrlist.has_option("interactive") {
-                todo!(
-                    "Port this: {}",
-                    r##"
-                        fallback = (node.attr? 'fallback') ? %(<img src="#{node.image_uri node.attr 'fallback'}" alt="#{encode_attribute_value node.alt}"#{attrs}#{@void_element_slash}>) : %(<span class="alt">#{node.alt}</span>)
-                        img = %(<object type="image/svg+xml" data="#{src = node.image_uri target}"#{attrs}>#{fallback}</object>)
-                        NOTE: The attrs list calculated above may not be usable.
-                    "##
-                );
-            } else {
-                format!(
-                    r#"<img {attrs}{void_element_slash}>"#,
-                    attrs = attrs.join(" "),
-                    void_element_slash = "",
-                )
-            }
-        } else {
-            format!(
-                r#"<img {attrs}{void_element_slash}>"#,
-                attrs = attrs.join(" "),
-                void_element_slash = "",
-                // img = %(<img src="#{src = node.image_uri target}"
-                // alt="#{encode_attribute_value node.alt}"#{attrs}#{@
-                // void_element_slash}>)
-            )
-        };
+        // When implementing non-safe mode, port the `inline` and `interactive` options
+        // for SVG images. In `SafeMode::SECURE`, those options have no effect.
+
+        let img = format!(
+            r#"<img {attrs}{void_element_slash}>"#,
+            attrs = attrs.join(" "),
+            void_element_slash = "",
+            // img = %(<img src="#{src = node.image_uri target}"
+            // alt="#{encode_attribute_value node.alt}"#{attrs}#{@
+            // void_element_slash}>)
+        );
 
         render_icon_or_image(params.attrlist, &img, &src, "image", dest);
     }
-- 
2.43.0


From cafdeeee8c6aeec9136e0c31456cc838548f5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 05/30] fix: don't lose text when a lookahead replacement is
 retried

After skipping ahead, the offset of the last match still referred to the
previous haystack, so text was dropped (or the slice was out of range).
---
 parser/src/internal/regex.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/internal/regex.rs b/parser/src/internal/regex.rs
index a5b0db7..d37ec25 100644
--- a/parser/src/internal/regex.rs
+++ b/parser/src/internal/regex.rs
@@ -37,6 +37,7 @@ pub fn replace_with_lookahead<'h, LR: LookaheadReplacer>(
                 LookaheadResult::SkipAheadAndRetry(n) => {
                     assert!(n > 0);
                     haystack = &haystack[m.start() + n..];
+                    last_match = 0;
                     continue 'retry;
                 }
             }
-- 
2.43.0


From 197c133698781d40c324fed3168b78a3b21371a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 06/30] fix: skip a whole character when retrying constrained
 monospace

The character before the opening backtick may be longer than one byte.
---
 parser/src/content/substitution_step.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 7215f7e..af1f2ec 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -316,7 +316,11 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
             && self.scope == QuoteScope::Constrained
             && after.starts_with(['"', '\'', '`'])
         {
-            let skip_ahead = if caps[0].starts_with('\\') { 2 } else { 1 };
+            let skip_ahead = if caps[0].starts_with('\\') {
+                2
+            } else {
+                caps[0].chars().next().map_or(1, char::len_utf8)
+            };
             dest.push_str(&caps[0][0..skip_ahead]);
             return LookaheadResult::SkipAheadAndRetry(skip_ahead);
         }
-- 
2.43.0


From 61761836ca2b10cae65eefb3cbfdb918b12ec999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 07/30] fix: don't treat an indented line as a section title

When looking for the end of a section, a line that starts with white space
has no section marker, which made the level computation underflow.
---
 parser/src/blocks/section.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index bba3540..c59ec11 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -292,6 +292,10 @@ fn parse_title_line<'src>(
         }
     }
 
+    if count == 0 {
+        return None;
+    }
+
     if count == 1 {
         warnings.push(Warning {
             source: source.take_normalized_line().item,
-- 
2.43.0


From da82b31cd38cdde87357be9e1e60736ff720752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 08/30] fix: always consume input when parsing a sequence of
 blocks

If no block can be parsed at the current position (for example, a line that
contains only a non-breaking space), the loop never ended.
---
 parser/src/blocks/parse_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 269fec4..8fd1ee2 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -34,6 +34,10 @@ where
         if let Some(mi) = maw.item {
             source = mi.after;
             blocks.push(mi.item);
+        } else {
+            // There is nothing to parse on this line (for example, it contains only
+            // Unicode white space). Skip it so we don't loop forever.
+            source = source.take_line().after.discard_empty_lines();
         }
     }
 
-- 
2.43.0


From 56a1cd7ba3425d9fb1690c5d9225ac1118ddcbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 09/30] fix: don't drop a block anchor that has no block

A block anchor without a following block is now reported and treated as
paragraph text, the same way as a block title or attribute list is.
---
 parser/src/blocks/block.rs    | 1 +
 parser/src/blocks/metadata.rs | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 6d43cb1..4f5d663 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -307,6 +307,7 @@ impl<'src> Block<'src> {
                 metadata.title_source = None;
                 metadata.title = None;
                 metadata.anchor = None;
+                metadata.anchor_reftext = None;
                 metadata.attrlist = None;
                 metadata.block_start = metadata.source;
             }
diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index dc0df46..1f6f81a 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -171,9 +171,9 @@ impl<'src> BlockMetadata<'src> {
         }
     }
 
-    /// Return `true` if both `title` and `attrlist` are empty.
+    /// Return `true` if `title`, `anchor`, and `attrlist` are all empty.
     pub(crate) fn is_empty(&self) -> bool {
-        self.title.is_none() && self.attrlist.is_none()
+        self.title.is_none() && self.anchor.is_none() && self.attrlist.is_none()
     }
 
     /// Return `true` if this block metadata has either the `discrete` or
-- 
2.43.0


From 7eeb0745c9384877baaa1173c31853611bfc2393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 10/30] fix: don't loop forever on a literal style that has no
 block

The check for metadata without a block was skipped for '[literal]', so no
block was produced and no input was consumed.
---
 parser/src/blocks/block.rs | 52 +++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 4f5d663..b0470a5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -284,33 +284,33 @@ impl<'src> Block<'src> {
                     warnings,
                 };
             }
+        }
 
-            // First, let's look for a fun edge case. Perhaps the text contains block
-            // metadata but no block immediately following. If we're not careful, we could
-            // spin in a loop (for example, `parse_blocks_until`) thinking there will be
-            // another block, but there isn't.
-
-            // The following check disables that spin loop.
-            let simple_block_mi = SimpleBlock::parse(&metadata, parser);
-
-            if simple_block_mi.is_none() && !metadata.is_empty() {
-                // We have a metadata with no block. Treat it as a simple block but issue a
-                // warning.
-
-                warnings.push(Warning {
-                    source: metadata.source,
-                    warning: WarningType::MissingBlockAfterTitleOrAttributeList,
-                });
-
-                // Remove the metadata content so that SimpleBlock will read the title/attrlist
-                // line(s) as regular content.
-                metadata.title_source = None;
-                metadata.title = None;
-                metadata.anchor = None;
-                metadata.anchor_reftext = None;
-                metadata.attrlist = None;
-                metadata.block_start = metadata.source;
-            }
+        // First, let's look for a fun edge case. Perhaps the text contains block
+        // metadata but no block immediately following. If we're not careful, we could
+        // spin in a loop (for example, `parse_blocks_until`) thinking there will be
+        // another block, but there isn't.
+
+        // The following check disables that spin loop.
+        let simple_block_mi = SimpleBlock::parse(&metadata, parser);
+
+        if simple_block_mi.is_none() && !metadata.is_empty() {
+            // We have a metadata with no block. Treat it as a simple block but issue a
+            // warning.
+
+            warnings.push(Warning {
+                source: metadata.source,
+                warning: WarningType::MissingBlockAfterTitleOrAttributeList,
+            });
+
+            // Remove the metadata content so that SimpleBlock will read the title/attrlist
+            // line(s) as regular content.
+            metadata.title_source = None;
+            metadata.title = None;
+            metadata.anchor = None;
+            metadata.anchor_reftext = None;
+            metadata.attrlist = None;
+            metadata.block_start = metadata.source;
         }
 
         // If no other block kind matches, we can always use SimpleBlock.
-- 
2.43.0


From 4b2f5208be844e6d8309854916ab6666e461b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 11/30] fix: don't recurse forever when restoring passthroughs

Text that contains the placeholder of its own passthrough was restored
without end. A passthrough can only contain those extracted before it.
---
 parser/src/content/passthroughs.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index d8ca641..db85be1 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -67,7 +67,7 @@ impl Passthroughs {
             return;
         }
 
-        let replacer = PassthroughRestoreReplacer(self, parser);
+        let replacer = PassthroughRestoreReplacer(self, parser, self.0.len());
 
         if let Cow::Owned(new_result) =
             PASS_WITH_INDEX.replace_all(content.rendered().as_ref(), replacer)
@@ -431,13 +431,14 @@ impl Replacer for InlinePassReplacer<'_> {
 }
 
 #[derive(Debug)]
-struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser);
+struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser, usize);
 
 impl Replacer for PassthroughRestoreReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
         let index = caps[1].parse::<usize>().unwrap_or_default();
 
-        let Some(pass) = self.0.0.get(index) else {
+        // A passthrough can only contain passthroughs that were extracted before it.
+        let Some(pass) = self.0.0.get(index).filter(|_| index < self.2) else {
             dest.push_str(&format!(
                 "(INTERNAL ERROR: Unresolved passthrough index {index})"
             ));
@@ -475,7 +476,7 @@ impl Replacer for PassthroughRestoreReplacer<'_> {
 
         if subbed_text.rendered().contains('\u{96}') {
             // Recursively apply passthrough replacement and write the result.
-            let replacer = PassthroughRestoreReplacer(self.0, self.1);
+            let replacer = PassthroughRestoreReplacer(self.0, self.1, index);
 
             let new_result = PASS_WITH_INDEX.replace_all(subbed_text.rendered().as_ref(), replacer);
 
-- 
2.43.0


From 15784b57a1d03c1928bcda1d334fc9e9c674948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 12/30] fix: limit the depth of nested includes

A file that includes itself (directly or via other files) overflowed the
stack. As in Asciidoctor, includes nested deeper than 64 levels are left
unresolved.
---
 parser/src/parser/preprocessor.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c3fe096..fcd32eb 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -42,6 +42,10 @@ pub(crate) fn preprocess(source: &str, parser: &Parser) -> (String, SourceMap) {
     (state.output, state.source_map)
 }
 
+/// Maximum number of nested include files. (Prevents endless recursion if a file
+/// includes itself.)
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 #[derive(Debug)]
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
@@ -130,10 +134,11 @@ impl<'p> PreprocessorState<'p> {
                     })
                     .unwrap_or_default();
 
-                if let Some(include_text) =
-                    self.parser.include_file_handler.as_ref().and_then(|ifh| {
-                        ifh.resolve_target(file_name, &target, &attrlist, self.parser)
-                    })
+                if self.include_depth <= MAX_INCLUDE_DEPTH
+                    && let Some(include_text) =
+                        self.parser.include_file_handler.as_ref().and_then(|ifh| {
+                            ifh.resolve_target(file_name, &target, &attrlist, self.parser)
+                        })
                 {
                     // TODO: Use process_adoc_include or (TBD) depending on
                     // whether it's an Asciidoc file type.
-- 
2.43.0


From b9cc57dd3b2328df3e5590d2d29effac6f017fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 13/30] fix: map the line of an unresolved include to its
 source

An unresolved include directive was written to the output without reporting
the file it came from, so the source map attributed it to another file.
---
 parser/src/parser/preprocessor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index fcd32eb..0994fb6 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -147,6 +147,14 @@ impl<'p> PreprocessorState<'p> {
                     // Re-report the including file if there's more content.
                     has_reported_file = false;
                 } else {
+                    if !has_reported_file {
+                        has_reported_file = true;
+                        self.source_map.append(
+                            self.output_line_number,
+                            SourceLine(to_owned(file_name), source_line_number),
+                        );
+                    }
+
                     self.output_line_number += 1;
                     self.output.push_str(&format!(
                         "Unresolved directive in {file_name} - {line}\n",
-- 
2.43.0


From 76f02f24c474e54bb06eafbf5d6db2ffa9851d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 14/30] fix: copy all source lines of an attribute entry when
 preprocessing

If an attribute entry ended in a line continuation that was followed by a
blank line, the blank line was lost. That made the next line a part of the
attribute value and shifted all line numbers in the source map.
---
 parser/src/parser/preprocessor.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 0994fb6..36d11d1 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -3,7 +3,7 @@ use std::{borrow::Cow, sync::LazyLock};
 use regex::{Regex, Replacer};
 
 use crate::{
-    HasSpan, Parser, Span,
+    Parser, Span,
     attributes::{Attrlist, AttrlistContext},
     document::{Attribute, InterpretedValue},
     parser::{SourceLine, SourceMap},
@@ -105,18 +105,17 @@ impl<'p> PreprocessorState<'p> {
                 self.parser
                     .set_attribute_from_body(&attr.item, &mut warnings);
 
-                self.output.push_str(attr.item.span().data());
-                self.output.push('\n');
+                // Copy every line of the attribute entry so that neither the content nor the
+                // number of lines is altered.
+                let mut attr_source = original_source;
+                while attr_source.byte_offset() < attr.after.byte_offset() {
+                    let MatchedItem { item: line, after } = attr_source.take_line();
+                    attr_source = after;
 
-                self.output_line_number += attr
-                    .item
-                    .span()
-                    .data()
-                    .as_bytes()
-                    .iter()
-                    .filter(|&&b| b == b'\n')
-                    .count()
-                    + 1;
+                    self.output.push_str(line.data());
+                    self.output.push('\n');
+                    self.output_line_number += 1;
+                }
 
                 source_span = attr.after;
             } else if line.starts_with("include::")
-- 
2.43.0


From 8da4dff5502f9149dc5b1a01987dbf03e4c15e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 15/30] fix: restart appendix numbering for each new document

Parsing a second document with the same parser continued the appendix
letters of the first document.
---
 parser/src/parser/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 12be260..d9198d6 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -123,6 +123,10 @@ impl Parser {
 
         // Reset section numbering for each new document.
         self.last_section_number = SectionNumber::default();
+        self.last_appendix_section_number = SectionNumber {
+            section_type: SectionType::Appendix,
+            components: vec![],
+        };
 
         Document::parse(&preprocessed_source, source_map, self)
     }
-- 
2.43.0


From 8c3d60a6295dc85294bb455baaddb0af3fbeec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 16/30] fix: don't let header lines override attributes locked
 by the API

The document title, author line, and revision line replaced the value of an
attribute (e.g. 'author') even if the API reserved it for itself.
---
 parser/src/parser/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index d9198d6..5fde16a 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -418,6 +418,14 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(name);
 
+        // Verify that we have permission to overwrite any existing attribute value.
+        if let Some(existing_attr) = self.attribute_values.get(&attr_name)
+            && (existing_attr.modification_context == ModificationContext::ApiOnly
+                || existing_attr.modification_context == ModificationContext::ApiOrDocumentBody)
+        {
+            return;
+        }
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
             modification_context: ModificationContext::Anywhere,
-- 
2.43.0


From e530828a9566fe5f750286c694f448b6d872514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 17/30] fix: keep an attribute's modification context when a
 document assigns it

An attribute that may only be set by the API or in the header could be
changed in the document body once the header had assigned it.
---
 parser/src/parser/parser.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 5fde16a..f1dfaf8 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -400,7 +400,7 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: self.modification_context(&attr_name),
             value,
         };
 
@@ -428,7 +428,7 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: self.modification_context(&attr_name),
             value: InterpretedValue::Value(value.as_ref().to_owned()),
         };
 
@@ -460,13 +460,23 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: self.modification_context(&attr_name),
             value: attr.value().clone(),
         };
 
         self.attribute_values.insert(attr_name, attribute_value);
     }
 
+    /// Return the context(s) in which an attribute may be modified. Assigning a
+    /// value from within the document doesn't change this.
+    fn modification_context(&self, attr_name: &str) -> ModificationContext {
+        self.attribute_values
+            .get(attr_name)
+            .map_or(ModificationContext::Anywhere, |av| {
+                av.modification_context.clone()
+            })
+    }
+
     /// Assign the next section number for a given level.
     pub(crate) fn assign_section_number(&mut self, level: usize) -> SectionNumber {
         match self.topmost_section_type {
-- 
2.43.0


From fc1952b0fe5217ed29ea0f2ae438bacb5b96f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 18/30] fix: honor attribute name aliases in attributes set via
 the API

'hardbreaks' was stored under its alias, where it had no effect and did not
lock the attribute.
---
 parser/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index f1dfaf8..1fd5ddf 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -222,7 +222,7 @@ impl Parser {
         };
 
         self.attribute_values
-            .insert(name.as_ref().to_lowercase(), attribute_value);
+            .insert(remap_attr_name(name), attribute_value);
 
         self
     }
@@ -317,7 +317,7 @@ impl Parser {
         };
 
         self.attribute_values
-            .insert(name.as_ref().to_lowercase(), attribute_value);
+            .insert(remap_attr_name(name), attribute_value);
 
         self
     }
-- 
2.43.0


From 6f34d32f2d5129fc83ef667139d0687dd5cffe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 19/30] fix: recognize the audio block macro

The block parser tested for 'video::' twice, so 'audio::' lines were always
parsed as paragraphs.
---
 parser/src/blocks/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index b0470a5..927b019 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -217,7 +217,7 @@ impl<'src> Block<'src> {
 
             if line.item.starts_with("image::")
                 || line.item.starts_with("video::")
-                || line.item.starts_with("video::")
+                || line.item.starts_with("audio::")
             {
                 let mut media_block_maw = MediaBlock::parse(&metadata, parser);
 
-- 
2.43.0


From aa76a863e48704b95a66b9a335e7192c7fe503fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 20/30] fix: keep the reference text of a media block's anchor

---
 parser/src/blocks/media.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/media.rs b/parser/src/blocks/media.rs
index 41ce255..e7e2c72 100644
--- a/parser/src/blocks/media.rs
+++ b/parser/src/blocks/media.rs
@@ -129,7 +129,7 @@ impl<'src> MediaBlock<'src> {
                     title_source: metadata.title_source,
                     title: metadata.title.clone(),
                     anchor: metadata.anchor,
-                    anchor_reftext: None,
+                    anchor_reftext: metadata.anchor_reftext,
                     attrlist: metadata.attrlist.clone(),
                 },
 
-- 
2.43.0


From 23da2242e6fc5d939da561379242e8bfe4f8a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 21/30] fix: keep the reference text of a break's anchor

---
 parser/src/blocks/break.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/break.rs b/parser/src/blocks/break.rs
index 96bff37..6684aaf 100644
--- a/parser/src/blocks/break.rs
+++ b/parser/src/blocks/break.rs
@@ -14,6 +14,7 @@ pub struct Break<'src> {
     title_source: Option<Span<'src>>,
     title: Option<String>,
     anchor: Option<Span<'src>>,
+    anchor_reftext: Option<Span<'src>>,
     attrlist: Option<Attrlist<'src>>,
 }
 
@@ -61,6 +62,7 @@ impl<'src> Break<'src> {
                 title_source: metadata.title_source,
                 title: metadata.title.clone(),
                 anchor: metadata.anchor,
+                anchor_reftext: metadata.anchor_reftext,
                 attrlist: metadata.attrlist.clone(),
             },
 
@@ -100,7 +102,7 @@ impl<'src> IsBlock<'src> for Break<'src> {
     }
 
     fn anchor_reftext(&'src self) -> Option<Span<'src>> {
-        None
+        self.anchor_reftext
     }
 
     fn attrlist(&'src self) -> Option<&'src Attrlist<'src>> {
-- 
2.43.0


From 0874d134a0560c38c1bb7daf6cbbc4a9475c3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:01 +0000
Subject: [PATCH 22/30] fix: register the ID of a thematic or page break in the
 catalog

---
 parser/src/blocks/block.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 927b019..57858b5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -276,9 +276,19 @@ impl<'src> Block<'src> {
             {
                 // Continue quietly if `Break` parser rejects this block.
 
+                let block = Self::Break(mi_break.item);
+
+                Self::register_block_id(
+                    block.id(),
+                    block.title(),
+                    block.span(),
+                    parser,
+                    &mut warnings,
+                );
+
                 return MatchAndWarnings {
                     item: Some(MatchedItem {
-                        item: Self::Break(mi_break.item),
+                        item: block,
                         after: mi_break.after,
                     }),
                     warnings,
-- 
2.43.0


From 8c23824ba44aa1922aa97cf3e562d0f026d25dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 23/30] fix: register a section under the ID it reports

If a section has both an anchor and an ID in its attribute list, the catalog
contained the latter although the section's ID is the former.
---
 parser/src/blocks/section.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index c59ec11..93ce9f9 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -97,11 +97,12 @@ impl<'src> SectionBlock<'src> {
 
         let proposed_base_id = generate_section_id(section_title.rendered(), parser);
 
+        // NOTE: Must use the same precedence as `SectionBlock::id()`.
         let manual_id = metadata
-            .attrlist
+            .anchor
             .as_ref()
-            .and_then(|a| a.id())
-            .or_else(|| metadata.anchor.as_ref().map(|anchor| anchor.data()));
+            .map(|anchor| anchor.data())
+            .or_else(|| metadata.attrlist.as_ref().and_then(|a| a.id()));
 
         let reftext = metadata
             .attrlist
-- 
2.43.0


From ee4ee736689e3379c9403fad3788aa3c21cac012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 24/30] fix: apply substitutions to unterminated delimited
 blocks

The content of a listing, literal, or pass block without a closing delimiter
was rendered without any substitutions (i.e. without escaping).
---
 parser/src/blocks/raw_delimited.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index 8561da4..fbe552e 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -132,10 +132,15 @@ impl<'src> RawDelimitedBlock<'src> {
 
         let content = content_start.trim_remainder(next).trim_trailing_line_end();
 
+        let mut content: Content<'src> = content.into();
+
+        substitution_group = substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
+        substitution_group.apply(&mut content, parser, metadata.attrlist.as_ref());
+
         Some(MatchAndWarnings {
             item: Some(MatchedItem {
                 item: Self {
-                    content: content.into(),
+                    content,
                     content_model,
                     context: context.into(),
                     source: metadata
-- 
2.43.0


From 15cb048239441bcd00cf85563547bee2f4c0fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 25/30] fix: encode double quotes in all HTML attribute values

Only some attribute values were encoded. Any other value taken from the
document could end the attribute it was written to.
---
 .../parser/inline_substitution_renderer.rs    | 62 ++++++++++++++-----
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index ba8778d..4d99b6c 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -486,7 +486,7 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
         let src = self.image_uri(params.target, params.parser, None);
 
         let mut attrs: Vec<String> = vec![
-            format!(r#"src="{src}""#),
+            format!(r#"src="{src}""#, src = encode_attribute_value(src.clone())),
             format!(
                 r#"alt="{alt}""#,
                 alt = encode_attribute_value(params.alt.to_string())
@@ -494,11 +494,17 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
         ];
 
         if let Some(width) = params.width {
-            attrs.push(format!(r#"width="{width}""#));
+            attrs.push(format!(
+                r#"width="{width}""#,
+                width = encode_attribute_value(width.to_owned())
+            ));
         }
 
         if let Some(height) = params.height {
-            attrs.push(format!(r#"height="{height}""#));
+            attrs.push(format!(
+                r#"height="{height}""#,
+                height = encode_attribute_value(height.to_owned())
+            ));
         }
 
         if let Some(title) = params.attrlist.named_attribute("title") {
@@ -585,16 +591,19 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
 
                 format!(
                     r##"<i class="{i_class_attr_val}"{title_attr}></i>"##,
-                    i_class_attr_val = i_class_attrs.join(" "),
+                    i_class_attr_val = encode_attribute_value(i_class_attrs.join(" ")),
                     title_attr = if let Some(title) = params.attrlist.named_attribute("title") {
-                        format!(r#" title="{title}""#, title = title.value())
+                        format!(
+                            r#" title="{title}""#,
+                            title = encode_attribute_value(title.value().to_owned())
+                        )
                     } else {
                         "".to_owned()
                     }
                 )
             } else {
                 let mut attrs: Vec<String> = vec![
-                    format!(r#"src="{src}""#),
+                    format!(r#"src="{src}""#, src = encode_attribute_value(src.clone())),
                     format!(
                         r#"alt="{alt}""#,
                         alt = encode_attribute_value(params.alt.to_string())
@@ -602,15 +611,24 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
                 ];
 
                 if let Some(width) = params.attrlist.named_attribute("width") {
-                    attrs.push(format!(r#"width="{width}""#, width = width.value()));
+                    attrs.push(format!(
+                        r#"width="{width}""#,
+                        width = encode_attribute_value(width.value().to_owned())
+                    ));
                 }
 
                 if let Some(height) = params.attrlist.named_attribute("height") {
-                    attrs.push(format!(r#"height="{height}""#, height = height.value()));
+                    attrs.push(format!(
+                        r#"height="{height}""#,
+                        height = encode_attribute_value(height.value().to_owned())
+                    ));
                 }
 
                 if let Some(title) = params.attrlist.named_attribute("title") {
-                    attrs.push(format!(r#"title="{title}""#, title = title.value()));
+                    attrs.push(format!(
+                        r#"title="{title}""#,
+                        title = encode_attribute_value(title.value().to_owned())
+                    ));
                 }
 
                 format!(
@@ -635,16 +653,19 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
 
         let link = format!(
             r##"<a href="{target}"{id}{class}{link_constraint_attrs}>{link_text}</a>"##,
-            target = params.target,
+            target = encode_attribute_value(params.target.clone()),
             id = if let Some(id) = id {
-                format!(r#" id="{id}""#)
+                format!(r#" id="{id}""#, id = encode_attribute_value(id.to_owned()))
             } else {
                 "".to_owned()
             },
             class = if roles.is_empty() {
                 "".to_owned()
             } else {
-                format!(r#" class="{roles}""#, roles = roles.join(" "))
+                format!(
+                    r#" class="{roles}""#,
+                    roles = encode_attribute_value(roles.join(" "))
+                )
             },
             // title = %( title="#{node.attr 'title'}") if node.attr? 'title'
             // Haven't seen this in the wild yet.
@@ -656,7 +677,10 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
     }
 
     fn render_anchor(&self, id: &str, _reftext: Option<String>, dest: &mut String) {
-        dest.push_str(&format!("<a id=\"{id}\"></a>"));
+        dest.push_str(&format!(
+            "<a id=\"{id}\"></a>",
+            id = encode_attribute_value(id.to_owned())
+        ));
     }
 }
 
@@ -673,12 +697,12 @@ fn wrap_body_in_html_tag(
 
     if let Some(id) = id.as_ref() {
         dest.push_str(" id=\"");
-        dest.push_str(id);
+        dest.push_str(&encode_attribute_value(id.clone()));
         dest.push('"');
     }
 
     if !roles.is_empty() {
-        let roles = roles.join(" ");
+        let roles = encode_attribute_value(roles.join(" "));
         dest.push_str(" class=\"");
         dest.push_str(&roles);
         dest.push('"');
@@ -708,6 +732,7 @@ fn render_icon_or_image(
 
         img = format!(
             r#"<a class="image" href="{link}"{link_constraint_attrs}>{img}</a>"#,
+            link = encode_attribute_value(link.to_owned()),
             link_constraint_attrs = link_constraint_attrs(attrlist, None)
         );
     }
@@ -721,7 +746,7 @@ fn render_icon_or_image(
     roles.insert(0, type_);
 
     dest.push_str(r#"<span class=""#);
-    dest.push_str(&roles.join(" "));
+    dest.push_str(&encode_attribute_value(roles.join(" ")));
     dest.push_str(r#"">"#);
     dest.push_str(&img);
     dest.push_str("</span>");
@@ -801,7 +826,10 @@ fn link_constraint_attrs(attrlist: &Attrlist<'_>, window: Option<&'static str>)
             "".to_string()
         };
 
-        format!(r#" target="{window}"{rel_noopener}"#)
+        format!(
+            r#" target="{window}"{rel_noopener}"#,
+            window = encode_attribute_value(window.to_owned())
+        )
     } else if let Some(rel) = rel {
         format!(r#" rel="{rel}""#)
     } else {
-- 
2.43.0


From 6fde4e69eece3b96b5f82cf28290e7b6655ec9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 26/30] fix: apply header permissions to header attributes when
 preprocessing

Attribute entries in the document header were checked against the rules for
the document body when resolving the targets of include directives.
---
 parser/src/parser/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 36d11d1..38e9ee0 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -102,8 +102,13 @@ impl<'p> PreprocessorState<'p> {
                 }
 
                 let mut warnings: Vec<Warning> = vec![];
-                self.parser
-                    .set_attribute_from_body(&attr.item, &mut warnings);
+                if self.in_document_header {
+                    self.parser
+                        .set_attribute_from_header(&attr.item, &mut warnings);
+                } else {
+                    self.parser
+                        .set_attribute_from_body(&attr.item, &mut warnings);
+                }
 
                 // Copy every line of the attribute entry so that neither the content nor the
                 // number of lines is altered.
-- 
2.43.0


From a9318a1a0658d571905e90458bbcb948c70cea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:31 +0000
Subject: [PATCH 27/30] fix: substitute a section title before its nested
 blocks are read

---
 parser/src/blocks/section.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index 93ce9f9..d72e392 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -81,6 +81,13 @@ impl<'src> SectionBlock<'src> {
                 None
             };
 
+        // Similarly, use the attribute values in effect at the section title, not those
+        // that result from reading child blocks.
+        let mut section_title = Content::from(level_and_title.item.1);
+        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
+
+        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
+
         let mut most_recent_level = level;
 
         let mut maw_blocks = parse_blocks_until(
@@ -92,11 +99,6 @@ impl<'src> SectionBlock<'src> {
         let blocks = maw_blocks.item;
         let source = metadata.source.trim_remainder(blocks.after);
 
-        let mut section_title = Content::from(level_and_title.item.1);
-        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
-
-        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
-
         // NOTE: Must use the same precedence as `SectionBlock::id()`.
         let manual_id = metadata
             .anchor
-- 
2.43.0


From 1c1e13bac3eb20dba1b972f6baae3c0e78564092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 28/30] fix: render a hard line break at the end of a text of
 one line

The check that avoids searching for hard line breaks also required a line
feed, so 'text +' kept its marker when it was the only line of a paragraph,
although the last line of a longer paragraph did not.
---
 parser/src/content/substitution_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index af1f2ec..8efbbb0 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -721,7 +721,7 @@ fn apply_post_replacements(
         content.rendered = new_result.into();
     } else {
         let rendered = content.rendered.as_ref();
-        if !(rendered.contains('+') && rendered.contains('\n')) {
+        if !rendered.contains(" +") {
             return;
         }
 
-- 
2.43.0


From 62607a2a4f07472f3ba689bb1ec3c3d9c7fcb66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:16 +0000
Subject: [PATCH 29/30] fix: Honor the escape of an inline passthrough that
 follows a prohibited prefix

The backslash of an escaped passthrough that follows ':', ';', or another
backslash was skipped as if it were the first character of an attribute
list, and the unescaped remainder was then extracted as a passthrough.
---
 parser/src/content/passthroughs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index db85be1..1e7a891 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -340,7 +340,11 @@ struct InlinePassReplacer<'p>(&'p mut Passthroughs);
 
 impl Replacer for InlinePassReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
-        if dest.ends_with('\\') || dest.ends_with(':') || dest.ends_with(';') {
+        // An escaped passthrough isn't subject to the prohibited prefix: Its backslash
+        // has to be honored (below), not skipped over.
+        if !caps[0].starts_with('\\')
+            && (dest.ends_with('\\') || dest.ends_with(':') || dest.ends_with(';'))
+        {
             // Honor the prohibited prefix.
             // let dest_ended_with_backslash = dest.ends_with('\\');
             // if dest_ended_with_backslash {
-- 
2.43.0


From 1fccbd7c84e899823d2b22025dcce8d69049634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:30 +0000
Subject: [PATCH 30/30] fix: give each node its own copy of a schema default,
 and keep explicit nulls

All nodes shared the arrays and objects in the schema, so adding to one
node's defaulted list changed every other node and the schema itself.
---
 asg/lib/ajv-keyword-defaults.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asg/lib/ajv-keyword-defaults.js b/asg/lib/ajv-keyword-defaults.js
index 6b51e64..182e691 100644
--- a/asg/lib/ajv-keyword-defaults.js
+++ b/asg/lib/ajv-keyword-defaults.js
@@ -6,7 +6,9 @@ export default function getDef () {
     modifying: true,
     valid: true,
     compile: (defaults) => (data) => {
-      for (const [name, val] of Object.entries(defaults)) data[name] ??= val
+      for (const [name, val] of Object.entries(defaults)) {
+        if (!Object.hasOwn(data, name)) data[name] = structuredClone(val)
+      }
     },
   }
 }
-- 
2.43.0


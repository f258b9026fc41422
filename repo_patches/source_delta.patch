From d41655a1112f79fc5007698cc1121fcec2e75cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 01/27] fix: anchored n-grams record exactly the words within
 the window of an anchor

add_anchored_content recorded words without any anchor in reach (trailing
context, content without an anchor), lost the buffered words when a second
anchor followed closely, and closed the right window one word early.
---
 src/ngrams.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/ngrams.rs b/src/ngrams.rs
index 2f35338..9fae3f6 100644
--- a/src/ngrams.rs
+++ b/src/ngrams.rs
@@ -109,29 +109,30 @@ impl Ngrams {
       .split_ascii_whitespace()
       .filter(|&w| w.chars().next().unwrap().is_alphanumeric())
     {
-      // add the current word, potentially erasing the oldest word that falls outside the window
-      context_window.push(w);
       let anchor = self.anchor.as_ref().unwrap();
       if w == anchor {
-        // we've hit an anchor word, the current content of the window should be analyzed
+        // we've hit an anchor word, the words left of it in the window continue the buffer
         words_since_anchor_seen = 0;
         side = AnchorSide::Right;
-        // analyze whatever is in the buffer, and empty it
-        continuous_buffer = context_window.asc_iter().copied().collect();
+        continuous_buffer.extend(context_window.asc_iter().copied());
         context_window.clear();
-      } else {
+        continuous_buffer.push(w);
+      } else if side == AnchorSide::Right && words_since_anchor_seen < self.window_size {
+        // close enough to the right of the last anchor
         words_since_anchor_seen += 1;
-        if words_since_anchor_seen == self.window_size && side == AnchorSide::Right {
-          // it has been too long since we saw an anchor, add to the current buffer, record and
-          // reset
+        continuous_buffer.push(w);
+      } else {
+        side = AnchorSide::Left;
+        if context_window.is_full() {
+          // the oldest word of the window is too far from any anchor, so the current buffer can not
+          // be continued: record and reset
           self.record_words(std::mem::take(&mut continuous_buffer));
-          context_window.clear();
-          side = AnchorSide::Left;
         }
+        // add the current word, potentially erasing the oldest word that falls outside the window
+        context_window.push(w);
       }
     }
-    // Any remaining content should be added
-    continuous_buffer.extend(context_window.asc_iter().copied());
+    // Any remaining justified content should be added
     self.record_words(std::mem::take(&mut continuous_buffer));
   }
 
-- 
2.43.0


From 1b775730b7a92c337a5218210c0b401719b80222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 02/27] fix: blank math annotations contribute no lexemes

Two blank annotations yielded " " rather than the mathformula fallback.
---
 src/dnm/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dnm/node.rs b/src/dnm/node.rs
index 32c0714..0ff6fd7 100644
--- a/src/dnm/node.rs
+++ b/src/dnm/node.rs
@@ -59,6 +59,7 @@ pub fn lexematize_math(node: RoNode, context: &mut Context) -> String {
         .collect::<Vec<String>>()
         .join(" ")
     })
+    .filter(|anno_lexemes| !anno_lexemes.is_empty())
     .collect::<Vec<String>>()
     .join(" ");
   if !lexemes.is_empty() {
-- 
2.43.0


From 6d3370972054e53b1b17337909d1cd40dfb1a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 03/27] fix: apply class rules in the order of the class
 attribute, whatever its separators

---
 src/dnm/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index b21dcdb..0a28f00 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -315,9 +315,10 @@ impl DNM {
       // Start scope of self.parameters borrow, to allow mutable self borrow for
       // recurse_node_create
       let mut rules = Vec::new();
-      // First class rules, as more specific
-      for classname in node.get_class_names() {
-        let class_rule = self.parameters.special_tag_class_options.get(&classname);
+      // First class rules, as more specific, in the order of the class attribute
+      let class_attr = node.get_property("class").unwrap_or_default();
+      for classname in class_attr.split_whitespace() {
+        let class_rule = self.parameters.special_tag_class_options.get(classname);
         rules.push(class_rule);
       }
       // Then element rules as more general
-- 
2.43.0


From 823ec4ef44357762fe20f9b7fb27e9e3604cab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 04/27] fix: keep back mapping offsets when lowercasing expands
 a character

---
 src/dnm/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index 0a28f00..99bf6db 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -223,6 +223,14 @@ impl DNM {
     self.normalize_unicode(&mut string, &mut offsets);
     self.stem_words(&mut string /* , &mut offsets */);
     if self.parameters.convert_to_lowercase {
+      if self.parameters.support_back_mapping {
+        // lowercasing can replace a character by multiple characters
+        offsets = string
+          .chars()
+          .zip(offsets)
+          .flat_map(|(c, offset)| c.to_lowercase().map(move |_| offset))
+          .collect();
+      }
       string = string.to_lowercase();
     }
     self.normalize_whitespace(&mut string, &mut offsets);
-- 
2.43.0


From 358f24bd9c23568d5e04d216335bf80d828beb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 05/27] fix: trim ranges by characters, not by UTF-8 bytes

---
 src/dnm/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index cbbe6a3..461afc6 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -47,14 +47,14 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
     for c in range_text.chars() {
       if c.is_whitespace() {
-        trimmed_start += c.len_utf8();
+        trimmed_start += 1;
       } else {
         break;
       }
     }
     for c in range_text.chars().rev() {
       if c.is_whitespace() {
-        trimmed_end -= c.len_utf8();
+        trimmed_end -= 1;
       } else {
         break;
       }
-- 
2.43.0


From 0886e0ad6fae200748209c128aff4c2f5158ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 06/27] fix: empty byte subranges at the beginning of a text or
 before a multi-byte character

---
 src/dnm/range.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 461afc6..618cc91 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -89,17 +89,24 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     rel_start: usize,
     rel_end: usize,
   ) -> DNMRange<'dnmrange> {
-    DNMRange {
-      start: self.byte_offset_bisection(
-        self.dnm.byte_offsets[self.start] + rel_start,
-        self.start,
-        self.end,
-      ),
-      end: self.byte_offset_bisection(
+    let start = self.byte_offset_bisection(
+      self.dnm.byte_offsets[self.start] + rel_start,
+      self.start,
+      self.end,
+    );
+    let end = if rel_end > rel_start {
+      self.byte_offset_bisection(
         self.dnm.byte_offsets[self.start] + rel_end - 1,
         self.start,
         self.end,
-      ) + 1,
+      ) + 1
+    } else {
+      // empty, there is no last character to look for
+      start
+    };
+    DNMRange {
+      start,
+      end,
       dnm: self.dnm,
     }
   }
-- 
2.43.0


From f43f87a9052e319a7fa48f42435ff47995d378e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 07/27] fix: the tokenizer counts characters, not UTF-8 bytes

---
 src/tokenizer.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 3ab0010..f5d6aa1 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -80,7 +80,7 @@ impl Tokenizer {
 
     while let Some(sentence_char) = text_iterator.next() {
       // Bookkeep the end position
-      end += sentence_char.len_utf8();
+      end += 1;
 
       match sentence_char {
         '.' | ':' => {
@@ -89,8 +89,8 @@ impl Tokenizer {
           while text_iterator.peek().unwrap_or(&'.').is_whitespace()
             || text_iterator.peek() == Some(&'\'')
           {
-            let space_char = text_iterator.next().unwrap();
-            end += space_char.len_utf8();
+            text_iterator.next();
+            end += 1;
           }
           if text_iterator.peek().is_none() {
             break;
@@ -205,8 +205,8 @@ impl Tokenizer {
             // second newline
             // Get next non-space character
             while text_iterator.peek().unwrap_or(&'.').is_whitespace() {
-              let space_char = text_iterator.next().unwrap();
-              end += space_char.len_utf8();
+              text_iterator.next();
+              end += 1;
             }
             if text_iterator.peek().is_none() {
               break;
@@ -248,12 +248,12 @@ impl Tokenizer {
               sentences.push(
                 DNMRange {
                   start,
-                  end: end - other_char.len_utf8(),
+                  end: end - 1,
                   dnm,
                 }
                 .trim(),
               );
-              start = end - other_char.len_utf8();
+              start = end - 1;
             }
           }
           // Increment the left window
@@ -285,7 +285,7 @@ impl Tokenizer {
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
     while let Some(c) = text_iterator.next() {
-      end += c.len_utf8();
+      end += 1;
       if !c.is_alphanumeric() {
         if c == '\'' || c == '’' {
           if let Some(peeked) = text_iterator.peek() {
@@ -294,8 +294,8 @@ impl Tokenizer {
             }
           }
         }
-        if start < end - c.len_utf8() {
-          result.push(sentence_range.get_subrange(start, end - c.len_utf8()));
+        if start < end - 1 {
+          result.push(sentence_range.get_subrange(start, end - 1));
         }
         start = end;
       }
@@ -309,8 +309,7 @@ impl Tokenizer {
   /// returns the words and punctuation of a sentence, using simple heuristics
   #[allow(unused_assignments)]
   pub fn words_and_punct<'b>(&'b self, range: &DNMRange<'b>) -> Vec<DNMRange> {
-    let range_text = range.get_plaintext();
-    let text_iterator = range_text.chars();
+    let text_iterator = range.get_plaintext().chars();
     let mut start = 0usize;
     let mut end = 0usize;
     let mut result: Vec<DNMRange> = Vec::new();
@@ -319,7 +318,7 @@ impl Tokenizer {
       () => {
         if start < end {
           if apostrophe_flag {
-            match &range_text[start + 1..end] {
+            match range.get_subrange(start + 1, end).get_plaintext() {
               // Handle closed set of apostrophe cases, detach from all other cases
               "t" | "s" | "un" | "th" | "ll" | "d" | "ve" | "il" | "re" | "m" => {},
               _ => {
@@ -338,18 +337,18 @@ impl Tokenizer {
     for c in text_iterator {
       // letters, numbers can accumulate
       if c.is_alphanumeric() {
-        end += c.len_utf8();
+        end += 1;
       } else {
         // everything else completes a word and starts a new one
         complete_word!();
         // except that whitepace can be skipped over
         if c.is_whitespace() {
-          end += c.len_utf8();
+          end += 1;
           start = end;
         }
         // non-alphanum chars are standalone words EXCEPT when connectors such as apostrophes
         else {
-          end += c.len_utf8();
+          end += 1;
           if c == '\'' || c == '’' {
             apostrophe_flag = true;
           } else {
@@ -384,7 +383,7 @@ fn next_word_with_length(text_iterator: &mut Peekable<Chars>) -> (String, usize)
   while next_word_length < 20 && text_iterator.peek().unwrap_or(&'.').is_alphabetic() {
     let word_char = text_iterator.next().unwrap();
     next_word.push(word_char);
-    next_word_length += word_char.len_utf8();
+    next_word_length += 1;
   }
 
   let next_word: String = next_word.into_iter().collect();
-- 
2.43.0


From 43f5bf6a733078bfbb0974b89ba14d9d376819c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 08/27] fix: no empty words after a lone apostrophe

---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index f5d6aa1..01fcee8 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -327,7 +327,9 @@ impl Tokenizer {
               },
             }
           }
-          result.push(range.get_subrange(start, end));
+          if start < end {
+            result.push(range.get_subrange(start, end));
+          }
           apostrophe_flag = false;
           start = end;
         }
-- 
2.43.0


From 5f8db353e5378b8986ba480e39d320fda26236ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 09/27] fix: keep the last sentence whenever it contains a
 letter

---
 src/tokenizer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 01fcee8..576ecff 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -266,9 +266,10 @@ impl Tokenizer {
     }
 
     end = cmp::min(end, text.chars().count());
-    let last_left_window: String = left_window.into_iter().collect();
-    if last_left_window.find(char::is_alphabetic).is_some() {
-      sentences.push(DNMRange { start, end, dnm }.trim());
+    // The left window only holds the last few characters, look at all of the remaining text
+    let last_sentence = DNMRange { start, end, dnm };
+    if last_sentence.get_plaintext().find(char::is_alphabetic).is_some() {
+      sentences.push(last_sentence.trim());
     }
 
     // Filter out edge cases that return empty ranges
-- 
2.43.0


From 2d32598281d3956f7855e8c0c409713c0b2c8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 10/27] fix: non-ASCII single letters are abbreviations, too

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 576ecff..6a6eb71 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -63,7 +63,7 @@ impl Tokenizer {
     };
     // Don't consider single letters followed by a punctuation sign an end of a
     // sentence, Also "a.m." and "p.m." shouldn't get split
-    ((lw_word.len() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
+    ((lw_word.chars().count() == 1) && (lw_word != "I")) || self.abbreviations.is_match(lw_word)
   }
 
   // TODO: Reduce complexity, this tokenization pass is terribly overengineered
-- 
2.43.0


From 41e774f5854b37c5029a7155832f3791432280dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 11/27] fix: dots in abbreviations match only dots

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 6a6eb71..b8a2cbb 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -21,7 +21,7 @@ impl Default for Tokenizer {
   fn default() -> Tokenizer {
     Tokenizer {
       stopwords : stopwords::load(),
-      abbreviations : Regex::new(r"^(?:C(?:[ft]|o(?:n[jn]|lo?|rp)?|a(?:l(?:if)?|pt)|mdr|p?l|res)|M(?:[dst]|a(?:[jnry]|ss)|i(?:ch|nn|ss)|o(?:nt)?|ex?|rs?)|A(?:r(?:[ck]|iz)|l(?:t?a)?|ttys?|ssn|dm|pr|ug|ve)|c(?:o(?:rp|l)?|(?:ap)?t|mdr|p?l|res|f)|S(?:e(?:ns?|pt?|c)|(?:up|g)?t|ask|r)|s(?:e(?:ns?|pt?|c)|(?:up|g)?t|r)|a(?:ttys?|ssn|dm|pr|rc|ug|ve|l)|P(?:enna?|-a.s|de?|lz?|rof|a)|D(?:e(?:[cfl]|p?t)|ist|ak|r)|I(?:[as]|n[cd]|da?|.e|ll)|F(?:e[bd]|w?y|ig|la|t)|O(?:k(?:la)?|[cn]t|re)|d(?:e(?:p?t|c)|ist|r)|E(?:xpy?|.g|sp|tc|qs?)|R(?:e(?:ps?|sp|v)|d)|T(?:e(?:nn|x)|ce|hm)|e(?:xpy?|.g|sp|tc|qs?)|m(?:[st]|a[jry]|rs?)|r(?:e(?:ps?|sp|v)|d)|N(?:e(?:br?|v)|ov?)|W(?:isc?|ash|yo?)|f(?:w?y|eb|ig|t)|p(?:de?|lz?|rof)|J(?:u[ln]|an|r)|U(?:SAFA|niv|t)|j(?:u[ln]|an|r)|K(?:ans?|en|y)|B(?:lv?d|ros)|b(?:lv?d|ros)|G(?:en|ov|a)|L(?:td?|a)|g(?:en|ov)|i(?:.e|nc)|l(?:td?|a)|[Hh]wa?y|V[ast]|Que|nov?|univ|Yuk|oct|tce|vs)\s?$").unwrap(),
+      abbreviations : Regex::new(r"^(?:C(?:[ft]|o(?:n[jn]|lo?|rp)?|a(?:l(?:if)?|pt)|mdr|p?l|res)|M(?:[dst]|a(?:[jnry]|ss)|i(?:ch|nn|ss)|o(?:nt)?|ex?|rs?)|A(?:r(?:[ck]|iz)|l(?:t?a)?|ttys?|ssn|dm|pr|ug|ve)|c(?:o(?:rp|l)?|(?:ap)?t|mdr|p?l|res|f)|S(?:e(?:ns?|pt?|c)|(?:up|g)?t|ask|r)|s(?:e(?:ns?|pt?|c)|(?:up|g)?t|r)|a(?:ttys?|ssn|dm|pr|rc|ug|ve|l)|P(?:enna?|-a\.s|de?|lz?|rof|a)|D(?:e(?:[cfl]|p?t)|ist|ak|r)|I(?:[as]|n[cd]|da?|\.e|ll)|F(?:e[bd]|w?y|ig|la|t)|O(?:k(?:la)?|[cn]t|re)|d(?:e(?:p?t|c)|ist|r)|E(?:xpy?|\.g|sp|tc|qs?)|R(?:e(?:ps?|sp|v)|d)|T(?:e(?:nn|x)|ce|hm)|e(?:xpy?|\.g|sp|tc|qs?)|m(?:[st]|a[jry]|rs?)|r(?:e(?:ps?|sp|v)|d)|N(?:e(?:br?|v)|ov?)|W(?:isc?|ash|yo?)|f(?:w?y|eb|ig|t)|p(?:de?|lz?|rof)|J(?:u[ln]|an|r)|U(?:SAFA|niv|t)|j(?:u[ln]|an|r)|K(?:ans?|en|y)|B(?:lv?d|ros)|b(?:lv?d|ros)|G(?:en|ov|a)|L(?:td?|a)|g(?:en|ov)|i(?:\.e|nc)|l(?:td?|a)|[Hh]wa?y|V[ast]|Que|nov?|univ|Yuk|oct|tce|vs)\s?$").unwrap(),
     }
   }
 }
-- 
2.43.0


From b89a45e98852b6ed2bc0f10302473526fd771640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 12/27] fix: abbreviations after a line break or at the start
 of a sentence

---
 src/tokenizer.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index b8a2cbb..fd64ab1 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -75,7 +75,7 @@ impl Tokenizer {
     let mut text_iterator = text.chars().peekable();
     let mut start = 0;
     let mut end = 0;
-    let window_size = 12; // size of max string + 1
+    let window_size = 13; // size of max string (and a line break) + 1
     let mut left_window: VecDeque<char> = VecDeque::with_capacity(window_size);
 
     while let Some(sentence_char) = text_iterator.next() {
@@ -125,12 +125,12 @@ impl Tokenizer {
                 sentences.push(DNMRange { start, end, dnm }.trim());
                 start = end;
               }
-              // We consumed the next word, so make sure we reflect that in either case:
-              for next_word_char in next_word_string.chars() {
-                left_window.push_back(next_word_char);
-                if left_window.len() >= window_size {
-                  left_window.pop_front();
-                }
+            }
+            // We consumed the next word, so make sure we reflect that in either case:
+            for next_word_char in next_word_string.chars() {
+              left_window.push_back(next_word_char);
+              if left_window.len() >= window_size {
+                left_window.pop_front();
               }
             }
             end += next_word_length;
@@ -200,7 +200,11 @@ impl Tokenizer {
         // Some('\u{2022}'),Some('*') => { // bullet point for itemize
         // Some('\u{220e}') => { // QED symbol
         '\n' => {
-          // newline
+          // newline, separates words
+          left_window.push_back('\n');
+          if left_window.len() >= window_size {
+            left_window.pop_front();
+          }
           if let Some(&'\n') = text_iterator.peek() {
             // second newline
             // Get next non-space character
@@ -215,18 +219,10 @@ impl Tokenizer {
             let (next_word_string, next_word_length) = next_word_with_length(&mut text_iterator);
             // Sentence-break, UNLESS a "mathformula" or a "lowercase word" follows, or a
             // non-alpha char
-            if next_word_string.is_empty()
-              || next_word_string.starts_with("mathformula")
-              || next_word_string.chars().next().unwrap().is_lowercase()
+            if !next_word_string.is_empty()
+              && !next_word_string.starts_with("mathformula")
+              && !next_word_string.chars().next().unwrap().is_lowercase()
             {
-              // We consumed the next word, add it to the left window
-              for next_word_char in next_word_string.chars() {
-                left_window.push_back(next_word_char);
-                if left_window.len() >= window_size {
-                  left_window.pop_front();
-                }
-              }
-            } else {
               // Sentence-break found:
               left_window = VecDeque::with_capacity(window_size);
               sentences.push(DNMRange { start, end, dnm }.trim());
@@ -234,6 +230,12 @@ impl Tokenizer {
             }
 
             // We consumed the next word, so make sure we reflect that in either case:
+            for next_word_char in next_word_string.chars() {
+              left_window.push_back(next_word_char);
+              if left_window.len() >= window_size {
+                left_window.pop_front();
+              }
+            }
             end += next_word_length;
           }
         },
@@ -242,7 +244,7 @@ impl Tokenizer {
           // "mathformula\nmathformula")
           if other_char.is_uppercase() {
             let lw_string: String = left_window.iter().collect();
-            if lw_string.starts_with("mathformula") {
+            if lw_string.trim_end_matches('\n').ends_with("mathformula") {
               // Sentence-break found, but exclude the current letter from the end:
               left_window = VecDeque::with_capacity(window_size);
               sentences.push(
-- 
2.43.0


From 6b7c64562c6764b5e79b5954667aae6d5810bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 13/27] fix: an unparseable document does not end or abort a
 corpus walk

---
 src/data.rs                 | 14 +++++---------
 src/parallel_data/corpus.rs | 24 ++++++++++++++++++------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 36df7a2..5ce9ea2 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -142,15 +142,11 @@ impl<'iter> Iterator for DocumentIterator<'iter> {
         };
         if selected {
           let path = entry.path().to_str().unwrap_or("").to_owned();
-          let doc_result = Document::new(path, self.corpus);
-          return match doc_result {
-            Ok(doc) => Some(doc),
-            // TODO: Currently encountering an unparseable file will terminate the entire corpus
-            // walk, which is too severe.
-            // A more viable strategy would be to 1) retry creating the document once and 2)
-            // print an error message and continue the walk
-            _ => None,
-          };
+          match Document::new(path, self.corpus) {
+            Ok(doc) => return Some(doc),
+            // an unparseable file is skipped, the walk goes on
+            Err(e) => println!("-- Skipping unparseable document {:?}: {e:?}", entry.path()),
+          }
         }
       } else {
         println!("-- Error while walking for entry: {next_entry:?}")
diff --git a/src/parallel_data/corpus.rs b/src/parallel_data/corpus.rs
index 17559af..c980713 100644
--- a/src/parallel_data/corpus.rs
+++ b/src/parallel_data/corpus.rs
@@ -76,16 +76,22 @@ impl Corpus {
       })
       .enumerate()
       .par_bridge()
-      .map(|each| {
+      .filter_map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        let document = match Document::new(path.clone(), self) {
+          Ok(document) => document,
+          Err(e) => {
+            println!("-- Skipping unparseable document {path:?}: {e:?}");
+            return None;
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
             1 + index
           );
         }
-        closure(document)
+        Some(closure(document))
       })
       .reduce(HashMap::new, |mut map1, map2| {
         for (k, v) in map2 {
@@ -124,16 +130,22 @@ impl Corpus {
       })
       .enumerate()
       .par_bridge()
-      .map(|each| {
+      .filter_map(|each| {
         let (index, path) = each;
-        let document = Document::new(path, self).unwrap();
+        let document = match Document::new(path.clone(), self) {
+          Ok(document) => document,
+          Err(e) => {
+            println!("-- Skipping unparseable document {path:?}: {e:?}");
+            return None;
+          },
+        };
         if index % 1000 == 0 && index > 0 {
           println!(
             "-- catalog_with_parallel_walk now processing document {:?}",
             1 + index
           );
         }
-        closure(document)
+        Some(closure(document))
       })
       .reduce(|| (HashMap::new(),HashMap::new()), |(mut map11, mut map12), (map21,map22)| {
         for (k, v) in map21 {
-- 
2.43.0


From 579520221c5811d383d60c511c9a0d82a38cba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 14/27] fix: directories with document names are not documents

---
 src/data.rs                 | 3 ++-
 src/parallel_data/corpus.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 5ce9ea2..202a651 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -140,7 +140,8 @@ impl<'iter> Iterator for DocumentIterator<'iter> {
         } else {
           file_name.ends_with(".html") || file_name.ends_with(".xhtml")
         };
-        if selected {
+        // directories are walked, but are never documents, whatever their name
+        if selected && !entry.path().is_dir() {
           let path = entry.path().to_str().unwrap_or("").to_owned();
           match Document::new(path, self.corpus) {
             Ok(doc) => return Some(doc),
diff --git a/src/parallel_data/corpus.rs b/src/parallel_data/corpus.rs
index c980713..0b88273 100644
--- a/src/parallel_data/corpus.rs
+++ b/src/parallel_data/corpus.rs
@@ -64,7 +64,8 @@ impl Corpus {
           } else {
             file_name.ends_with(".html") || file_name.ends_with(".xhtml")
           };
-          if selected {
+          // directories are walked, but are never documents, whatever their name
+          if selected && !entry.path().is_dir() {
             let path = entry.path().to_str().unwrap_or("").to_owned();
             if !path.is_empty() {
               return Some(path);
@@ -118,7 +119,8 @@ impl Corpus {
           } else {
             file_name.ends_with(".html") || file_name.ends_with(".xhtml")
           };
-          if selected {
+          // directories are walked, but are never documents, whatever their name
+          if selected && !entry.path().is_dir() {
             let path = entry.path().to_str().unwrap_or("").to_owned();
             if !path.is_empty() {
               return Some(path);
-- 
2.43.0


From 5709fdd2b48aa2322a78696fc2070212701ed581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 15/27] fix: reference selectors find ltx_ref wherever it
 stands in the class attribute

---
 src/data.rs                   | 2 +-
 src/parallel_data/document.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 202a651..fba6082 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -248,7 +248,7 @@ impl<'d> Document<'d> {
   /// Associated function for `get_ref_nodes`
   fn ref_nodes(doc: &XmlDoc) -> Vec<RoNode> {
     let xpath_context = Context::new(doc).unwrap();
-    match xpath_context.evaluate("//*[(local-name()='span' or local-name()='a') and (contains(@class,'ltx_ref ') or @class='ltx_ref')]") {
+    match xpath_context.evaluate("//*[(local-name()='span' or local-name()='a') and contains(concat(' ',normalize-space(@class),' '),' ltx_ref ')]") {
       Ok(found_payload) => found_payload.get_readonly_nodes_as_vec(),
       _ => Vec::new(),
     }
diff --git a/src/parallel_data/document.rs b/src/parallel_data/document.rs
index c742623..a60e50a 100644
--- a/src/parallel_data/document.rs
+++ b/src/parallel_data/document.rs
@@ -133,7 +133,7 @@ impl<'d> Document<'d> {
   /// Associated function for `get_ref_nodes`
   pub(crate) fn ref_nodes(doc: &XmlDoc) -> Vec<RoNode> {
     Document::xpath_nodes(doc,
-    "//*[(local-name()='span' or local-name()='a') and (contains(@class,'ltx_ref ') or @class='ltx_ref')]")
+    "//*[(local-name()='span' or local-name()='a') and contains(concat(' ',normalize-space(@class),' '),' ltx_ref ')]")
   }
 
   /// Get an iterator over the sentences of the document
-- 
2.43.0


From ae7803321504aca76e71db01dd1b38ee7dcde2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 16/27] fix: documents without a root element have no sentences
 instead of failing

---
 src/data.rs                   |  6 +++++-
 src/parallel_data/document.rs | 13 +++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index fba6082..af4a900 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -262,7 +262,11 @@ impl<'d> Document<'d> {
       }
     }
     let tokenizer = &self.corpus.tokenizer;
-    let sentences = tokenizer.sentences(self.dnm.as_ref().unwrap());
+    // a document without a root has no sentences
+    let sentences = match self.dnm {
+      Some(ref dnm) => tokenizer.sentences(dnm),
+      None => Vec::new(),
+    };
     SentenceIterator {
       walker: sentences.into_iter(),
       document: self,
diff --git a/src/parallel_data/document.rs b/src/parallel_data/document.rs
index a60e50a..a58f110 100644
--- a/src/parallel_data/document.rs
+++ b/src/parallel_data/document.rs
@@ -144,7 +144,11 @@ impl<'d> Document<'d> {
       }
     }
     let tokenizer = &self.corpus.tokenizer;
-    let sentences = tokenizer.sentences(self.dnm.as_ref().unwrap());
+    // a document without a root has no sentences
+    let sentences = match self.dnm {
+      Some(ref dnm) => tokenizer.sentences(dnm),
+      None => Vec::new(),
+    };
     DNMRangeIterator {
       walker: sentences.into_iter(),
       document: self,
@@ -212,7 +216,12 @@ impl<'d> Document<'d> {
   pub fn filter_iter(&self, filter: &dyn Fn(&RoNode) -> bool) -> RoNodeIterator {
     // TODO: Can this be lazy? Eager for now...
     RoNodeIterator {
-      walker: Document::dfs_filter_nodes(self.dom.get_root_readonly().unwrap(), filter).into_iter(),
+      walker: self
+        .dom
+        .get_root_readonly()
+        .map(|root| Document::dfs_filter_nodes(root, filter))
+        .unwrap_or_default()
+        .into_iter(),
       document: self,
     }
   }
-- 
2.43.0


From 4f9a2d20e83e13b72eab3af57c61740aad4ac648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 17/27] fix: keep the case of a word when lexical options ask
 for it

---
 src/util/data_helpers.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 854ffda..86bf47e 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -59,16 +59,14 @@ pub fn ams_normalize_word_range(
   context: &mut Context,
   options: LexicalOptions,
 ) -> Result<String, Box<dyn Error>> {
-  let mut word_string = if options.discard_punct {
-    range
-      .get_plaintext()
-      .to_lowercase()
-      .chars()
-      .filter(|c| c.is_alphanumeric()) // drop apostrophes, other noise?
-      .collect::<String>()
-  } else {
-    range.get_plaintext().to_lowercase()
-  };
+  let mut word_string = range.get_plaintext().to_string();
+  if options.discard_case {
+    word_string = word_string.to_lowercase();
+  }
+  if options.discard_punct {
+    // drop apostrophes, other noise?
+    word_string.retain(|c| c.is_alphanumeric());
+  }
   if word_string.len() > MAX_WORD_LENGTH {
     // Using a more aggressive normalization, large words tend to be conversion
     // errors with lost whitespace - drop the entire paragraph when this occurs.
@@ -78,15 +76,16 @@ pub fn ams_normalize_word_range(
   // Note: the formula and citation counts are an approximate lower bound, as
   // sometimes they are not cleanly tokenized, e.g. $k$-dimensional
   // will be the word string "mathformula-dimensional"
-  if word_string.contains("mathformula") {
+  let lower_string = word_string.to_lowercase();
+  if lower_string.contains("mathformula") {
     if options.discard_math {
       word_string = String::new();
     } else {
       word_string = dnm::node::lexematize_math(range.get_node(), context);
     }
-  } else if word_string.contains("citationelement") {
+  } else if lower_string.contains("citationelement") {
     word_string = String::from("citationelement");
-  } else if IS_NUMERIC.is_match(&word_string) {
+  } else if IS_NUMERIC.is_match(&lower_string) {
     word_string = String::from("NUM");
   }
 
-- 
2.43.0


From 5d54838e74d28aacb5a1dafe67b4d9cfef6ee9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 18/27] fix: return an empty string for unreadable documents
 through the foreign interface

---
 src/util/path_helpers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/path_helpers.rs b/src/util/path_helpers.rs
index a68dac5..abc7a66 100644
--- a/src/util/path_helpers.rs
+++ b/src/util/path_helpers.rs
@@ -6,10 +6,14 @@ use crate::data::{Corpus, Document};
 use crate::util::data_helpers;
 use crate::util::data_helpers::LexicalOptions;
 
-/// Given a path to a document, return a word-tokenized string of all of its paragraphs
+/// Given a path to a document, return a word-tokenized string of all of its paragraphs,
+/// or an empty string if there is no readable document at that path
 pub fn path_to_words(path: String) -> String {
   let corpus = Corpus::default();
-  let mut document = Document::new(path, &corpus).unwrap();
+  let mut document = match Document::new(path, &corpus) {
+    Ok(document) => document,
+    Err(_) => return String::new(),
+  };
   let mut context = Context::new(&document.dom).unwrap();
 
   // We will tokenize each logical paragraph, which are the textual logical units
-- 
2.43.0


From 2111dd4ffef2eb3b69d2a270894492cc1272794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:45 +0000
Subject: [PATCH 19/27] fix: report text with NUL characters as an error when
 building a text view from a string

---
 src/dnm/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dnm/mod.rs b/src/dnm/mod.rs
index 99bf6db..1465779 100644
--- a/src/dnm/mod.rs
+++ b/src/dnm/mod.rs
@@ -149,6 +149,9 @@ impl DNM {
     text: &str,
     params_opt: Option<DNMParameters>,
   ) -> Result<(Document, Self), Box<dyn Error>> {
+    if text.contains('\0') {
+      return Err("libxml can not represent text with NUL characters".into());
+    }
     let params = params_opt.unwrap_or_default();
     // Same as ::new(), but requires initializing a libxml Document with the text content
     let mut doc = Document::new().unwrap();
-- 
2.43.0


From f4ed051f1e95f93775d399d383e978c5e3a4bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:45 +0000
Subject: [PATCH 20/27] fix: keep the words around a removed numeral, letter or
 plural of a heading apart

---
 src/util/data_helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/data_helpers.rs b/src/util/data_helpers.rs
index 86bf47e..80470fb 100644
--- a/src/util/data_helpers.rs
+++ b/src/util/data_helpers.rs
@@ -24,7 +24,7 @@ lazy_static! {
   static ref LEAD_FIXED_PHRASE: Regex = Regex::new(r"^(comparison with|(?:list|summary|outline|sketch|overview|start|end) of|general|other|additional|completion|finishing|first|second|third|new|alternative|chapter|section|some|basic|closely|an|our|the)\s").unwrap();
   static ref TRAILING_FIXED_WORD: Regex = Regex::new(r"\s(see|of|for|of the paper)$").unwrap();
   static ref COMMON_PLURALS : Regex = Regex::new(
-    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(?:\s|$)"
+    r"(a(?:xiom|lgorithm|ssumption|pplication)|con(?:jecture|dition|clusion|tribution)|d(?:ata\s?set|efinition|iscussion)|e(?:xperiment|xample|xercise)|lemma|m(?:odel|ethod|otivation)|notation|observation|pr(?:oof|oposition|oblem)|question|re(?:sult|mark)|s(?:ubject|tep|imulation)|theorem|work)s(\s|$)"
   ).unwrap();
 }
 
@@ -127,13 +127,13 @@ pub fn heading_from_node_aux(
 /// e.g. "definition xiii a"->"definition"
 #[allow(clippy::cognitive_complexity)]
 pub fn normalize_heading_title(heading: &str) -> String {
-  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), "");
+  let simple_heading = ROMAN_NUMERAL.replace_all(heading.trim(), " ");
   let simple_heading = IS_NUM.replace_all(simple_heading.trim(), " ");
-  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), "");
+  let simple_heading = SINGLE_LEAD_LETTER.replace_all(simple_heading.trim(), " ");
   let simple_heading = SINGLE_TRAIL_LETTER.replace_all(simple_heading.trim(), "");
   let simple_heading = LEAD_FIXED_PHRASE.replace_all(simple_heading.trim(), "");
   let simple_heading = TRAILING_FIXED_WORD.replace_all(simple_heading.trim(), "");
-  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1");
+  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1$2");
   if simple_heading.is_empty() {
     // quick exit if empty
     String::new()
-- 
2.43.0


From 4ada5146617b0f92424281a75c555de95995da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:45 +0000
Subject: [PATCH 21/27] fix: read the environment name caption as a caption

---
 src/ams.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ams.rs b/src/ams.rs
index c4dd199..18d8b55 100644
--- a/src/ams.rs
+++ b/src/ams.rs
@@ -471,7 +471,7 @@ pub fn normalize_env(env: &str) -> AmsEnv {
     | "standingassumption"
     | "subsubaxiom" => AmsEnv::Assumption,
     "bound" => AmsEnv::Bound,
-    "diag" | "fig" | "figcaption" | "figm" | "fignum" | "figure" | "figuretext" | "tab"
+    "caption" | "diag" | "fig" | "figcaption" | "figm" | "fignum" | "figure" | "figuretext" | "tab"
     | "tabel" | "tabl" | "tabla" | "table" | "tldiag" => AmsEnv::Caption,
     "case" | "case1" | "case2" | "case3" | "caseone" | "casestudy" | "casetwo"
     | "innercustomcase" | "mycase" | "scase" | "sscase" | "subcase" | "subcase2" | "subsubcase"
-- 
2.43.0


From 7279c7298436266776435033f02f0c2c5cd5af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 22/27] fix: ranges serialize to pointers that lead back to
 them

The end of a range is taken from its last character, which exists at the end
of the text, too, and a range that ends before a replaced element does not
extend over it. Nodes are addressed by steps that count what the node test
selects, do not depend on namespace prefixes and select a single node.
---
 src/dnm/range.rs | 212 +++++++++++++++++++++++++++++------------------
 1 file changed, 131 insertions(+), 81 deletions(-)

diff --git a/src/dnm/range.rs b/src/dnm/range.rs
index 618cc91..e286bb4 100644
--- a/src/dnm/range.rs
+++ b/src/dnm/range.rs
@@ -3,6 +3,7 @@
 
 use crate::dnm::DNM;
 use libxml::readonly::RoNode;
+use libxml::tree::NodeType;
 use libxml::xpath::Context;
 
 /// Very often we'll talk about substrings of the plaintext - words, sentences,
@@ -147,12 +148,36 @@ impl<'dnmrange> DNMRange<'dnmrange> {
     if !self.dnm.parameters.support_back_mapping {
       panic!("DNMRange::serialize: DNM did not generate the back_map");
     }
-    let (node1, offset1) = self.dnm.back_map[self.start];
-    let (node2, offset2) = self.dnm.back_map[self.end];
-    DNMRange::create_arange(
-      &DNMRange::serialize_offset(self.dnm.root_node, node1, offset1, false),
-      &DNMRange::serialize_offset(self.dnm.root_node, node2, offset2, true),
-    )
+    let from = match self.dnm.back_map.get(self.start) {
+      Some(&(node, offset)) => {
+        DNMRange::serialize_offset(self.dnm.root_node, node, offset, false)
+      },
+      None => self.serialize_end(self.start), // empty range at the end of the text
+    };
+    let to = if self.is_empty() {
+      from.clone()
+    } else {
+      self.serialize_end(self.end)
+    };
+    DNMRange::create_arange(&from, &to)
+  }
+
+  /// xpointer to the end of the last character before `position`
+  fn serialize_end(&self, position: usize) -> String {
+    let root_node = self.dnm.root_node;
+    if position == 0 {
+      return DNMRange::serialize_node(root_node, root_node, false);
+    }
+    let (node, offset) = self.dnm.back_map[position - 1];
+    if offset < 0 && get_next_sibling(root_node, node).is_none() {
+      // a token without a successor: point to the end of the content it replaces
+      let length = node.get_content().chars().count() as i32;
+      DNMRange::serialize_offset(root_node, node, length, false)
+    } else if offset < 0 {
+      DNMRange::serialize_offset(root_node, node, offset, true)
+    } else {
+      DNMRange::serialize_offset(root_node, node, offset + 1, true)
+    }
   }
 
   /// creates an arange from to xpointers
@@ -174,49 +199,31 @@ impl<'dnmrange> DNMRange<'dnmrange> {
 
   /// serializes a node into an xpath expression
   pub fn serialize_node(root_node: RoNode, node: RoNode, is_end: bool) -> String {
-    match node.get_property("id") {
-      None => {
-        if node == root_node {
-          return "/".to_string();
-        }
-        if node.is_text_node() {
-          let parent = node.get_parent().unwrap();
-          let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
-          format!(
-            "{}/text()[{}]",
-            base,
-            get_node_number(parent, node, &|n: RoNode| n.is_text_node()).unwrap()
-          )
-        } else {
-          let act = if is_end {
-            get_next_sibling(root_node, node).unwrap_or(node)
-          } else {
-            node
-          };
-          let parent = act.get_parent().unwrap();
-          let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);
-          format!(
-            "{}/{}[{}]",
-            base,
-            if act.is_text_node() {
-              "text()".to_string()
-            } else if let Some(ns) = act.get_namespace() {
-              let prefix = ns.get_prefix();
-              if prefix.is_empty() {
-                // default namespace without prefix
-                format!("*[local-name() = '{}']", act.get_name())
-              } else {
-                format!("{}:{}", prefix, act.get_name())
-              }
-            } else {
-              act.get_name()
-            },
-            get_node_number(parent, act, &|n: RoNode| n.get_name() == act.get_name()).unwrap()
-          )
-        }
-      },
-      Some(x) => format!("//*[@id=\"{x}\"]"),
+    if is_end && !node.is_text_node() {
+      if let Some(next) = get_next_sibling(root_node, node) {
+        return DNMRange::serialize_node(root_node, next, false);
+      }
+    }
+    // only attributes without a namespace are found by @id
+    if let Some(id) = node.get_attribute_no_ns("id") {
+      return format!("//*[@id=\"{id}\"]");
     }
+    let parent = match node.get_parent() {
+      Some(parent) if !is_document(parent) => parent,
+      _ => return "/*[1]".to_string(), // the root element
+    };
+    let is_top_level = parent.get_parent().is_some_and(is_document);
+    let base = if is_top_level && parent.get_attribute_no_ns("id").is_none() {
+      // abbreviate, unless other nodes of the document answer to the same step
+      if is_step_ambiguous(node, get_node_number(node, node), parent) {
+        "/*[1]".to_string()
+      } else {
+        "/".to_string()
+      }
+    } else {
+      DNMRange::serialize_node(root_node, parent, false)
+    };
+    format!("{base}/{}", get_step(node))
   }
 
   /*
@@ -253,7 +260,7 @@ impl<'dnmrange> DNMRange<'dnmrange> {
   /// Gets the plaintext offset corresponding to an XPath/string-index'ed XPointer,
   /// again, does not cover everything!
   fn xpointer_to_offset(string: &str, dnm: &'dnmrange DNM, xpath_context: &Context) -> usize {
-    if string.len() > 13 && &(string[0..13]) == "string-index(" {
+    if string.starts_with("string-index(") {
       let comma = string
         .find(',')
         .unwrap_or_else(|| panic!("DNM::deserialize_part: Malformed string: \"{string}\""));
@@ -297,45 +304,88 @@ fn get_position_of_lowest_parent(node: RoNode, dnm: &DNM) -> usize {
   }
 }
 
-/// Helper function: Returns the next sibling of a node if it exists
-/// (goes up in the tree if required)
+/// Helper function: Returns the next sibling element or text of a node if it exists
+/// (goes up in the tree if required, but does not leave the root node)
 fn get_next_sibling(root_node: RoNode, node: RoNode) -> Option<RoNode> {
-  match node.get_next_sibling() {
-    None => {
-      if node == root_node {
-        dbg!("DNMRange::serialize: Warning: Can't annotate last node in document properly");
-        None
-      } else {
-        get_next_sibling(root_node, node.get_parent().unwrap())
-      }
+  if node == root_node {
+    return None;
+  }
+  let mut next = node.get_next_sibling();
+  while let Some(sibling) = next {
+    if sibling.is_element_node() || sibling.is_text_node() {
+      return Some(sibling);
+    }
+    next = sibling.get_next_sibling();
+  }
+  node
+    .get_parent()
+    .and_then(|parent| get_next_sibling(root_node, parent))
+}
+
+/// Helper function: Is this the document itself, rather than one of its elements?
+fn is_document(node: RoNode) -> bool {
+  matches!(
+    node.get_type(),
+    Some(NodeType::DocumentNode) | Some(NodeType::HtmlDocumentNode)
+  )
+}
+
+/// Helper function: The XPath step that selects an element or text among its siblings. It does not
+/// depend on the namespace prefixes known to an XPath context.
+fn get_step(node: RoNode) -> String {
+  let number = get_node_number(node, node);
+  let name = node.get_name();
+  if !node.is_element_node() {
+    format!("text()[{number}]")
+  } else if has_plain_name(node) {
+    format!("{name}[{number}]")
+  } else {
+    format!("*[local-name() = '{name}'][{number}]")
+  }
+}
+
+/// Helper function: Can the element be selected by its name alone?
+fn has_plain_name(node: RoNode) -> bool {
+  node.get_namespace().is_none() && !node.get_name().contains(':')
+}
+
+/// Helper function: Does the node test for `node` select `other`, too?
+fn is_of_kind(node: RoNode, other: RoNode) -> bool {
+  match other.get_type() {
+    Some(NodeType::ElementNode) => {
+      node.is_element_node()
+        && node.get_name() == other.get_name()
+        && (has_plain_name(other) || !has_plain_name(node))
     },
-    Some(n) => Some(n),
+    Some(NodeType::TextNode) | Some(NodeType::CDataSectionNode) => !node.is_element_node(),
+    _ => false,
   }
 }
 
-/// Helper function: Returns the number of a node (the how many-th sibling of
-/// its kind it is)
-fn get_node_number(
-  parent: RoNode,
-  target: RoNode,
-  rule: &dyn Fn(RoNode) -> bool,
-) -> Result<i32, ()> {
-  let mut cur = parent
-    .get_first_child()
-    .expect("can't get child number - node has no children");
-  let mut count = 1i32;
-  while cur != target {
-    if rule(cur) {
+/// Helper function: Returns the number of `other` among its siblings of the kind of `node`
+fn get_node_number(node: RoNode, other: RoNode) -> i32 {
+  let mut count = 1;
+  let mut previous = other.get_prev_sibling();
+  while let Some(sibling) = previous {
+    if is_of_kind(node, sibling) {
       count += 1;
     }
-    match cur.get_next_sibling() {
-      None => {
-        return Err(());
-      },
-      Some(n) => {
-        cur = n;
-      },
+    previous = sibling.get_prev_sibling();
+  }
+  count
+}
+
+/// Helper function: Does the step to `node` select other nodes within `top` (inclusive), too?
+fn is_step_ambiguous(node: RoNode, number: i32, top: RoNode) -> bool {
+  if top != node && is_of_kind(node, top) && get_node_number(node, top) == number {
+    return true;
+  }
+  let mut child = top.get_first_child();
+  while let Some(current) = child {
+    if is_step_ambiguous(node, number, current) {
+      return true;
     }
+    child = current.get_next_sibling();
   }
-  Ok(count)
+  false
 }
-- 
2.43.0


From c9272a3878e7d81d8452c68d9a1fd81de890acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 23/27] fix: the matcher takes word offsets as the byte offsets
 they are

---
 src/patterns/matching.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 22e9535..44008c6 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -315,7 +315,7 @@ fn match_seq<'t>(
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: range.get_subrange(
+              range: range.get_subrange_from_byte_offsets(
                 sentence.get_words()[pos].get_offset_start(),
                 sentence.get_words()[m.end - 1].get_offset_end(),
               ),
@@ -410,7 +410,9 @@ fn match_word<'t>(
       }
     },
     WordPattern::MathWord(ref math_pattern) => {
-      let node = range.dnm.back_map[range.start + word.get_offset_start()].0;
+      let word_range =
+        range.get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end());
+      let node = word_range.get_node();
       if node.get_name() != "math" {
         return InternalWordMatch::no_match();
       }
@@ -456,7 +458,8 @@ fn match_word<'t>(
         InternalWordMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
-              range: range.get_subrange(word.get_offset_start(), word.get_offset_end()),
+              range: range
+                .get_subrange_from_byte_offsets(word.get_offset_start(), word.get_offset_end()),
               marker: marker.clone(),
             }),
             sub_matches: m._matches,
-- 
2.43.0


From ffbe47b797ff2eae42ac9d4845e2c47018ae3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 24/27] fix: word_not matches the words its pattern does not
 match

---
 src/patterns/matching.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 44008c6..753bfdd 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -447,9 +447,12 @@ fn match_word<'t>(
     WordPattern::WordNot(ref p) => {
       let m = match_word(pf, p, word, range);
       if m.matched {
-        m
-      } else {
         InternalWordMatch::no_match()
+      } else {
+        InternalWordMatch {
+          _matches: Vec::new(),
+          matched: true,
+        }
       }
     },
     WordPattern::Marked(ref p, ref marker) => {
-- 
2.43.0


From e331ca6273c92d4c42f32e64462a88bc43267339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 25/27] fix: math_descendant looks at all descendants

---
 src/patterns/matching.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index 753bfdd..ec99253 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -599,7 +599,8 @@ fn match_math<'t>(pf: &PatternFile, rule: &MathPattern, node: RoNode) -> Interna
             matched: true,
           };
         }
-        let m = match_math(pf, pattern, child);
+        // the child and, in turn, its descendants
+        let m = match_math(pf, rule, child);
         if m.matched {
           matched = true;
           matches.extend_from_slice(&m._matches[..]);
-- 
2.43.0


From 5d09b390e552846da10c2c27098dc0a6b0f193ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:19 +0000
Subject: [PATCH 26/27] fix: markers of sequences without words cover an empty
 range instead of failing

---
 src/patterns/matching.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/patterns/matching.rs b/src/patterns/matching.rs
index ec99253..94e310f 100644
--- a/src/patterns/matching.rs
+++ b/src/patterns/matching.rs
@@ -311,14 +311,22 @@ fn match_seq<'t>(
     SequencePattern::Marked(ref pattern, ref marker) => {
       let m = match_seq(pf, pattern, sentence, phrase_tree, range, pos);
       if m.matched {
+        let words = sentence.get_words();
+        // a sequence without words is marked by an empty range
+        let start = match words.get(pos) {
+          Some(word) => word.get_offset_start(),
+          None => words.last().map_or(0, |word| word.get_offset_end()),
+        };
+        let end = if m.end > pos {
+          words[m.end - 1].get_offset_end()
+        } else {
+          start
+        };
         InternalSeqMatch {
           _matches: vec![Match {
             marker: MarkerEnum::Text(TextMarker {
               marker: marker.clone(),
-              range: range.get_subrange_from_byte_offsets(
-                sentence.get_words()[pos].get_offset_start(),
-                sentence.get_words()[m.end - 1].get_offset_end(),
-              ),
+              range: range.get_subrange_from_byte_offsets(start, end),
             }),
             sub_matches: m._matches,
           }],
@@ -337,6 +345,7 @@ fn match_seq<'t>(
       for p in patterns {
         let m = match_seq(pf, p, sentence, phrase_tree, range, pos);
         if m.matched {
+          let is_first_match = !matched;
           matched = true;
           match *match_type {
             SequenceMatchType::First => {
@@ -353,7 +362,7 @@ fn match_seq<'t>(
               matches.extend_from_slice(&m._matches);
             },
             SequenceMatchType::Longest => {
-              if m.end > longest {
+              if is_first_match || m.end > longest {
                 longest = m.end;
                 matches = m._matches;
               }
-- 
2.43.0


From ee466dad04eb93c38ecca22bb71291cdbbd4666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 27/27] fix: superfluous children of word_any and repeated
 match types are errors

---
 src/patterns/rules.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/patterns/rules.rs b/src/patterns/rules.rs
index 78c3875..0ff398d 100644
--- a/src/patterns/rules.rs
+++ b/src/patterns/rules.rs
@@ -512,14 +512,19 @@ impl SequencePattern {
       },
       "phrase" => {
         let tag_str: &str = &require_node_property(node, "tag")?;
-        let mut match_type: PhraseMatchType = PhraseMatchType::Longest; // TODO: Is this a good default?
+        let mut match_type: Option<PhraseMatchType> = None;
         let mut start: Option<(Box<SequencePattern>, SequenceContainment)> = None;
         let mut end: Option<Box<SequencePattern>> = None;
 
         for cur in get_non_text_children(node)?.into_iter() {
           match cur.get_name().as_ref() {
             "match_type" => {
-              match_type = PhraseMatchType::from_str(&get_simple_node_content(cur, true)?)?;
+              if match_type.is_some() {
+                return Err("Cannot have multiple match_type nodes in a phrase node".to_string());
+              }
+              match_type = Some(PhraseMatchType::from_str(&get_simple_node_content(
+                cur, true,
+              )?)?);
             },
             "starts_with_seq" => {
               if start.is_some() {
@@ -552,7 +557,7 @@ impl SequencePattern {
         }
         Ok(SequencePattern::Phrase(
           *tag_opt.unwrap(),
-          match_type,
+          match_type.unwrap_or(PhraseMatchType::Longest), // TODO: Is this a good default?
           start,
           end,
         ))
@@ -607,7 +612,10 @@ impl WordPattern {
         get_only_child(node)?,
         pctx,
       )?)),
-      "word_any" => Ok(WordPattern::AnyWord),
+      "word_any" => {
+        assert_no_child(node)?;
+        Ok(WordPattern::AnyWord)
+      },
       "word_not" => Ok(WordPattern::WordNot(Box::new(WordPattern::load_from_node(
         get_only_child(node)?,
         pctx,
-- 
2.43.0


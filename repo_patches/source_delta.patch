From f4a968ded82b91ab95154f24b70f68c0f7e78df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 01/31] fix: do not treat a word such as +5 as a file
 descriptor

---
 src/parse.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c565d4..de4702a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -719,9 +719,18 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             }
         }
 
+        // NB `u16::from_str` would also accept a leading `+`
+        fn parse_fd(s: &str) -> Option<u16> {
+            if s.chars().all(|c| c.is_digit(10)) {
+                u16::from_str(s).ok()
+            } else {
+                None
+            }
+        }
+
         fn as_num<C>(word: &ComplexWordKind<C>) -> Option<u16> {
             match *word {
-                Single(Simple(SimpleWordKind::Literal(ref s))) => u16::from_str_radix(s, 10).ok(),
+                Single(Simple(SimpleWordKind::Literal(ref s))) => parse_fd(s),
                 Single(_) => None,
                 Concat(ref fragments) => {
                     let mut buf = String::new();
@@ -733,7 +742,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         }
                     }
 
-                    u16::from_str_radix(&buf, 10).ok()
+                    parse_fd(&buf)
                 }
             }
         }
-- 
2.43.0


From f5242819c38720d3f8cd466027f248aaa5190ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 02/31] fix: keep an assignment value that starts with #

---
 src/parse.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index de4702a..73980c7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -606,10 +606,20 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 if let Some(Name(var)) = self.iter.next() {
                     self.iter.next(); // Consume the =
 
-                    let value = if let Some(&Whitespace(_)) = self.iter.peek() {
-                        None
-                    } else {
-                        self.word()?
+                    let value = match self.iter.peek() {
+                        Some(&Whitespace(_)) => None,
+                        // A # right after the = is not at the start of
+                        // a word, so it does not begin a comment.
+                        Some(&Pound) => {
+                            let value = self.word_continued_raw(None)?;
+                            let value = match value {
+                                Some(w) => Some(self.builder.word(w)?),
+                                None => None,
+                            };
+                            self.skip_whitespace();
+                            value
+                        }
+                        _ => self.word()?,
                     };
                     vars.push(RedirectOrEnvVar::EnvVar(var, value));
 
@@ -1158,6 +1168,15 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             return Ok(None);
         }
 
+        self.word_continued_raw(delim)
+    }
+
+    /// Parses the contents of a word (up to an optional delimiter) without skipping any
+    /// leading whitespace and without checking whether a comment starts here instead.
+    fn word_continued_raw(
+        &mut self,
+        delim: Option<Token>,
+    ) -> ParseResult<Option<ComplexWordKind<B::Command>>, B::Error> {
         let mut words = Vec::new();
         loop {
             if delim.is_some() && self.iter.peek() == delim.as_ref() {
-- 
2.43.0


From fe5318a2f6fd38998e1910f79ad4a8e0dace6d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 03/31] fix: keep the comments between a for variable and its
 semicolon

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 73980c7..8b4dacc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2041,7 +2041,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         } else if Some(&Semi) == self.iter.peek() {
             // `for name \n*;\n* do_group`
             eat!(self, { Semi => {} });
-            (None, self.linebreak())
+            let mut pre_body_comments = post_var_comments;
+            pre_body_comments.extend(self.linebreak());
+            (None, pre_body_comments)
         } else if self.peek_reserved_word(&[DO]).is_none() {
             // If we didn't find an `in` keyword, and we havent hit the body
             // (a `do` keyword), then we can reasonably say the script has
-- 
2.43.0


From e85c4156f98d1c51e8ebb68287af3b9e0294ff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 04/31] fix: do not panic on a heredoc body which ends with a
 backslash

---
 src/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 8b4dacc..1148048 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1349,7 +1349,9 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         _ => false,
                     };
 
-                    if special || self.iter.peek() == delim_close.as_ref() {
+                    if special
+                        || (delim_close.is_some() && self.iter.peek() == delim_close.as_ref())
+                    {
                         store!(SimpleWordKind::Escaped(
                             self.iter.next().unwrap().to_string()
                         ))
-- 
2.43.0


From 5c40e6b4da6d686b81f99a6dc38838106bf86fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 05/31] fix: count pending tokens in the upper bound of
 Lexer::size_hint

---
 src/lexer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index af7b2eb..18ab6c1 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -260,7 +260,13 @@ impl<I: Iterator<Item = char>> Iterator for Lexer<I> {
         // themselves for the worst possible case. A high estimate
         // is better than no estimate.
         let (_, hi) = self.inner.size_hint();
-        let low = if self.peeked.is_some() { 1 } else { 0 };
-        (low, hi)
+        // Tokens we have already recognized no longer have any
+        // characters left in the inner iterator to account for them.
+        let pending = match self.peeked {
+            Some(Escaped(Some(_))) => 2,
+            Some(_) => 1,
+            None => 0,
+        };
+        (pending, hi.and_then(|hi| hi.checked_add(pending)))
     }
 }
-- 
2.43.0


From 712203b1620de74179d88679d9b9d947b72de900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 06/31] fix: strip tabs only from the start of <<- heredoc
 lines

---
 src/parse.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1148048..b14842c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1019,27 +1019,29 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
-            'line: loop {
-                if strip_tabs {
-                    let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
-                        let stripped = w.trim_start_matches('\t');
-                        let num_tabs = w.len() - stripped.len();
-                        line_start_pos.advance_tabs(num_tabs);
-
-                        if !stripped.is_empty() {
-                            line.push(Whitespace(stripped.to_owned()));
-                        }
 
-                        true
-                    } else {
-                        false
-                    };
+            // Only tabs at the very start of the line are stripped
+            if strip_tabs {
+                let skip_next = if let Some(&Whitespace(ref w)) = self.iter.peek() {
+                    let stripped = w.trim_start_matches('\t');
+                    let num_tabs = w.len() - stripped.len();
+                    line_start_pos.advance_tabs(num_tabs);
 
-                    if skip_next {
-                        self.iter.next();
+                    if !stripped.is_empty() {
+                        line.push(Whitespace(stripped.to_owned()));
                     }
+
+                    true
+                } else {
+                    false
+                };
+
+                if skip_next {
+                    self.iter.next();
                 }
+            }
 
+            'line: loop {
                 let next = self.iter.next();
                 match next {
                     // If we haven't grabbed any input we must have hit EOF
-- 
2.43.0


From 57c759c13fa73207601f9b7241b7b0cff2f362ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 07/31] fix: do not look for quotes in a comment which follows
 a heredoc operator

---
 src/parse.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b14842c..79a73c5 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1002,16 +1002,29 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // we feed it).
         let saved_pos = self.iter.pos();
         let mut saved_tokens = Vec::new();
-        while self.iter.peek().is_some() {
+        let mut comment_may_start = false;
+        let mut in_comment = false;
+        while let Some(next) = self.iter.peek() {
             // Make sure we save all tokens until the next UNQUOTED newilne
-            if let Some(&Newline) = self.iter.peek() {
+            if next == &Newline {
                 saved_tokens.push(self.iter.next().unwrap());
                 break;
             }
 
+            // Quotes (and the like) have no meaning inside of a comment
+            in_comment |= comment_may_start && next == &Pound;
+            if in_comment {
+                saved_tokens.push(self.iter.next().unwrap());
+                continue;
+            }
+
+            // An escaped newline is treated like any other whitespace
+            let is_delim = next.is_word_delimiter();
+            let unit_start = saved_tokens.len();
             for t in self.iter.balanced() {
                 saved_tokens.push(try_map!(t));
             }
+            comment_may_start = is_delim || saved_tokens[unit_start..] == [Backslash, Newline];
         }
 
         let heredoc_start_pos = self.iter.pos();
-- 
2.43.0


From 31d446b074f993ad6db4ab3010af65956b4d6860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 08/31] fix: do not require a double quoted ( to be balanced

---
 src/parse/iter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index e874b8d..6dc6db0 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -449,6 +449,8 @@ pub struct Balanced<I> {
     stack: Vec<(Token, SourcePos)>,
     /// Indicates if we should yield the final, outermost delimeter.
     skip_last_delimeter: bool,
+    /// Indicates that the last yielded token was an unescaped `$`.
+    after_dollar: bool,
     /// Makes the iterator *fused* by yielding None forever after we are done.
     done: bool,
     /// The current position of the iterator.
@@ -470,6 +472,7 @@ impl<I: PositionIterator> Balanced<I> {
             escaped: None,
             skip_last_delimeter: delim.is_some(),
             stack: delim.map_or(Vec::new(), |d| vec![d]),
+            after_dollar: false,
             done: false,
             pos: iter.pos(),
             iter,
@@ -494,6 +497,8 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             return None;
         }
 
+        let after_dollar = mem::replace(&mut self.after_dollar, false);
+
         if self.stack.last().map(|t| &t.0) == self.iter.peek() {
             let ret = self.iter.next().map(Ok);
             self.stack.pop();
@@ -555,11 +560,15 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             }
 
             Some(ParenOpen) => {
-                self.stack.push((ParenClose, cur_pos));
+                // Within double quotes only a `$(` needs to be matched
+                if after_dollar || self.stack.last().map(|t| &t.0) != Some(&DoubleQuote) {
+                    self.stack.push((ParenClose, cur_pos));
+                }
                 Some(Ok(ParenOpen))
             }
 
             Some(Dollar) => {
+                self.after_dollar = true;
                 let cur_pos = self.iter.pos(); // Want the pos of curly or paren, not $ here
                 match self.iter.peek() {
                     Some(&CurlyOpen) => self.stack.push((CurlyClose, cur_pos)),
-- 
2.43.0


From 029c095237e73cdc4102f7d146cfefcaa88caa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 09/31] fix: report exact positions within backticks and
 heredoc bodies

---
 src/parse.rs      | 63 ++++++++++++++++++++++++++---------------------
 src/parse/iter.rs | 58 +++++++++++++++++++------------------------
 2 files changed, 60 insertions(+), 61 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 79a73c5..943c7a3 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1000,36 +1000,45 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         // heredocs, especially if we want to keep the builder unaware of our
         // shenanigans (since it *could* be keeping some internal state of what
         // we feed it).
-        let saved_pos = self.iter.pos();
+        // NB we must remember where each token came from: if we are within a backtick
+        // substitution there may be gaps where any backslashes have been removed.
         let mut saved_tokens = Vec::new();
         let mut comment_may_start = false;
         let mut in_comment = false;
         while let Some(next) = self.iter.peek() {
             // Make sure we save all tokens until the next UNQUOTED newilne
             if next == &Newline {
-                saved_tokens.push(self.iter.next().unwrap());
+                let pos = self.iter.pos();
+                saved_tokens.push((self.iter.next().unwrap(), pos));
                 break;
             }
 
             // Quotes (and the like) have no meaning inside of a comment
             in_comment |= comment_may_start && next == &Pound;
             if in_comment {
-                saved_tokens.push(self.iter.next().unwrap());
+                let pos = self.iter.pos();
+                saved_tokens.push((self.iter.next().unwrap(), pos));
                 continue;
             }
 
             // An escaped newline is treated like any other whitespace
-            let is_delim = next.is_word_delimiter();
-            let unit_start = saved_tokens.len();
-            for t in self.iter.balanced() {
-                saved_tokens.push(try_map!(t));
+            comment_may_start = next.is_word_delimiter() || {
+                let mut peeked = self.iter.multipeek();
+                Some(&Backslash) == peeked.peek_next() && Some(&Newline) == peeked.peek_next()
+            };
+
+            let mut unit = self.iter.balanced();
+            loop {
+                let pos = unit.pos();
+                match unit.next() {
+                    Some(t) => saved_tokens.push((try_map!(t), pos)),
+                    None => break,
+                }
             }
-            comment_may_start = is_delim || saved_tokens[unit_start..] == [Backslash, Newline];
         }
 
-        let heredoc_start_pos = self.iter.pos();
         let mut heredoc = Vec::new();
-        'heredoc: loop {
+        let heredoc_end_pos = 'heredoc: loop {
             let mut line_start_pos = self.iter.pos();
             let mut line = Vec::new();
 
@@ -1041,7 +1050,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     line_start_pos.advance_tabs(num_tabs);
 
                     if !stripped.is_empty() {
-                        line.push(Whitespace(stripped.to_owned()));
+                        line.push((Whitespace(stripped.to_owned()), line_start_pos));
                     }
 
                     true
@@ -1055,11 +1064,12 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             }
 
             'line: loop {
+                let pos = self.iter.pos();
                 let next = self.iter.next();
                 match next {
                     // If we haven't grabbed any input we must have hit EOF
                     // which should delimit the heredoc body
-                    None if line.is_empty() => break 'heredoc,
+                    None if line.is_empty() => break 'heredoc line_start_pos,
 
                     // Otherwise, if we have a partial line captured, check
                     // whether it happens to be the delimeter, and append it
@@ -1070,7 +1080,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         // slow to stringify each and every line (and alloc it in memory)
                         // when token length checks are available without converting to strings.
                         let mut line_len = 0;
-                        for t in &line {
+                        for (t, _) in &line {
                             line_len += t.len();
                             if line_len > delim_r_len {
                                 break;
@@ -1084,40 +1094,37 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                         // of positions in the source, as we could have one or two byte Newlines,
                         // or two different tokens to deal with.
                         if line_len == delim_len || line_len == delim_r_len {
-                            let line_str = concat_tokens(&line);
+                            let line_str: String = line.iter().map(|(t, _)| t.as_str()).collect();
                             if line_str == delim || line_str == delim_r {
-                                break 'heredoc;
+                                break 'heredoc line_start_pos;
                             }
                         }
 
                         if next == Some(Newline) {
-                            line.push(Newline);
+                            line.push((Newline, pos));
                         }
                         break 'line;
                     }
 
-                    Some(t) => line.push(t),
+                    Some(t) => line.push((t, pos)),
                 }
             }
 
-            heredoc.push((line, line_start_pos));
-        }
+            heredoc.extend(line);
+        };
 
-        self.iter
-            .buffer_tokens_to_yield_first(saved_tokens, saved_pos);
+        self.iter.buffer_tokens_to_yield_first(saved_tokens);
 
         let body = if quoted {
-            let body = heredoc.into_iter().flat_map(|(t, _)| t).collect::<Vec<_>>();
-            Single(Simple(SimpleWordKind::Literal(concat_tokens(&body))))
+            let body = heredoc.iter().map(|(t, _)| t.as_str()).collect();
+            Single(Simple(SimpleWordKind::Literal(body)))
         } else {
-            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_start_pos);
-            while let Some((line, pos)) = heredoc.pop() {
-                tok_iter.buffer_tokens_to_yield_first(line, pos);
-            }
+            let mut tok_iter = TokenIter::with_position(empty_iter(), heredoc_end_pos);
+            tok_iter.buffer_tokens_to_yield_first(heredoc);
 
             let mut tok_backup = TokenIterWrapper::Buffered(tok_iter);
             mem::swap(&mut self.iter, &mut tok_backup);
-            let mut body = self.word_interpolated_raw(None, heredoc_start_pos)?;
+            let mut body = self.word_interpolated_raw(None, heredoc_end_pos)?;
             let _ = mem::replace(&mut self.iter, tok_backup);
 
             if body.len() > 1 {
diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 6dc6db0..18df1c5 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -277,13 +277,20 @@ impl<I: Iterator<Item = Token>> TokenIter<I> {
         self.updated_buffered_pos();
     }
 
-    /// Accepts a vector of tokens to be yielded completely before the inner
-    /// iterator is advanced further. The provided `buf_start` indicates
-    /// what the iterator's position should have been if we were to naturally
-    /// yield the provided buffer.
-    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<Token>, buf_start: SourcePos) {
-        let tokens = buf.into_iter().map(TokenOrPos::Tok).collect();
-        self.buffer_tokens_and_positions_to_yield_first(tokens, Some(buf_start));
+    /// Accepts a vector of tokens, and where each of them appears in the source,
+    /// to be yielded completely before the inner iterator is advanced further.
+    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<(Token, SourcePos)>) {
+        let start = match buf.first() {
+            Some(&(_, pos)) => pos,
+            None => return,
+        };
+
+        let mut tokens = Vec::with_capacity(2 * buf.len());
+        for (tok, pos) in buf {
+            tokens.push(TokenOrPos::Pos(pos));
+            tokens.push(TokenOrPos::Tok(tok));
+        }
+        self.buffer_tokens_and_positions_to_yield_first(tokens, Some(start));
     }
 
     /// Collects all tokens yielded by `TokenIter::backticked_remove_backslashes`
@@ -407,14 +414,10 @@ impl<I: Iterator<Item = Token>> TokenIterWrapper<I> {
     }
 
     /// Delegates to `TokenIter::buffer_tokens_to_yield_first`.
-    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<Token>, buf_start: SourcePos) {
+    pub fn buffer_tokens_to_yield_first(&mut self, buf: Vec<(Token, SourcePos)>) {
         match *self {
-            TokenIterWrapper::Regular(ref mut inner) => {
-                inner.buffer_tokens_to_yield_first(buf, buf_start)
-            }
-            TokenIterWrapper::Buffered(ref mut inner) => {
-                inner.buffer_tokens_to_yield_first(buf, buf_start)
-            }
+            TokenIterWrapper::Regular(ref mut inner) => inner.buffer_tokens_to_yield_first(buf),
+            TokenIterWrapper::Buffered(ref mut inner) => inner.buffer_tokens_to_yield_first(buf),
         }
     }
 
@@ -644,45 +647,34 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
     fn create_token_iter(
         mut iter: Balanced<I>,
     ) -> Result<TokenIter<std_iter::Empty<Token>>, UnmatchedError> {
-        let mut all_chunks = Vec::new();
-        let mut chunk_start = iter.pos();
-        let mut chunk = Vec::new();
+        let mut tokens = Vec::new();
 
         loop {
+            let pos = iter.pos();
             match iter.next() {
                 Some(Ok(Backslash)) => {
                     let next_pos = iter.pos();
                     match iter.next() {
                         Some(Ok(tok @ Dollar))
                         | Some(Ok(tok @ Backtick))
-                        | Some(Ok(tok @ Backslash)) => {
-                            all_chunks.push((chunk, chunk_start));
-                            chunk_start = next_pos;
-                            chunk = vec![tok];
-                        }
+                        | Some(Ok(tok @ Backslash)) => tokens.push((tok, next_pos)),
 
                         Some(tok) => {
-                            chunk.push(Backslash);
-                            chunk.push(tok?);
+                            tokens.push((Backslash, pos));
+                            tokens.push((tok?, next_pos));
                         }
 
-                        None => chunk.push(Backslash),
+                        None => tokens.push((Backslash, pos)),
                     }
                 }
 
-                Some(tok) => chunk.push(tok?),
+                Some(tok) => tokens.push((tok?, pos)),
                 None => break,
             }
         }
 
-        if !chunk.is_empty() {
-            all_chunks.push((chunk, chunk_start));
-        }
-
         let mut tok_iter = TokenIter::with_position(std_iter::empty(), iter.pos());
-        while let Some((chunk, chunk_end)) = all_chunks.pop() {
-            tok_iter.buffer_tokens_to_yield_first(chunk, chunk_end);
-        }
+        tok_iter.buffer_tokens_to_yield_first(tokens);
         Ok(tok_iter)
     }
 }
-- 
2.43.0


From d8ff82b0cec7aa66e4ef0118f1f2395e9c928933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 10/31] fix: lex what follows an unescaped $ or \ within
 backticks again

---
 src/parse/iter.rs | 64 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 6 deletions(-)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 18df1c5..0e3448e 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -1,5 +1,6 @@
 //! An module for easily iterating over a `Token` stream.
 
+use crate::lexer::Lexer;
 use crate::parse::SourcePos;
 use crate::token::Token;
 use crate::token::Token::*;
@@ -647,6 +648,8 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
     fn create_token_iter(
         mut iter: Balanced<I>,
     ) -> Result<TokenIter<std_iter::Empty<Token>>, UnmatchedError> {
+        // Each token is stored along with its position, and with
+        // whether it had a backslash in front of it removed.
         let mut tokens = Vec::new();
 
         loop {
@@ -657,26 +660,75 @@ impl<I: PeekablePositionIterator<Item = Token>> BacktickBackslashRemover<I> {
                     match iter.next() {
                         Some(Ok(tok @ Dollar))
                         | Some(Ok(tok @ Backtick))
-                        | Some(Ok(tok @ Backslash)) => tokens.push((tok, next_pos)),
+                        | Some(Ok(tok @ Backslash)) => tokens.push((tok, next_pos, true)),
 
                         Some(tok) => {
-                            tokens.push((Backslash, pos));
-                            tokens.push((tok?, next_pos));
+                            tokens.push((Backslash, pos, false));
+                            tokens.push((tok?, next_pos, false));
                         }
 
-                        None => tokens.push((Backslash, pos)),
+                        None => tokens.push((Backslash, pos, false)),
                     }
                 }
 
-                Some(tok) => tokens.push((tok?, pos)),
+                Some(tok) => tokens.push((tok?, pos, false)),
                 None => break,
             }
         }
 
         let mut tok_iter = TokenIter::with_position(std_iter::empty(), iter.pos());
-        tok_iter.buffer_tokens_to_yield_first(tokens);
+        tok_iter.buffer_tokens_to_yield_first(Self::rejoin(tokens));
         Ok(tok_iter)
     }
+
+    /// A token which was escaped may have been lexed differently had its backslash
+    /// not been there: `\$1` consists of a `$` and a literal instead of a positional
+    /// parameter, and in `\\$1` the second backslash did not escape the `$`.
+    /// Thus any such tokens have to be lexed again along with whatever follows them.
+    fn rejoin(tokens: Vec<(Token, SourcePos, bool)>) -> Vec<(Token, SourcePos)> {
+        let mut ret = Vec::with_capacity(tokens.len());
+        let mut tokens = tokens.into_iter().peekable();
+        let mut escaped = false;
+
+        while let Some((tok, pos, was_escaped)) = tokens.next() {
+            let is_backslash = tok == Backslash;
+            let rejoin = was_escaped
+                && !escaped
+                && match tokens.peek() {
+                    Some(&(_, _, true)) | None => false,
+                    Some(&(Literal(ref s), _, _)) if tok == Dollar => {
+                        s.starts_with(|c: char| c.is_digit(10))
+                    }
+                    Some(_) => is_backslash,
+                };
+
+            if !rejoin {
+                escaped = is_backslash && !escaped;
+                ret.push((tok, pos));
+                continue;
+            }
+
+            if let Some((next, mut next_pos, _)) = tokens.next() {
+                let src = format!("{}{}", tok, next);
+                let mut lexer = Lexer::new(src.chars());
+                if let Some(first) = lexer.next() {
+                    // The first token may have taken something from the second one
+                    next_pos.byte += first.len() - tok.len();
+                    next_pos.col += first.len() - tok.len();
+                    ret.push((first, pos));
+                }
+
+                for t in lexer {
+                    let pos = next_pos;
+                    next_pos.advance(&t);
+                    ret.push((t, pos));
+                }
+            }
+            escaped = false;
+        }
+
+        ret
+    }
 }
 
 impl<I> std::iter::FusedIterator for BacktickBackslashRemover<I> where
-- 
2.43.0


From b7681d8f724c4611bc7e9f72d096cdb682cb64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 11/31] fix: merge adjacent literals inside double quotes of
 concatenated words

A double-quoted word had its adjacent literal pieces merged by the default
builder only when it stood alone, not when it was part of a longer word.
---
 src/ast/builder/default_builder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ast/builder/default_builder.rs b/src/ast/builder/default_builder.rs
index a4244ba..e6672a3 100644
--- a/src/ast/builder/default_builder.rs
+++ b/src/ast/builder/default_builder.rs
@@ -793,13 +793,18 @@ fn compress<C>(word: ComplexWordKind<C>) -> ComplexWordKind<C> {
         }
     }
 
-    match word {
-        Single(s) => Single(match s {
+    fn coalesce_quoted<C>(word: WordKind<C>) -> WordKind<C> {
+        match word {
             s @ Simple(_) | s @ SingleQuoted(_) => s,
             DoubleQuoted(v) => DoubleQuoted(Coalesce::new(v, coalesce_simple).collect()),
-        }),
+        }
+    }
+
+    match word {
+        Single(s) => Single(coalesce_quoted(s)),
         Concat(v) => {
-            let mut body: Vec<_> = Coalesce::new(v.into_iter(), coalesce_word).collect();
+            let v = v.into_iter().map(coalesce_quoted);
+            let mut body: Vec<_> = Coalesce::new(v, coalesce_word).collect();
             if body.len() == 1 {
                 Single(body.pop().unwrap())
             } else {
-- 
2.43.0


From 65a2b855ac99077cce1fd194ae24dbddf9b633a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 12/31] fix: count the column from the last newline within a
 token

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 943c7a3..2c6d1f2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -86,7 +86,10 @@ impl SourcePos {
         let tok_len = next.len();
         self.byte += tok_len;
         self.line += newlines;
-        self.col = if newlines == 0 { self.col + tok_len } else { 1 };
+        self.col = match next.as_str().rfind('\n') {
+            None => self.col + tok_len,
+            Some(last_newline) => tok_len - last_newline,
+        };
     }
 
     /// Increments self by `num_tab` tab characters
-- 
2.43.0


From 9a63a55c75dd5ceb044f64a297265501638b50d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 13/31] fix: reject a second ! of a pipeline after whitespace
 as well

---
 src/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.rs b/src/parse.rs
index 2c6d1f2..a321dd1 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -554,6 +554,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         loop {
             // We've already passed an apropriate spot for !, so it
             // is an error if it appears before the start of a command.
+            self.skip_whitespace();
             if let Some(&Bang) = self.iter.peek() {
                 return Err(self.make_unexpected_err());
             }
-- 
2.43.0


From dbe26d2234139a8e3023e5792c7a1f823880c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 14/31] fix: keep the redirections of a subshell which is a
 function's body

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index a321dd1..1b3c79b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2331,7 +2331,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     None
                 } else {
                     // Case like `function foo (subshell)`
-                    Some(self.builder.subshell(subshell, Vec::new())?)
+                    let io = self.redirect_list()?;
+                    Some(self.builder.subshell(subshell, io)?)
                 }
             } else {
                 None
-- 
2.43.0


From ce31415a37bb195016d6272cfebe0074af62f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 15/31] fix: name until in the error about its missing do

---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1b3c79b..ffcf793 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1927,6 +1927,10 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             UNTIL => builder::LoopKind::Until,
             _ => unreachable!(),
         };
+        let kw = match kind {
+            builder::LoopKind::While => WHILE,
+            builder::LoopKind::Until => UNTIL,
+        };
         let guard = self.command_group(CommandGroupDelimiters {
             reserved_words: &[DO],
             ..Default::default()
@@ -1940,7 +1944,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 },
             )),
             None => Err(ParseError::IncompleteCmd(
-                WHILE,
+                kw,
                 start_pos,
                 DO,
                 self.iter.pos(),
-- 
2.43.0


From 7340703ca289cb7b7f31ffc0e2b5db1e9d6cda1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 16/31] fix: accept an empty quoted here-document delimiter

---
 src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index ffcf793..71dd12e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -986,7 +986,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             }
         }
 
-        if delim.is_empty() {
+        // NB a quoted delimeter may be empty, e.g. `<<""` is delimited by an empty line
+        if delim.is_empty() && !quoted {
             return Err(self.make_unexpected_err());
         }
 
-- 
2.43.0


From 05b03b8495c4271cd0b28807e512445e539339ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 17/31] fix: continue after an escaped newline following an
 assignment's =

---
 src/parse.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 71dd12e..28ab58f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -610,6 +610,20 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 if let Some(Name(var)) = self.iter.next() {
                     self.iter.next(); // Consume the =
 
+                    // The line continues after an escaped newline, so
+                    // there may yet be a value, or only whitespace.
+                    loop {
+                        let mut peeked = self.iter.multipeek();
+                        if Some(&Backslash) != peeked.peek_next()
+                            || Some(&Newline) != peeked.peek_next()
+                        {
+                            break;
+                        }
+                        drop(peeked);
+                        self.iter.next();
+                        self.iter.next();
+                    }
+
                     let value = match self.iter.peek() {
                         Some(&Whitespace(_)) => None,
                         // A # right after the = is not at the start of
-- 
2.43.0


From 956e19dcb3a29099b1fd09419fafdc34ca20caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 18/31] fix: a # right after the name of a for loop does not
 start a comment

---
 src/parse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 28ab58f..f550aac 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2053,6 +2053,11 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             _ => unreachable!(),
         };
 
+        // A `#` within a word does not start a comment
+        if let Some(&Pound) = self.iter.peek() {
+            return Err(self.make_unexpected_err());
+        }
+
         let var_comment = self.newline();
         let post_var_comments = self.linebreak();
 
-- 
2.43.0


From eb192e08eb7d093016f6bde0eeaa6f1e3c013d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 19/31] fix: a -- after a unary plus (or ++ after a minus) is a
 pre-decrement

---
 src/parse.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index f550aac..e8f71d6 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2874,12 +2874,6 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             Tilde => { ast::Arithmetic::BitwiseNot(Box::new(self.arith_unary_misc()?)) },
             Plus  => {
                 eat_maybe!(self, {
-                    // Although we can optimize this out, we'll let the AST builder handle
-                    // optimizations, in case it is interested in such redundant situations.
-                    Dash => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryPlus(Box::new(ast::Arithmetic::UnaryMinus(Box::new(next))))
-                    },
                     Plus => { ast::Arithmetic::PreIncr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryPlus(Box::new(self.arith_unary_misc()?)) }
                 })
@@ -2887,12 +2881,6 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
             Dash  => {
                 eat_maybe!(self, {
-                    // Although we can optimize this out, we'll let the AST builder handle
-                    // optimizations, in case it is interested in such redundant situations.
-                    Plus => {
-                        let next = self.arith_unary_misc()?;
-                        ast::Arithmetic::UnaryMinus(Box::new(ast::Arithmetic::UnaryPlus(Box::new(next))))
-                    },
                     Dash => { ast::Arithmetic::PreDecr(self.arith_var()?) };
                     _ => { ast::Arithmetic::UnaryMinus(Box::new(self.arith_unary_misc()?)) }
                 })
-- 
2.43.0


From 10346fccf70a24de75dfeb6a971f11db34b0a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:53 +0000
Subject: [PATCH 20/31] fix: the middle operand of ?: may be any arithmetic
 expression

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index e8f71d6..ddfc13c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2713,7 +2713,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         self.skip_whitespace();
         eat_maybe!(self, {
             Question => {
-                let body = self.arith_ternary()?;
+                let body = self.arithmetic_substitution()?;
                 self.skip_whitespace();
                 eat!(self, { Colon => {} });
                 let els = self.arith_ternary()?;
-- 
2.43.0


From b3a948da1019f1e67862b26df2cbe49e9ee8b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 21/31] fix: a colon without an operator is a bad substitution

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index ddfc13c..81db35f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1627,7 +1627,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         let op = match self.iter.next() {
             Some(tok @ Dash) | Some(tok @ Equals) | Some(tok @ Question) | Some(tok @ Plus) => tok,
 
-            Some(CurlyClose) => return Ok(SimpleWordKind::Param(param)),
+            Some(CurlyClose) if !has_colon => return Ok(SimpleWordKind::Param(param)),
 
             Some(t) => return Err(ParseError::BadSubst(t, op_pos)),
             None => return Err(ParseError::Unmatched(CurlyOpen, curly_open_pos)),
-- 
2.43.0


From 09e03c2fd2ecb0b5d2ea19ddbd337368ca1b2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 22/31] fix: a backslash before a double quote is literal in
 here-documents

---
 src/parse.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 81db35f..c414d22 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1385,8 +1385,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 // Backslashes only escape a few tokens when double-quoted-type words
                 Some(Backslash) => {
                     let special = match self.iter.peek() {
-                        Some(&Dollar) | Some(&Backtick) | Some(&DoubleQuote) | Some(&Backslash)
-                        | Some(&Newline) => true,
+                        Some(&Dollar) | Some(&Backtick) | Some(&Backslash) | Some(&Newline) => true,
                         _ => false,
                     };
 
-- 
2.43.0


From 5ff652a952cb6eff19d641c07c26c03aab9f7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 23/31] fix: a case that ends within its patterns lacks its
 esac

---
 src/parse.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index c414d22..bfdb98e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2178,14 +2178,15 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 self.iter.next();
             }
 
-            // Make sure we check for missing `esac` here, otherwise if we have EOF
-            // trying to parse a word will result in an `UnexpectedEOF` error
-            if self.iter.peek().is_none() {
-                return Err(()).map_err(missing_esac!());
-            }
-
             let mut patterns = Vec::new();
             loop {
+                // Make sure we check for missing `esac` here, otherwise if we have EOF
+                // trying to parse a word will result in an `UnexpectedEOF` error
+                self.skip_whitespace();
+                if self.iter.peek().is_none() {
+                    return Err(()).map_err(missing_esac!());
+                }
+
                 match self.word()? {
                     Some(p) => patterns.push(p),
                     None => return Err(self.make_unexpected_err()),
-- 
2.43.0


From cc1ad7e0fd76cced5831ff7fa3a3c8c4db39164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 24/31] fix: an escaped newline may precede the = of an
 arithmetic assignment

---
 src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index bfdb98e..9607412 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2652,6 +2652,12 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     Some(&Name(_)) => loop {
                         match peeked.peek_next() {
                             Some(&Whitespace(_)) => continue, // Skip whitespace and peek next
+                            // Escaped newlines are skipped as well
+                            Some(&Backslash) => {
+                                if Some(&Newline) == peeked.peek_next() {
+                                    continue;
+                                }
+                            }
                             Some(&Star) | Some(&Slash) | Some(&Percent) | Some(&Plus)
                             | Some(&Dash) | Some(&DLess) | Some(&DGreat) | Some(&Amp)
                             | Some(&Pipe) | Some(&Caret) => {
-- 
2.43.0


From 92ce7ba3b8bd24472c47928eb8474c835619f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:39 +0000
Subject: [PATCH 25/31] fix: a reserved word may be followed by an escaped
 newline

---
 src/parse.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 9607412..e8ea3ed 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2469,6 +2469,8 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
 
                 if let ret @ Some(_) = found_tok {
                     let found_delim = match peeked.peek_next() {
+                        // An escaped newline ends a word as well
+                        Some(&Backslash) => Some(&Newline) == peeked.peek_next(),
                         Some(delim) => delim.is_word_delimiter(),
                         None => true, // EOF is also a valid delimeter
                     };
@@ -2508,10 +2510,17 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             _ => None,
         };
 
-        match peeked.peek_next() {
-            Some(delim) if delim.is_word_delimiter() => found_tok,
-            None => found_tok, // EOF is a valid delimeter
-            _ => None,
+        let found_delim = match peeked.peek_next() {
+            // An escaped newline ends a word as well
+            Some(&Backslash) => Some(&Newline) == peeked.peek_next(),
+            Some(delim) => delim.is_word_delimiter(),
+            None => true, // EOF is a valid delimeter
+        };
+
+        if found_delim {
+            found_tok
+        } else {
+            None
         }
     }
 
-- 
2.43.0


From 0bb8d5c7905d4f35a86b88a7d374782d7b9eca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 26/31] fix: an escaped newline may follow the name of a
 function

---
 src/parse.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index e8ea3ed..25671b0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2271,10 +2271,17 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         let is_fn = {
             let mut peeked = self.iter.multipeek();
             if let Some(&Name(_)) = peeked.peek_next() {
-                match peeked.peek_next() {
-                    Some(&Whitespace(_)) => Some(&ParenOpen) == peeked.peek_next(),
-                    Some(&ParenOpen) => true,
-                    _ => false,
+                loop {
+                    match peeked.peek_next() {
+                        Some(&Whitespace(_)) => {}
+                        Some(&Backslash) => {
+                            if Some(&Newline) != peeked.peek_next() {
+                                break false;
+                            }
+                        }
+                        Some(&ParenOpen) => break true,
+                        _ => break false,
+                    }
                 }
             } else {
                 false
@@ -2337,8 +2344,20 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
             // Do nothing, function declaration satisfied
             None
         } else {
-            // Enforce at least one whitespace between function declaration and body
-            eat!(self, { Whitespace(_) => {} });
+            // Enforce at least one whitespace (or escaped newline) between
+            // function declaration and body
+            let found_blank = {
+                let mut peeked = self.iter.multipeek();
+                match peeked.peek_next() {
+                    Some(&Whitespace(_)) => true,
+                    Some(&Backslash) => Some(&Newline) == peeked.peek_next(),
+                    _ => false,
+                }
+            };
+
+            if !found_blank {
+                return Err(self.make_unexpected_err());
+            }
             self.skip_whitespace();
 
             // If we didn't find the function keyword, we MUST find `()` at this time
-- 
2.43.0


From abeb38c9481fc0a02951c8ba0fe2aa01ed1ef2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:05 +0000
Subject: [PATCH 27/31] fix: a subshell that is a function's body must not be
 empty

---
 src/parse.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 25671b0..e08749a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2368,12 +2368,32 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                 None
             } else if Some(&ParenOpen) == self.iter.peek() {
                 // Otherwise it is possible for there to be a subshell as the body
-                let subshell = self.subshell_internal(true)?;
-                if subshell.commands.is_empty() && subshell.trailing_comments.is_empty() {
+                let found_empty_parens = {
+                    let mut peeked = self.iter.multipeek();
+                    peeked.peek_next();
+                    loop {
+                        match peeked.peek_next() {
+                            Some(&Whitespace(_)) => {}
+                            Some(&Backslash) => {
+                                if Some(&Newline) != peeked.peek_next() {
+                                    break false;
+                                }
+                            }
+                            Some(&ParenClose) => break true,
+                            _ => break false,
+                        }
+                    }
+                };
+
+                if found_empty_parens {
                     // Case like `function foo () ...`
+                    eat!(self, { ParenOpen => {} });
+                    self.skip_whitespace();
+                    eat!(self, { ParenClose => {} });
                     None
                 } else {
                     // Case like `function foo (subshell)`
+                    let subshell = self.subshell()?;
                     let io = self.redirect_list()?;
                     Some(self.builder.subshell(subshell, io)?)
                 }
-- 
2.43.0


From 50f816e4db51afc250afda07ecabdfed82072313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:06 +0000
Subject: [PATCH 28/31] fix: `$$` is a parameter when a digit follows it

---
 src/parse.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index e08749a..1532a71 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1479,6 +1479,19 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
                     Ok(SimpleWordKind::Param(self.parameter_inner()?))
                 }
 
+                // `$$1` is tokenized as `$` and `$1`, but it is the parameter
+                // `$$` with a digit after it.
+                Some(&ParamPositional(_)) => {
+                    let mut digit_pos = self.iter.pos();
+                    digit_pos.advance(&Dollar);
+                    if let Some(ParamPositional(p)) = self.iter.next() {
+                        let digit = Literal(p.as_num().to_string());
+                        self.iter
+                            .buffer_tokens_to_yield_first(vec![(digit, digit_pos)]);
+                    }
+                    Ok(SimpleWordKind::Param(Parameter::Dollar))
+                }
+
                 Some(&ParenOpen) | Some(&CurlyOpen) => self.parameter_substitution_raw(),
 
                 _ => Ok(SimpleWordKind::Literal(Dollar.to_string())),
-- 
2.43.0


From d435de1243f188d10c36398f7d019f35c2916659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 29/31] fix: a shift to the left by an expression that starts
 with a dash

---
 src/parse.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 1532a71..8650fee 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2881,13 +2881,36 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
         Ok(expr)
     }
 
-    arith_parse!(
-        /// Parses expressions such as `expr << expr` or `expr >> expr`.
-        fn arith_shift,
-        arith_add,
-        DLess  => ast::Arithmetic::ShiftLeft,
-        DGreat => ast::Arithmetic::ShiftRight
-    );
+    /// Parses expressions such as `expr << expr` or `expr >> expr`.
+    fn arith_shift(&mut self) -> ParseResult<DefaultArithmetic, B::Error> {
+        let mut expr = self.arith_add()?;
+        loop {
+            self.skip_whitespace();
+
+            // The dash of `expr <<-expr` is an operator of the second operand.
+            let mut dash_pos = self.iter.pos();
+            dash_pos.advance(&DLess);
+
+            eat_maybe!(self, {
+                DLess => {
+                    let next = self.arith_add()?;
+                    expr = ast::Arithmetic::ShiftLeft(Box::new(expr), Box::new(next));
+                },
+                DLessDash => {
+                    self.iter
+                        .buffer_tokens_to_yield_first(vec![(Dash, dash_pos)]);
+                    let next = self.arith_add()?;
+                    expr = ast::Arithmetic::ShiftLeft(Box::new(expr), Box::new(next));
+                },
+                DGreat => {
+                    let next = self.arith_add()?;
+                    expr = ast::Arithmetic::ShiftRight(Box::new(expr), Box::new(next));
+                };
+                _ => { break },
+            });
+        }
+        Ok(expr)
+    }
 
     arith_parse!(
         /// Parses expressions such as `expr + expr` or `expr - expr`.
-- 
2.43.0


From 9d1286263bb3bdb2ba2a5238ba2ce732d0a7994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:33 +0000
Subject: [PATCH 30/31] fix: quotes within backquotes only count once their
 backslashes are removed

---
 src/parse/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse/iter.rs b/src/parse/iter.rs
index 0e3448e..88dd97e 100644
--- a/src/parse/iter.rs
+++ b/src/parse/iter.rs
@@ -530,6 +530,7 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
             return ret;
         }
 
+        let in_backticks = self.stack.last().map(|t| &t.0) == Some(&Backtick);
         let cur_pos = self.iter.pos();
         let ret = match self.iter.next() {
             Some(Backslash) => {
@@ -546,6 +547,10 @@ impl<I: PeekablePositionIterator<Item = Token>> Iterator for Balanced<I> {
                 return Some(Ok(Backslash));
             }
 
+            // Only an unescaped backtick matters until one is found, what is between
+            // them may not even be balanced before its backslashes are removed.
+            Some(t) if in_backticks => Some(Ok(t)),
+
             Some(Backtick) => {
                 self.stack.push((Backtick, cur_pos));
                 Some(Ok(Backtick))
-- 
2.43.0


From 1863d498ab6957847f1c8334dfcad06d6bed7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:16 +0000
Subject: [PATCH 31/31] fix: a compound command starts after the blanks in
 front of it

When do_group, brace_group, loop_command, if_command, for_command or
case_command was called in front of blanks, the error about the
command's missing end gave the position of the blanks as its start.
---
 src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 8650fee..010664c 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1801,6 +1801,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     /// reserved words. Each of the reserved words must be a literal token, and cannot be
     /// quoted or concatenated.
     pub fn do_group(&mut self) -> ParseResult<builder::CommandGroup<B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[DO])
             .map_err(|_| self.make_unexpected_err())?;
@@ -1818,6 +1819,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn brace_group(&mut self) -> ParseResult<builder::CommandGroup<B::Command>, B::Error> {
         // CurlyClose must be encountered as a stand alone word,
         // even though it is represented as its own token
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_token(&[CurlyOpen])?;
         let cmds = self.command_group(CommandGroupDelimiters {
@@ -1945,6 +1947,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn loop_command(
         &mut self,
     ) -> ParseResult<(builder::LoopKind, builder::GuardBodyPairGroup<B::Command>), B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         let kind = match self
             .reserved_word(&[WHILE, UNTIL])
@@ -1985,6 +1988,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     /// method returns the relevant parts of the `if` command, without constructing an
     /// AST node, it so that the caller can do so with redirections.
     pub fn if_command(&mut self) -> ParseResult<builder::IfFragments<B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[IF])
             .map_err(|_| self.make_unexpected_err())?;
@@ -2047,6 +2051,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn for_command(
         &mut self,
     ) -> ParseResult<builder::ForFragments<B::Word, B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
         self.reserved_word(&[FOR])
             .map_err(|_| self.make_unexpected_err())?;
@@ -2150,6 +2155,7 @@ impl<I: Iterator<Item = Token>, B: Builder> Parser<I, B> {
     pub fn case_command(
         &mut self,
     ) -> ParseResult<builder::CaseFragments<B::Word, B::Command>, B::Error> {
+        self.skip_whitespace();
         let start_pos = self.iter.pos();
 
         macro_rules! missing_in {
-- 
2.43.0


From 6318f82ed54ac3f7ad3891e6e5832c65e3eef784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 01/18] fix: keep the current position alive while
 Stream::save_at() looks ahead

save_at() put the position back by hand without holding a marker for it, so
the buffer could be trimmed past it while advancing.
---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f423e90..ca5c812 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -105,10 +105,10 @@ where
     /// Saves the location at the given current or future token index. Panics if
     /// the given token index lies before the current one.
     pub fn save_at(&mut self, index: usize) -> SavedState {
-        let restore = (self.index, self.index_in_buffer);
+        let current = self.save();
         self.advance_to(index);
         let state = self.save();
-        (self.index, self.index_in_buffer) = restore;
+        self.restore(&current);
         state
     }
 
-- 
2.43.0


From 6e72988b885a13cb03403032d591c420dc9ee1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 02/18] fix: do not advance past a buffered EOF in
 Stream::advance_to()

The EOF sentinel in the buffer was counted as a token, which moved the stream
past the end of the input and made it poll the exhausted source again.
---
 src/stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index ca5c812..88a4bc3 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -344,7 +344,12 @@ where
 
         // Determine how many tokens we can advance by without refilling the
         // buffer, and do that.
-        let already_buffered = usize::min(self.buffer.len() - self.index_in_buffer, amount);
+        // The EOF sentinel is not a token, so we can't advance past it.
+        let mut buffered_tokens = self.buffer.len();
+        if self.source_at_eof {
+            buffered_tokens -= 1;
+        }
+        let already_buffered = usize::min(buffered_tokens - self.index_in_buffer, amount);
         self.index += already_buffered;
         self.index_in_buffer += already_buffered;
         amount -= already_buffered;
-- 
2.43.0


From 00bd78299ace21a719afdb0a416fdfd463918572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 03/18] fix: support saved states at the end of the buffer in
 Stream::*_at()

token_at() and location_tracker_at() panicked when the saved position was that
of the next token to be fetched from the source.
---
 src/stream.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 88a4bc3..7186d34 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -238,8 +238,17 @@ where
             return self.token();
         }
 
-        // Return the requested token from the buffer.
+        // Make sure that the requested token is in the buffer; it may not have
+        // been requested from the source iterator yet.
         assert!(*saved_state.index >= self.start_of_buffer());
+        if *saved_state.index - self.start_of_buffer() >= self.buffer.len() {
+            let current = self.save();
+            self.restore(saved_state);
+            self.make_next_available();
+            self.restore(&current);
+        }
+
+        // Return the requested token from the buffer.
         self.buffer[*saved_state.index - self.start_of_buffer()]
             .0
             .as_ref()
@@ -272,9 +281,13 @@ where
             return self.location_tracker();
         }
 
-        // Return the requested token from the buffer.
+        // Return the requested location from the buffer, or the location of
+        // the source iterator if the token there hasn't been requested yet.
         assert!(*saved_state.index >= self.start_of_buffer());
-        &self.buffer[*saved_state.index - self.start_of_buffer()].1
+        self.buffer
+            .get(*saved_state.index - self.start_of_buffer())
+            .map(|(_, x)| x)
+            .unwrap_or(&self.source_location)
     }
 
     /// Returns the current location.
-- 
2.43.0


From 6474b958ebabbe6f24d1a9d02d9a323e2e18545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 04/18] fix: report errors recovered from in repetitions

repeat() returned a plain success when it stopped because no more items
followed, dropping the errors of the items and separators that were recovered.
---
 src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index dbefab8..7ebf4ab 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -217,7 +217,7 @@ where
                         // fail.
                     } else if output.len() >= minimum {
                         // We've already matched enough, we're done.
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
@@ -261,7 +261,7 @@ where
                                 stream.restore(&state);
                             }
                         }
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
-- 
2.43.0


From 176c4780e21695929cdf998ff3f364eff1365e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 05/18] fix: keep recovered errors in Result::try_map()

Mapping a recovered result successfully turned it into a plain success.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0fffbf0..921b5ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -90,7 +90,7 @@ impl<O, E> Result<O, E> {
         match self {
             Result::Success(o) => map(o),
             Result::Recovered(o, mut es) => match map(o) {
-                Result::Success(x) => Result::Success(x),
+                Result::Success(x) => Result::Recovered(x, es),
                 Result::Recovered(x, es2) => {
                     es.extend(es2);
                     Result::Recovered(x, es)
-- 
2.43.0


From 0d5fc6f596c548e7e44a7c98cdf4ddc41e9e11f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 06/18] fix: restore the stream when TryMap fails for lack of
 recovery

A mapping function that requests recovery while recovery is disabled is a
failure, which must not consume any input.
---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index d267a32..d3c2e11 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -290,6 +290,7 @@ where
                     if enable_recovery {
                         parser::Result::Recovered(o, es)
                     } else {
+                        stream.restore(&initial);
                         parser::Result::Failed(stream.index_at(&initial), es)
                     }
                 }
-- 
2.43.0


From 4bd80f2638eb81fbe6696dd51c834b82d2d3ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 07/18] fix: report the furthest failure of alternatives that
 cannot be merged

The first failure was already taken from the iterator, so that of the
second-most likely alternative was returned instead.
---
 src/algorithm.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 7ebf4ab..2f50c34 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -360,7 +360,6 @@ macro_rules! alternate {
             }
             parser::Result::Failed(last_token_matched, vec![e])
         } else {
-            let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
             parser::Result::Failed(last_token_matched, es)
         }
     }};
@@ -435,7 +434,6 @@ where
         }
         parser::Result::Failed(last_token_matched, vec![e])
     } else {
-        let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
         parser::Result::Failed(last_token_matched, es)
     }
 }
-- 
2.43.0


From 1cb72cd07289480b73dc33578b9725bbfd45c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 08/18] fix: accept a leading separator when no items follow

allow_leading() documents that the separator is allowed even if no items are
parsed, but it was only consumed when trailing separators were also allowed.
---
 src/algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 2f50c34..0a27163 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -256,8 +256,9 @@ where
                         // We've already matched enough, we're done. We may
                         // however need to restore the state to before the
                         // separator, which already matched if there was one.
+                        // A leading separator is allowed even without items.
                         if let Some(state) = before_separator {
-                            if !allow_trailing {
+                            if !allow_trailing && !output.is_empty() {
                                 stream.restore(&state);
                             }
                         }
-- 
2.43.0


From 81ddda700c391e3e26993ce772099262912936ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 09/18] fix: report the span of the found token in end() and
 none_of() errors

All other expected-found errors carry the span of the token that was found;
using a location for these prevented them from being merged with others for
the same token.
---
 src/primitive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitive.rs b/src/primitive.rs
index 51cc36c..3214ccf 100644
--- a/src/primitive.rs
+++ b/src/primitive.rs
@@ -122,7 +122,7 @@ where
                 vec![E::expected_found(
                     [None],
                     stream.token().cloned(),
-                    error::At::Location(stream.location()),
+                    error::At::Span(stream.span()),
                 )],
             )
         }
@@ -529,7 +529,7 @@ where
                 vec![E::expected_found(
                     [],
                     None,
-                    error::At::Location(stream.location()),
+                    error::At::Span(stream.span()),
                 )],
             )
         }
-- 
2.43.0


From 25923f5a02a1d15de5055755962a27bb8850d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:09 +0000
Subject: [PATCH 10/18] fix: do not allocate for the minimum of a repetition
 before parsing it

A large minimum made any parse panic with a capacity overflow (or abort when
the allocation failed), even if the input does not have that many items.
---
 src/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 0a27163..0d222b6 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -178,7 +178,7 @@ where
     let mut recovery: Option<Vec<C::Error>> = None;
 
     // Gather the results in a vector.
-    let mut output = Vec::with_capacity(minimum);
+    let mut output = Vec::new();
 
     // Parse items.
     loop {
-- 
2.43.0


From cc84422f05770d5375de05da2bc738359f87c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 11/18] fix: return the incoming token from just()

---
 src/primitive.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primitive.rs b/src/primitive.rs
index 3214ccf..1bb55d3 100644
--- a/src/primitive.rs
+++ b/src/primitive.rs
@@ -170,10 +170,11 @@ where
     ) -> parser::Result<Self::Output, E> {
         // Match the incoming token.
         let found = stream.token();
-        if found == Some(&self.expected) {
+        if let Some(found) = found.filter(|found| *found == &self.expected) {
             // Matched successfully, skip past it and return success.
+            let found = found.clone();
             stream.advance();
-            parser::Result::Success(self.expected.clone())
+            parser::Result::Success(found)
         } else {
             // Construct error message.
             let found = found.cloned();
-- 
2.43.0


From 3bde7b3f4c1279eb3ed12cebad8104e386b729d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 12/18] fix: render the place in delimiter errors as a
 well-formed message

---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 6922689..0d38cbd 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -348,14 +348,14 @@ where
             Simple::UnmatchedLeftDelimiter(lt, ls, before) => {
                 write!(f, "unmatched left {lt} ({ls})")?;
                 if before.is_known() {
-                    write!(f, "; must be closed before {before}")?;
+                    write!(f, "; must be closed before {before:#}")?;
                 }
                 Ok(())
             }
             Simple::UnmatchedRightDelimiter(rt, rs, after) => {
                 write!(f, "unmatched right {rt} ({rs})")?;
                 if after.is_known() {
-                    write!(f, "; must be opened after {after}")?;
+                    write!(f, "; must be opened after {after:#}")?;
                 }
                 Ok(())
             }
-- 
2.43.0


From 367c2b5f777b2b78e9a5139fa5ffe445c1a9ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 13/18] fix: pass the arguments of parse in order in
 tokenize_and_parse

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index fa1f501..3f87e15 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -455,7 +455,7 @@ class AstGrammar:
         return self.grammar_parsers[name].parse(tokens)
 
     def tokenize_and_parse(self, s, name=None):
-        return self.parse(name, list(self.tokenize(s)))
+        return self.parse(list(self.tokenize(s)), name)
 
 
 def chumsky_construct(elements, name_lookup, case_convert, type_name, variant_names):
-- 
2.43.0


From 658d255888a9f64c0d9ff1c8a62beb2a76115f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 14/18] fix: compare character sets by their inversion and
 ranges

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 3f87e15..09481db 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -1217,7 +1217,7 @@ class AstCharacterSet:
         return None
 
     def __eq__(self, other):
-        return type(self) == type(other) and self.s == other.s
+        return type(self) == type(other) and self.inverted == other.inverted and self.ranges == other.ranges
 
     def __hash__(self):
         return hash((type(self), self.inverted, *self.ranges))
-- 
2.43.0


From 875eaa923b1a01c1dd8d9fce96580d1ab7ef7db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 15/18] fix: leave out nodes without tokens when combining
 spans in bootstrap.py

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index 09481db..f556187 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -99,7 +99,7 @@ class Node:
         for child in children:
             if span is None:
                 span = child.span
-            else:
+            elif child.span is not None:
                 span = span + child.span
         return cls(name, children, span)
 
-- 
2.43.0


From a1c06e9d6376e8ef8a374024a4ce49eebca3edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 16/18] fix: accept grammars without a whitespace rule in
 bootstrap.py

---
 pangram/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index f556187..afb2256 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -426,7 +426,7 @@ class AstGrammar:
             is_token = used_rule in token_rule_map
             if is_token and is_grammar:
                 raise ValueError(f"{used_rule} is defined as both a grammar and token rule")
-            if not is_token and not is_grammar:
+            if not is_token and not is_grammar and used_rule != "_":
                 raise ValueError(f"{used_rule} is not defined")
 
         # Build regular expressions for the token rules.
-- 
2.43.0


From 05fa36ee51b3ae6fcae4e6489da138d47382fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 17/18] fix: let [^] match newlines in bootstrap.py

---
 pangram/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index afb2256..ea5832c 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -433,7 +433,7 @@ class AstGrammar:
         self.token_regexes = {} # {name: regex}
         for name, (_, rule) in self.token_rules.items():
             regex = rule.as_regex(token_frag_lookup, [name])
-            self.token_regexes[name] = re.compile(regex)
+            self.token_regexes[name] = re.compile(regex, re.DOTALL)
 
         # Build ad-hoc recursive-descent parsers for the grammar rules.
         self.grammar_parsers = {name: Parser(name) for name in self.grammar_rules}
@@ -1239,7 +1239,7 @@ if __name__ == "__main__":
         ("Pls", re.compile(r"\+")),
         ("Lp", re.compile(r"\(")),
         ("Rp", re.compile(r"\)")),
-        ("StringLiteral", re.compile(r"('([^'#]|#.)+'|\"([^\"#]|#.)+\")")),
+        ("StringLiteral", re.compile(r"('([^'#]|#.)+'|\"([^\"#]|#.)+\")", re.DOTALL)),
         ("CharacterSet", re.compile(r"(\[\^?(([^\^\-\]#]|#([^xuU]|x[0-9a-fA-F][0-9a-fA-F]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]|U[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))(-([^\^\-\]#]|#([^xuU]|x[0-9a-fA-F][0-9a-fA-F]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]|U[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F])))?)*\])")),
         ("CharacterLiteral", re.compile(r"(#([^xuU]|x[0-9a-fA-F][0-9a-fA-F]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]|U[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))")),
         ("Doc", re.compile(r"(/\*\*([^\*]|\*+[^\*/])*\**\*/)")),
-- 
2.43.0


From 76c0c2194a399a023bd851202af29c8e01fd61d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 18/18] fix: let the empty character set match nothing in
 bootstrap.py

---
 pangram/bootstrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pangram/bootstrap.py b/pangram/bootstrap.py
index ea5832c..f608779 100644
--- a/pangram/bootstrap.py
+++ b/pangram/bootstrap.py
@@ -1193,6 +1193,8 @@ class AstCharacterSet:
                 return f"[^{body}]"
             else:
                 return "."
+        if not body:
+            return r"[^\s\S]"
         return f"[{body}]"
 
     def as_parser(self, parser_lookup, case_convert):
-- 
2.43.0

